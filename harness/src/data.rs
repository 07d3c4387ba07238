//! Input data: a small language of input specifications.
//!   hex:<hex>                       literal bytes
//!   file:<path>:<off>:<len>         part of a file (len 0: to the end)
//!   gen:<family>:<seed>:<len>[:<maxsym>]
//!   cat:<spec>+<spec>...            concatenation (no nesting of cat)
//!   td:<version>:<seed>:<spec>      a valid normal TD0 image with the given body
//!   ta:<version>:<seed>:<spec>      the same with the advanced signature
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
}

pub fn hex_dec(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    let b = s.as_bytes();
    (0..b.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect()
}
pub fn hex_enc(b: &[u8]) -> String {
    if b.is_empty() { return "-".into(); }
    let mut s = String::with_capacity(2 * b.len());
    for x in b { s.push_str(&format!("{:02x}", x)); }
    s
}

pub fn crc16(buf: &[u8]) -> u16 {
    let mut crc: u16 = 0;
    for b in buf {
        crc ^= (*b as u16) << 8;
        for _ in 0..8 { crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0xa097 } else { crc << 1 }; }
    }
    crc
}

pub fn td_header(adv: bool, ver: u8, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x7d0);
    let mut h: Vec<u8> = if adv { b"td".to_vec() } else { b"TD".to_vec() };
    for i in 2..10 { h.push(if i == 4 { ver } else { r.below(256) as u8 }); }
    let c = crc16(&h);
    h.push(c as u8);
    h.push((c >> 8) as u8);
    h
}

/// The token-frequency construction that drives an adaptive Huffman table to codes of
/// more than 16 bits: symbol i occurs Fibonacci-many times, the rest hardly ever.
fn long_codes_literals(rare: usize) -> Vec<u8> {
    let counts = [240usize, 390, 630, 1020, 1650, 2670, 4320, 6990, 11310];
    let mut out = Vec::new();
    for (i, c) in counts.iter().enumerate() { out.extend(std::iter::repeat(i as u8).take(*c)); }
    for i in 0..rare { out.push(255 - (i as u8)); }
    out
}
/// Same through match-length symbols: runs of 60, 59, ... bytes, told apart by Eulerian pairs.
fn long_codes_runs(rare: usize) -> Vec<u8> {
    let counts = [8472usize, 5236, 3236, 2000, 1236, 764, 472, 292, 180];
    let mut out = Vec::new();
    // an order of (byte) values in which neighbours differ
    let mut k = 0u64;
    let k0: Vec<u8> = (0..10u8).collect();
    let mut prev = 255u8;
    for (t, c) in counts.iter().enumerate().rev() {
        for _ in 0..*c {
            let mut b = k0[(k % 10) as usize];
            k = k.wrapping_mul(3).wrapping_add(1) % 1009;
            if b == prev { b = (b + 1) % 10; }
            prev = b;
            out.extend(std::iter::repeat(b).take(60 - t));
        }
    }
    for i in 0..rare { out.push(255 - (i as u8)); }
    out
}

const WORDS: [&str; 40] = ["the", "and", "to", "of", "king", "my", "lord", "what", "this", "is", "not", "Hamlet", "it", "a", "you", "shall",
    "Enter", "HORATIO", "in", "that", "with", "for", "be", "him", "ghost", "night", "speak", "father", "thy", "heaven", "sword", "\n\n",
    "  ", ".\n", ", ", "o'er", "tis", "Denmark", "swear", "Exeunt"];

pub fn gen(family: &str, seed: u64, len: usize, maxsym: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let m = (maxsym + 1) as u64;
    let mut v: Vec<u8> = Vec::with_capacity(len);
    match family {
        "uniform" => while v.len() < len { v.push(r.below(m) as u8) },
        "const" => { let b = r.below(m) as u8; v = vec![b; len] }
        "zeros" => v = vec![0; len],
        "spaces" => v = vec![b' '.min(maxsym as u8); len],
        "binary" => { let (a, b) = (r.below(m) as u8, r.below(m) as u8); while v.len() < len { v.push(if r.chance(1, 2) { a } else { b }) } }
        "spaceab" => while v.len() < len { v.push([b' ', b' ', b' ', b'a', b'b', 0][r.below(6) as usize].min(maxsym as u8)) },
        "few" => { let k = 2 + r.below(5); let s: Vec<u8> = (0..k).map(|_| r.below(m) as u8).collect(); while v.len() < len { v.push(s[r.below(k) as usize]) } }
        "runs" => while v.len() < len { let b = r.below(m) as u8; let n = 1 + r.below(130); for _ in 0..n { v.push(b) } },
        "period" => { let p = 1 + r.below(300) as usize; let base: Vec<u8> = (0..p).map(|_| r.below(m) as u8).collect(); while v.len() < len { v.push(base[v.len() % p]) } }
        "far" => { // repeats at distances near the window size, lengths near the lookahead
            let dist = [4096usize, 4095, 4097, 4036, 4037, 4035, 3976, 64, 128][r.below(9) as usize];
            while v.len() < len {
                if v.len() >= dist && r.chance(1, 3) {
                    let n = [1usize, 2, 3, 4, 58, 59, 60, 61, 62, 120][r.below(10) as usize];
                    for _ in 0..n { let b = v[v.len() - dist]; v.push(b) }
                } else { v.push(r.below(m) as u8) }
            }
        }
        "text" => while v.len() < len {
            v.extend_from_slice(WORDS[(r.below(40) * r.below(40) / 40) as usize].as_bytes());
            if r.chance(4, 5) { v.push(b' ') }
        },
        "skew" => while v.len() < len { let mut b = 0u64; while b < m - 1 && r.chance(5, 8) { b += 1 } v.push(b as u8) },
        "incr" => { let st = r.below(256); while v.len() < len { v.push(((st + v.len() as u64) % m) as u8) } }
        "ring" => { // a string of nearly the lookahead, over and over, where the ring (4096) wraps, the last byte in doubt
            let small = r.chance(1, 2);
            while v.len() < len { v.push(if small { r.below(3) * 50 } else { r.below(m) } as u8) }
            let n = [57usize, 58, 59, 60, 61, 62, 90][r.below(7) as usize];
            let s: Vec<u8> = (0..n + 1).map(|_| if r.chance(1, 30) { 0 } else { r.below(m) as u8 }).collect();
            let mut put = |at: usize, r: &mut Rng| {
                let mut t = s.clone();
                match r.below(6) {
                    0 => { let i = r.below(t.len() as u64) as usize; t[i] = r.below(m) as u8 }
                    1 => { let i = 54 + r.below(t.len() as u64 - 54) as usize; t[i] = 0 }
                    2 => { let i = t.len() - 1; t[i] = r.below(m) as u8 }
                    3 => { let i = t.len() - 1; t[i] = 0 }
                    4 => { let i = t.len() - 2; t[i] ^= 1 }
                    _ => {}
                }
                for (i, b) in t.iter().enumerate() { if at + i < v.len() { v[at + i] = *b } }
            };
            let exact = r.chance(1, 2);
            for lap in 0..len / 4096 + 1 {
                for _ in 0..2 + r.below(4) { let at = 4096 * lap + 130 + r.below(3800) as usize; put(at, &mut r) }
                // (the position 4095 of the ring comes at 59, 4155, ...)
                let at = 4096 * lap + 59;
                let at = if exact { at } else { (at + 5).saturating_sub(r.below(66) as usize) };
                put(at, &mut r);
            }
        }
        "mix" => {
            let fams = ["uniform", "runs", "text", "few", "period", "far", "skew", "spaces", "binary"];
            while v.len() < len {
                let f = fams[r.below(9) as usize];
                let n = 1 + r.below(1 + (len as u64) / 3) as usize;
                let s = r.next();
                v.extend(gen(f, s, n, maxsym));
            }
        }
        "longlit" => v = long_codes_literals(len.min(240)),
        "longrun" => v = long_codes_runs(len.min(200)),
        _ => panic!("unknown family {}", family),
    }
    if family != "longlit" && family != "longrun" { v.truncate(len); }
    for b in v.iter_mut() { if *b as usize > maxsym { *b = (*b as usize % (maxsym + 1)) as u8 } }
    v
}

pub fn input(spec: &str) -> Vec<u8> {
    if let Some(s) = spec.strip_prefix("hex:") { return hex_dec(s); }
    if let Some(s) = spec.strip_prefix("cat:") { return s.split('+').flat_map(|p| input(p)).collect(); }
    if spec.starts_with("td:") || spec.starts_with("ta:") {
        let f: Vec<&str> = spec.splitn(4, ':').collect();
        let mut h = td_header(f[0] == "ta", f[1].parse().unwrap(), f[2].parse().unwrap());
        h.extend(input(f[3]));
        return h;
    }
    let f: Vec<&str> = spec.split(':').collect();
    match f[0] {
        "gen" => gen(f[1], f[2].parse().unwrap(), f[3].parse().unwrap(), f.get(4).map_or(255, |x| x.parse().unwrap())),
        "file" => {
            let d = std::fs::read(f[1]).expect("input file");
            let off: usize = f[2].parse().unwrap();
            let len: usize = f[3].parse().unwrap();
            let off = off.min(d.len());
            let end = if len == 0 { d.len() } else { (off + len).min(d.len()) };
            d[off..end].to_vec()
        }
        _ => panic!("bad input spec {}", spec),
    }
}
