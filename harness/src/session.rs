//! Performs a script of calls.  Lines (fields separated by blanks, options key=value):
//!   S <label>                            new session: forgets all values
//!   V <name> <inputspec>                 a value
//!   D <name> cut <src> <n> | mut <src> <seed> <count> | app <src> <inputspec>
//!            | comp <codec> <src> | hdr <src> <n>          a derived value
//!   C|X <codec> in=<v> [out=<v>] [ref=<v>] [full=<v>] [io=full|one|rand|intr|cursor|file|slice|fresh]
//!            (fresh: as full, but the first call of a process of its own)
//!            [ino=<n>] [outo=<n>] [pre=<n>|+<n>|-<n>] [lim=<n>] [ipos=<n>] [opos=<n>]
//!            [bytes=1] [ev=0]          (ipos, opos: where the objects stand before the call)
//!   F C|X <codec> in=<v> side=in|out|both sticky=0|1 [from=] [stride=] [max=] [io=]
//!            [kind=eof|zero|block|time|data|pipe]     the failing operation's error, zero: a write that takes nothing
//!   T <codec> of=<v> ref=<v> n=<count>|all seed=<n> [bytes=1]      truncations
//!   M <codec> of=<v> n=<count> seed=<n> [bytes=1]                  mutations
//!   L C|X <codec> real=<v> vlen=<n> lim=<n>|- ino=<n>              pretended lengths
//!   P <codec>@<v>;<codec>@<v>;...                                  concurrent calls
use crate::data::{self, Rng};
use crate::obj::{Mode, Obj, Plan};
use crate::ops::{self, Codec, Res};
use crate::watch;
use std::collections::HashMap;
use std::fmt::Write as FW;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Cursor, Seek, SeekFrom, Write};
use std::rc::Rc;

type Val = Rc<Vec<u8>>;

#[derive(Default)]
struct Sess {
    vals: HashMap<String, Val>,
    ids: HashMap<(u64, u64, usize), usize>,
    lens: HashMap<(String, bool, usize), usize>,
    no: usize,
    label: String,
}

fn hash2(b: &[u8]) -> (u64, u64, usize) {
    let mut h1 = std::collections::hash_map::DefaultHasher::new();
    1u8.hash(&mut h1); b.hash(&mut h1);
    let mut h2 = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h2); 7u32.hash(&mut h2);
    (h1.finish(), h2.finish(), b.len())
}

impl Sess {
    fn id(&mut self, b: &[u8]) -> usize { let n = self.ids.len() + 1; *self.ids.entry(hash2(b)).or_insert(n) }
    fn val(&self, n: &str) -> Val { self.vals.get(n).unwrap_or_else(|| panic!("no value {}", n)).clone() }
}

fn junk(n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0xabcd);
    (0..n).map(|_| 1 + r.below(255) as u8).collect()
}
fn lcp(a: &[u8], b: &[u8]) -> usize { a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count() }

/// an upper limit for what the object may be made to hold: a little above what the
/// specification allows
fn cap(c: &Codec, compress: bool, x: &[u8]) -> usize {
    let n = x.len();
    if compress { return 16 * n + 4096 }
    match c {
        Codec::Lzw(o) => { let k = 8 * n / o.max_code_width.max(1) + 1; (k * (k + 1) / 2).min(1 << 27) + 4096 }
        Codec::Td0 => (64 * 8 * n).max((8 * n / 12 + 1).pow(2)).min(1 << 27) + 4096,
        Codec::Lzss(o) => if o.header { hdr_len(x).min(8 * n * o.lookahead) as usize + o.lookahead + 64 } else { 8 * n * o.lookahead + 64 },
        Codec::Port => hdr_len(x).min(1 << 27) + 4096,
    }
}
fn hdr_len(x: &[u8]) -> usize { if x.len() < 4 { 0 } else { u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize } }

#[derive(Clone)]
struct Par { io: String, ino: u64, outo: u64, pre: usize, lim: Option<u64>, side: &'static str, fail: u64, sticky: bool, vlen: Option<u64>, kind: Option<std::io::ErrorKind>, ipos: u64, opos: u64 }
impl Default for Par {
    fn default() -> Self { Par { io: "full".into(), ino: 0, outo: 0, pre: 0, lim: None, side: "", fail: 0, sticky: false, vlen: None, kind: Some(std::io::ErrorKind::Other), ipos: 0, opos: 0 } }
}
struct Out {
    res: Res,
    out: Vec<u8>,      // final contents of the output object
    prior: Vec<u8>,
    src: bool,         // input object unchanged
    fired: bool, runaway: bool,
    hw: i64,           // end of the furthest byte written, -1: unknown
    read: i64,         // bytes read, -1: unknown
}

/// the call as the first one of a new process
fn fresh(key: &str, compress: bool, x: &[u8]) -> Out {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("own path");
    let mut ch = Command::new(exe).args(["one", key, if compress { "C" } else { "X" }]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("new process");
    // (the child reads everything before it writes anything)
    ch.stdin.take().unwrap().write_all(x).expect("pipe");
    let mut b = vec![];
    ch.stdout.take().unwrap().read_to_end(&mut b).expect("pipe");
    let st = ch.wait().expect("child");
    let nl = b.iter().position(|c| *c == b'\n').unwrap_or_else(|| panic!("no answer from the new process: {}", st));
    let head = String::from_utf8_lossy(&b[..nl]).to_string();
    let f: Vec<&str> = head.split(' ').collect();
    let names = ["ok", "panic", "ffm", "big", "crc", "probe", "eof", "io", "err"];
    let r = names.iter().copied().find(|n| *n == f[0]).unwrap_or_else(|| panic!("answer {}", head));
    let num = |i: usize| f[i].parse::<i64>().unwrap();
    Out { res: Res { r, sizes: (num(1) as u64, num(2) as u64), msg: head.clone() }, out: b[nl + 1..].to_vec(), prior: vec![],
          src: num(3) == 1, fired: false, runaway: num(4) == 1, hw: num(5), read: num(6) }
}
pub fn one(key: &str, op: &str) {
    use std::io::Read;
    let mut x = vec![];
    std::io::stdin().read_to_end(&mut x).expect("input");
    watch::begin("one");
    let o = call(&ops::codec(key).codec, op == "C", &x, &Par::default(), "");
    watch::end();
    let mut w = std::io::stdout().lock();
    let _ = writeln!(w, "{} {} {} {} {} {} {}", o.res.r, o.res.sizes.0 as i64, o.res.sizes.1 as i64, o.src as u8, o.runaway as u8, o.hw, o.read);
    let _ = w.write_all(&o.out);
    let _ = w.flush();
}

fn call(c: &Codec, compress: bool, x: &[u8], p: &Par, scratch: &str) -> Out {
    let c = c.with(p.ino, p.outo, p.lim);
    let mut src = junk(p.ino as usize, 5);
    src.extend_from_slice(x);
    let prior = junk(p.pre, 6);
    match p.io.as_str() {
        "slice" => {
            let (res, out) = ops::run_slice(&c, compress, &src);
            Out { res, out, prior: vec![], src: true, fired: false, runaway: false, hw: -1, read: -1 }
        }
        "cursor" => {
            let mut i = Cursor::new(src.clone());
            let mut o = Cursor::new(prior.clone());
            i.set_position(p.ipos);
            o.set_position(p.opos);
            let res = ops::run(&c, compress, &mut i, &mut o);
            Out { res, out: o.into_inner(), prior, src: i.into_inner() == src, fired: false, runaway: false, hw: -1, read: -1 }
        }
        "file" => {
            let pi = format!("{}/in.{:?}", scratch, std::thread::current().id());
            let po = format!("{}/out.{:?}", scratch, std::thread::current().id());
            std::fs::write(&pi, &src).expect("scratch");
            std::fs::write(&po, &prior).expect("scratch");
            let mut i = std::fs::File::open(&pi).expect("scratch");
            let mut o = std::fs::OpenOptions::new().write(true).open(&po).expect("scratch");
            i.seek(SeekFrom::Start(p.ipos)).expect("scratch");
            o.seek(SeekFrom::Start(p.opos)).expect("scratch");
            let res = ops::run(&c, compress, &mut i, &mut o);
            drop(o);
            let out = std::fs::read(&po).expect("scratch");
            let same = std::fs::read(&pi).expect("scratch") == src;
            let _ = std::fs::remove_file(&pi);
            let _ = std::fs::remove_file(&po);
            Out { res, out, prior, src: same, fired: false, runaway: false, hw: -1, read: -1 }
        }
        io => {
            let mode = match io { "one" => Mode::One, "rand" => Mode::Rand, "intr" => Mode::Intr, _ => Mode::Full };
            let none = Plan::new(0, false);
            let plan = Plan::new(p.fail, p.sticky);
            plan.kind.set(p.kind);
            let (pi, po) = match p.side { "in" => (plan.clone(), none.clone()), "out" => (none.clone(), plan.clone()), "both" => (plan.clone(), plan.clone()), _ => (none.clone(), none.clone()) };
            let mut i = Obj::new(src.clone(), mode, pi, usize::MAX);
            i.vlen = p.vlen;
            i.pos = p.ipos;
            let cp = cap(&c, compress, x) + (p.outo as usize).max(p.pre);
            let mut o = Obj::new(prior.clone(), mode, po, cp);
            o.pos = p.opos;
            let res = ops::run(&c, compress, &mut i, &mut o);
            let runaway = plan.runaway.get() || none.runaway.get();
            Out { res, out: std::mem::take(&mut o.data), prior, src: i.data == src, fired: plan.fired.get(), runaway, hw: if o.written { o.hw as i64 } else { 0 }, read: i.bytes_read as i64 }
        }
    }
}

fn arr(b: &[u8]) -> String {
    let mut s = String::with_capacity(4 * b.len() + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() { if i > 0 { s.push(',') } let _ = write!(s, "{}", x); }
    s.push(']');
    s
}

struct Log { ev: BufWriter<std::fs::File>, lzw: BufWriter<std::fs::File>, lzh: BufWriter<std::fs::File>, n: usize, nb: usize }

/// what a call is about, beside its parameters
#[derive(Default, Clone)]
struct About { line: String, refv: Option<Val>, full: Option<Val> }

fn split(n: u64) -> String { format!("[{},{}]", n >> 16, n & 0xffff) }

fn event(s: &mut Sess, log: &mut Log, key: &str, c: &Codec, compress: bool, x: &[u8], p: &Par, a: &About, o: &Out) -> Vec<u8> {
    let outo = (p.outo as usize).min(o.out.len());
    let ok = o.res.r == "ok";
    // the bytes produced: from the output offset, to the end, or as many as the call claims
    // (or as many as the same operation produced into an empty object, if that is known)
    let xi = s.id(x);
    let count = s.lens.get(&(key.to_string(), compress, xi)).map_or(o.res.sizes.1, |n| *n as u64);
    let to = if p.io == "slice" || o.prior.len() <= p.outo as usize { o.out.len() } else { (outo as u64).saturating_add(count).min(o.out.len() as u64) as usize };
    let y: Vec<u8> = if ok { o.out[outo..to].to_vec() } else { vec![] };
    let td = matches!(c, Codec::Td0);
    let before = lcp(&o.out, &o.prior) >= outo.min(o.prior.len());
    let after = if ok && to < o.prior.len() { o.out.len() == o.prior.len() && o.out[to..] == o.prior[to..] } else { true };
    let untouched = o.out == o.prior;
    let yi = if ok { s.id(&y) } else { 0 };
    let (ri, rl, lc) = match &a.refv { Some(r) => (s.id(r), r.len(), lcp(r, &y)), None => (0, 0, 0) };
    let fi = match &a.full { Some(f) => s.id(f), None => 0 };
    let (h, g, bx, by) = if td {
        let k = x.len().min(12);
        (x[..k].to_vec(), y[..y.len().min(12)].to_vec(), s.id(&x[k..]), if ok { let b = y[y.len().min(12)..].to_vec(); s.id(&b) } else { 0 })
    } else { (vec![], vec![], 0, 0) };
    if ok && p.outo == 0 && o.prior.is_empty() && p.fail == 0 { s.lens.insert((key.to_string(), compress, xi), y.len()); }
    let hl = match c { Codec::Lzss(o) if o.header => Some(hdr_len(x)), Codec::Port => Some(hdr_len(x)), _ => None };
    let lim = p.lim.unwrap_or(c.limit());
    let xlen = p.vlen.map_or(x.len() as u64, |v| v - p.ino);
    let size = |n: u64| if p.io == "slice" { -1 } else { n.min(2_000_000_000) as i64 };
    let (fam, hdr, la, w) = match c { Codec::Lzw(o) => ("lzw", 0, 0, o.max_code_width), Codec::Lzss(o) => ("lzss", o.header as u8, o.lookahead, 0), Codec::Port => ("port", 1, 60, 0), Codec::Td0 => ("td0", 0, 60, 12) };
    let mut e = String::new();
    let _ = write!(e, "{{\"fam\":\"{}\",\"hdr\":{},\"F\":{},\"w\":{},\"id\":{},\"s\":{},\"op\":\"{}\",\"m\":\"{}\",\"io\":\"{}\",\"x\":{},\"xl\":{},\"r\":\"{}\",\"y\":{},\"yl\":{},\"is\":{},\"os\":{}",
        fam, hdr, la, w, log.n, s.no, if compress { "C" } else { "X" }, key, p.io, xi, x.len(), o.res.r, yi, y.len(), size(o.res.sizes.0), size(o.res.sizes.1));
    let _ = write!(e, ",\"ino\":{},\"outo\":{},\"prel\":{},\"tot\":{},\"before\":{},\"after\":{},\"src\":{},\"un\":{}",
        p.ino, p.outo, o.prior.len(), o.out.len(), before as u8, after as u8, o.src as u8, untouched as u8);
    let _ = write!(e, ",\"ref\":{},\"refl\":{},\"lcp\":{},\"full\":{},\"len\":{},\"lim\":{},\"setlim\":{},\"hl\":{},\"virt\":{},\"hw\":{},\"read\":{}",
        ri, rl, lc, fi, split(xlen), split(lim), p.lim.is_some() as u8, hl.map_or(-1, |h| h.min(2_000_000_000) as i64), p.vlen.is_some() as u8, o.hw.min(2_000_000_000), o.read);
    let _ = write!(e, ",\"fail\":{},\"fired\":{},\"run\":{},\"h\":{},\"g\":{},\"bx\":{},\"by\":{}}}",
        p.fail, o.fired as u8, o.runaway as u8, arr(&h), arr(&g), bx, by);
    e.push('\n');
    let _ = log.ev.write_all(e.as_bytes());
    if o.res.r == "panic" { println!("PANIC {} {} | {}", log.n, a.line, o.res.msg) }
    println!("#{} {} {}", log.n, s.label, a.line);
    log.n += 1;
    y
}

fn bytes(log: &mut Log, c: &Codec, compress: bool, x: &[u8], o: &Out, y: &[u8], line: &str) {
    let res = match o.res.r { "ok" => "ok", "panic" => "panic", _ => "err" };
    log.nb += 1;
    println!("@{} {}", log.nb, line);
    let tail = format!("\"in\":{},\"res\":\"{}\",\"out\":{}}}\n", arr(x), res, arr(y));
    let k = if compress { "enc" } else { "dec" };
    match c {
        Codec::Lzw(p) => {
            let opt = |v: Option<usize>| v.map_or(-1, |u| u as i64);
            let ord = match p.ord { retrocompressor::BitOrder::Lsb0 => "lsb", _ => "msb" };
            let _ = write!(log.lzw, "{{\"id\":{},\"k\":\"{}\",\"o\":{{\"hb\":{},\"hd\":{},\"chunk\":{},\"maxsym\":{},\"clear\":{},\"stop\":{},\"w\":{},\"ord\":\"{}\"}},{}",
                log.nb, k, p.header_bits, p.header_divisor, p.chunk_size, p.max_symbol, opt(p.clear_code), opt(p.stop_code), p.max_code_width, ord, tail);
        }
        Codec::Lzss(p) => {
            let _ = write!(log.lzh, "{{\"id\":{},\"k\":\"{}\",\"N\":{},\"F\":{},\"T\":{},\"pre\":{},\"hdr\":{},\"zeros\":0,{}",
                log.nb, k, p.window_size, p.lookahead, p.threshold, p.precursor, p.header as u8, tail);
        }
        Codec::Port => {
            let _ = write!(log.lzh, "{{\"id\":{},\"k\":\"{}\",\"N\":4096,\"F\":60,\"T\":2,\"pre\":32,\"hdr\":1,\"zeros\":1,{}", log.nb, k, tail);
        }
        Codec::Td0 => panic!("no byte traces for td0"),
    }
}

fn mutate(x: &[u8], c: &Codec, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = x.to_vec();
    // headers stay sensible most of the time, and always for the port, which trusts them
    let keep = match c { Codec::Td0 => 12, Codec::Port => 4, Codec::Lzss(o) if o.header && r.chance(3, 4) => 4, _ => 0 };
    for _ in 0..1 + r.below(4) {
        if v.len() <= keep { break }
        let span = v.len() - keep;
        let at = keep + if r.chance(1, 3) { r.below(span.min(24) as u64) as usize } else { r.below(span as u64) as usize };
        match r.below(8) {
            0 | 1 => v[at] ^= 1 << r.below(8),
            2 => v[at] = r.below(256) as u8,
            3 => v[at] = [0, 255, 128, 1][r.below(4) as usize],
            4 => { v.remove(at); }
            5 => v.insert(at, r.below(256) as u8),
            6 => { let n = r.below(40) as usize; let s: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect(); v.splice(at..at, s); }
            _ => v.truncate(at),
        }
    }
    v
}

pub fn run(script: &str, evp: &str, bytesp: &str) {
    let text = std::fs::read_to_string(script).expect("script");
    let scratch = std::env::var("RCV_SCRATCH").unwrap_or_else(|_| "/nonexistent".into());
    let mk = |p: &str| BufWriter::new(std::fs::File::create(p).expect("output"));
    let mut log = Log { ev: mk(evp), lzw: mk(&format!("{}.lzw", bytesp)), lzh: mk(&format!("{}.lzh", bytesp)), n: 1, nb: 0 };
    let mut s = Sess::default();
    for line in text.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.is_empty() { continue }
        let kv: HashMap<&str, &str> = f.iter().filter_map(|t| t.split_once('=')).collect();
        let get = |k: &str| kv.get(k).copied();
        let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("{}", line)));
        watch::begin(line);
        match f[0] {
            "S" => { let no = s.no + 1; s = Sess::default(); s.no = no; s.label = f.get(1).unwrap_or(&"").to_string() }
            "V" => { s.vals.insert(f[1].into(), Rc::new(data::input(f[2]))); }
            "D" => {
                let v = match f[2] {
                    "cut" => { let v = s.val(f[3]); v[..f[4].parse::<usize>().unwrap().min(v.len())].to_vec() }
                    "mut" => mutate(&s.val(f[3]), &Codec::Port, f[4].parse().unwrap()),
                    "app" => { let mut v = s.val(f[3]).to_vec(); v.extend(data::input(f[4])); v }
                    "hdr" => { let mut v = s.val(f[3]).to_vec(); let n: u32 = f[4].parse().unwrap(); v[..4].copy_from_slice(&n.to_le_bytes()); v }
                    "comp" => { let c = ops::codec(f[3]).codec; ops::run_slice(&c, true, &s.val(f[4])).1 }
                    _ => panic!("{}", line),
                };
                s.vals.insert(f[1].into(), Rc::new(v));
            }
            "C" | "X" => {
                let sp = ops::codec(f[1]);
                let x = s.val(get("in").expect("in"));
                let compress = f[0] == "C";
                let outo = num("outo", 0);
                let mut p = Par { io: get("io").unwrap_or("full").into(), ino: num("ino", 0), outo, lim: get("lim").map(|v| v.parse().unwrap()), ipos: num("ipos", 0), opos: num("opos", 0), ..Default::default() };
                if let Some(v) = get("pre") {
                    let xi = s.id(&x);
                    let base = outo as i64 + *s.lens.get(&(sp.key.clone(), compress, xi)).unwrap_or(&x.len()) as i64;
                    let n: i64 = v.trim_start_matches('+').parse().unwrap();
                    p.pre = if v.starts_with('+') || v.starts_with('-') { (base + n).max(0) } else { n } as usize;
                }
                let a = About { line: line.into(), refv: get("ref").map(|n| s.val(n)), full: get("full").map(|n| s.val(n)) };
                let o = if p.io == "fresh" { fresh(&sp.key, compress, &x) } else { call(&sp.codec, compress, &x, &p, &scratch) };
                let y = if get("ev") == Some("0") { o.out.clone() } else { event(&mut s, &mut log, &sp.key, &sp.codec, compress, &x, &p, &a, &o) };
                if get("bytes") == Some("1") { bytes(&mut log, &sp.codec, compress, &x, &o, &y, line) }
                if let Some(n) = get("out") { s.vals.insert(n.into(), Rc::new(y)); }
            }
            "F" => {
                let sp = ops::codec(f[2]);
                let x = s.val(get("in").expect("in"));
                let side = match get("side") { Some("in") => "in", Some("out") => "out", _ => "both" };
                use std::io::ErrorKind::*;
                let kind = match get("kind") { Some("zero") => None, Some("eof") => Some(UnexpectedEof), Some("block") => Some(WouldBlock), Some("time") => Some(TimedOut),
                    Some("data") => Some(InvalidData), Some("pipe") => Some(BrokenPipe), _ => Some(Other) };
                let (mut k, stride, max) = (num("from", 1), num("stride", 1), num("max", u64::MAX));
                loop {
                    let p = Par { io: get("io").unwrap_or("full").into(), side, fail: k, sticky: num("sticky", 0) == 1, kind, ..Default::default() };
                    watch::begin(line);
                    let o = call(&sp.codec, f[1] == "C", &x, &p, &scratch);
                    let a = About { line: format!("{} fail_at={}", line, k), ..Default::default() };
                    event(&mut s, &mut log, &sp.key, &sp.codec, f[1] == "C", &x, &p, &a, &o);
                    if !o.fired || k >= max { break }
                    k += stride;
                }
            }
            "T" => {
                let sp = ops::codec(f[1]);
                let (y, r) = (s.val(get("of").unwrap()), s.val(get("ref").unwrap()));
                let mut rng = Rng::new(num("seed", 1));
                let cuts: Vec<usize> = if get("n") == Some("all") { (0..y.len()).collect() } else {
                    let mut v: Vec<usize> = (0..if y.is_empty() { 0 } else { num("n", 10) }).map(|i| match i % 3 { 0 => y.len() - 1 - rng.below((y.len() as u64).min(12)) as usize, 1 => rng.below((y.len() as u64).min(24)) as usize, _ => rng.below(y.len() as u64) as usize }).collect();
                    v.sort(); v.dedup(); v
                };
                for n in cuts {
                    let x = &y[..n];
                    let p = Par { io: get("io").unwrap_or("full").into(), ..Default::default() };
                    let a = About { line: format!("{} cut={}", line, n), refv: Some(r.clone()), full: Some(y.clone()) };
                    watch::begin(&a.line);
                    let o = call(&sp.codec, false, x, &p, &scratch);
                    let z = event(&mut s, &mut log, &sp.key, &sp.codec, false, x, &p, &a, &o);
                    if get("bytes") == Some("1") { bytes(&mut log, &sp.codec, false, x, &o, &z, &a.line) }
                }
            }
            "M" => {
                let sp = ops::codec(f[1]);
                let y = s.val(get("of").unwrap());
                let seed = num("seed", 1);
                for i in 0..num("n", 10) {
                    let x = mutate(&y, &sp.codec, seed.wrapping_mul(1_000_003) + i);
                    let p = Par { io: get("io").unwrap_or("full").into(), ..Default::default() };
                    let a = About { line: format!("{} i={} data={}", line, i, if x.len() <= 400 { data::hex_enc(&x) } else { "(long)".into() }), ..Default::default() };
                    watch::begin(&a.line);
                    let o = call(&sp.codec, false, &x, &p, &scratch);
                    let z = event(&mut s, &mut log, &sp.key, &sp.codec, false, &x, &p, &a, &o);
                    if get("bytes") == Some("1") { bytes(&mut log, &sp.codec, false, &x, &o, &z, &a.line) }
                }
            }
            "L" => {
                let sp = ops::codec(f[2]);
                let x = s.val(get("real").unwrap());
                let p = Par { vlen: Some(num("vlen", 0)), lim: get("lim").and_then(|v| v.parse().ok()), ino: num("ino", 0), outo: num("outo", 0), ..Default::default() };
                let o = call(&sp.codec, f[1] == "C", &x, &p, &scratch);
                let a = About { line: line.into(), ..Default::default() };
                event(&mut s, &mut log, &sp.key, &sp.codec, f[1] == "C", &x, &p, &a, &o);
            }
            "P" => {
                let items: Vec<(String, Vec<u8>)> = f[1].split(';').map(|t| { let (c, v) = t.split_once('@').unwrap(); (c.to_string(), s.val(v).to_vec()) }).collect();
                let gate = std::sync::Arc::new(std::sync::Barrier::new(items.len()));
                let hs: Vec<_> = items.iter().cloned().map(|(c, x)| {
                    let (gate, scratch) = (gate.clone(), scratch.clone());
                    std::thread::spawn(move || {
                        let codec = ops::codec(&c).codec;
                        let p = Par { io: "cursor".into(), ..Default::default() };
                        gate.wait();
                        let o = call(&codec, true, &x, &p, &scratch);
                        let y = o.out.clone();
                        let z = call(&codec, false, &y, &p, &scratch);
                        (o, y, z)
                    })
                }).collect();
                for (h, (c, x)) in hs.into_iter().zip(items) {
                    let (o, y, z) = h.join().expect("thread");
                    let sp = ops::codec(&c);
                    let p = Par { io: "thr".into(), ..Default::default() };
                    let a = About { line: line.into(), ..Default::default() };
                    event(&mut s, &mut log, &sp.key, &sp.codec, true, &x, &p, &a, &o);
                    let a = About { line: line.into(), refv: Some(Rc::new(x)), ..Default::default() };
                    event(&mut s, &mut log, &sp.key, &sp.codec, false, &y, &p, &a, &z);
                }
            }
            _ => panic!("bad line {}", line),
        }
        watch::end();
    }
    let _ = log.ev.flush();
    let _ = log.lzw.flush();
    let _ = log.lzh.flush();
    println!("RAN {} {}", log.n - 1, log.nb);
}
