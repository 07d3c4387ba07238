//! Driver for the code under test.  It decides nothing: it performs calls and writes down
//! what happened, for the TLA+ specifications to judge.
//!   rcv run <script> <events> <bytes>   perform a script (see session.rs)
//!   rcv vec <file>                      replay vectors derived from a specification
//!   rcv lib <codec> C|X <in> <out>    one call on files
//!   rcv one <codec> C|X                 one call; data on standard input (see session.rs)
//!   rcv gen <inputspec> <path>          write an input to a file
mod data;
mod obj;
mod ops;
mod session;
mod watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    watch::start();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => session::run(&a[2], &a[3], &a[4]),
        Some("vec") => vectors(&a[2]),
        Some("lib") => library(&a[2], &a[3], &a[4], &a[5]),
        Some("one") => session::one(&a[2], &a[3]),
        Some("gen") => std::fs::write(&a[3], data::input(&a[2])).expect("write"),
        _ => { eprintln!("usage: rcv run|vec|gen ..."); std::process::exit(2) }
    }
}

/// the result of one library call on a file, as class and file
fn library(codec: &str, op: &str, from: &str, to: &str) {
    let x = std::fs::read(from).expect("input");
    watch::begin("lib");
    let (r, y) = ops::run_slice(&ops::codec(codec).codec, op == "C", &x);
    watch::end();
    if r.r == "ok" { std::fs::write(to, y).expect("output") }
    println!("{}", r.r);
}

/// lines: id codec C|X in(hex) ok|err out(hex)
fn vectors(path: &str) {
    let text = std::fs::read_to_string(path).expect("vectors");
    let (mut n, mut bad) = (0u64, 0u64);
    for line in text.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        if f.len() < 6 { continue; }
        if let Some(seed) = f[1].strip_prefix("crc:") {
            // the checksum function: result, high byte first
            let b = data::hex_dec(f[3]);
            let r = std::panic::catch_unwind(|| retrocompressor::td0::crc16(seed.parse().unwrap(), &b));
            n += 1;
            let got = r.map_or("panic".to_string(), |v| data::hex_enc(&v.to_be_bytes()));
            if got != f[5] { bad += 1; println!("MISMATCH {} {} {} {} expected {} {} got {}", f[0], f[1], f[2], f[3], f[4], f[5], got); }
            continue;
        }
        let c = ops::codec(f[1]).codec;
        let input = data::hex_dec(f[3]);
        watch::begin(line);
        // R: there and back; the padding may give a few more bytes without a length header
        let (r, out) = if f[2] == "R" {
            let (r, y) = ops::run_slice(&c, true, &input);
            let (r, mut z) = if r.r == "ok" { ops::run_slice(&c, false, &y) } else { (r, vec![]) };
            let slack = match &c { ops::Codec::Lzss(o) if !o.header => 7, _ => 0 };
            if z.len() > input.len() && z.len() <= input.len() + slack { z.truncate(input.len()) }
            (r, z)
        } else { ops::run_slice(&c, f[2] == "C", &input) };
        watch::end();
        let good = if f[2] == "R" { r.r == "ok" && out == input } else if f[4] == "ok" { r.r == "ok" && out == data::hex_dec(f[5]) } else { r.r != "ok" && r.r != "panic" };
        n += 1;
        if !good {
            bad += 1;
            if bad <= 200 {
                println!("MISMATCH {} {} {} {} expected {} {} got {} {} {}", f[0], f[1], f[2], f[3], f[4], f[5], r.r, data::hex_enc(&out), r.msg.replace('\n', " "));
            }
        }
    }
    println!("VECTORS {} {}", n, bad);
}
