//! One call of the library.
use retrocompressor::{direct_ports::lzhuf, lzss_huff, lzw, td0, BitOrder};
use std::io::{Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub enum Codec { Lzw(lzw::Options), Lzss(lzss_huff::Options), Port, Td0 }

pub struct Spec { pub key: String, pub codec: Codec }

/// lzw:std | lzw:td | lzw:hb:hd:chunk:maxsym:clear:stop:w:ord |
/// lzss:std | lzss:td | lzss:hdr:N:F:T:pre | port | td0      (clear/stop -1: none)
pub fn codec(spec: &str) -> Spec {
    let f: Vec<&str> = spec.split(':').collect();
    let num = |i: usize| f[i].parse::<i64>().unwrap();
    let codec = match (f[0], f.get(1).copied()) {
        ("lzw", Some("std")) => Codec::Lzw(lzw::STD_OPTIONS),
        ("lzw", Some("td")) => { let mut o = td0::TD_V1_OPTIONS; o.in_offset = 0; o.out_offset = 0; Codec::Lzw(o) }
        ("lzw", _) => Codec::Lzw(lzw::Options {
            header_bits: num(1) as usize, header_divisor: num(2) as usize, in_offset: 0, out_offset: 0,
            chunk_size: num(3) as usize, min_symbol: 0, max_symbol: num(4) as usize,
            clear_code: if num(5) < 0 { None } else { Some(num(5) as usize) },
            stop_code: if num(6) < 0 { None } else { Some(num(6) as usize) },
            min_code_width: num(7) as usize, max_code_width: num(7) as usize,
            ord: if f[8] == "lsb" { BitOrder::Lsb0 } else { BitOrder::Msb0 },
            max_file_size: lzw::STD_OPTIONS.max_file_size,
        }),
        ("lzss", Some("std")) => Codec::Lzss(lzss_huff::STD_OPTIONS),
        ("lzss", Some("td")) => { let mut o = td0::TD_V2_OPTIONS; o.in_offset = 0; o.out_offset = 0; Codec::Lzss(o) }
        ("lzss", _) => Codec::Lzss(lzss_huff::Options {
            header: num(1) == 1, in_offset: 0, out_offset: 0, window_size: num(2) as usize,
            lookahead: num(3) as usize, threshold: num(4) as usize, precursor: num(5) as u8,
            max_file_size: lzss_huff::STD_OPTIONS.max_file_size,
        }),
        ("port", _) => Codec::Port,
        ("td0", _) => Codec::Td0,
        _ => panic!("bad codec {}", spec),
    };
    Spec { key: spec.to_string(), codec }
}

impl Codec {
    pub fn with(&self, ino: u64, outo: u64, lim: Option<u64>) -> Codec {
        match self {
            Codec::Lzw(o) => { let mut o = o.clone(); o.in_offset = ino; o.out_offset = outo; if let Some(l) = lim { o.max_file_size = l } Codec::Lzw(o) }
            Codec::Lzss(o) => { let mut o = o.clone(); o.in_offset = ino; o.out_offset = outo; if let Some(l) = lim { o.max_file_size = l } Codec::Lzss(o) }
            c => c.clone(),
        }
    }
    pub fn limit(&self) -> u64 {
        match self { Codec::Lzw(o) => o.max_file_size, Codec::Lzss(o) => o.max_file_size, Codec::Port => u32::MAX as u64, Codec::Td0 => 3_000_000 + 12 }
    }
}

pub struct Res { pub r: &'static str, pub sizes: (u64, u64), pub msg: String }

use crate::watch::LAST_PANIC;

fn classify(e: Box<dyn std::error::Error>) -> (&'static str, String) {
    use retrocompressor::Error as E;
    let msg = e.to_string();
    if let Some(x) = e.downcast_ref::<E>() {
        return (match x { E::FileFormatMismatch => "ffm", E::FileTooLarge => "big", E::BadChecksum => "crc" }, msg);
    }
    if let Some(x) = e.downcast_ref::<std::io::Error>() {
        return (if msg == "probe" { "probe" } else if x.kind() == std::io::ErrorKind::UnexpectedEof { "eof" } else { "io" }, msg);
    }
    ("err", msg)
}

fn fold(x: std::thread::Result<Result<(u64, u64), Box<dyn std::error::Error>>>) -> Res {
    match x {
        Ok(Ok(s)) => Res { r: "ok", sizes: s, msg: String::new() },
        Ok(Err(e)) => { let (r, msg) = classify(e); Res { r, sizes: (0, 0), msg } }
        Err(_) => Res { r: "panic", sizes: (0, 0), msg: LAST_PANIC.with(|p| p.borrow().clone()) },
    }
}

pub fn run<R: Read + Seek, W: Write + Seek>(c: &Codec, compress: bool, i: &mut R, o: &mut W) -> Res {
    fold(catch_unwind(AssertUnwindSafe(|| match (c, compress) {
        (Codec::Lzw(p), true) => lzw::compress(i, o, p),
        (Codec::Lzw(p), false) => lzw::expand(i, o, p),
        (Codec::Lzss(p), true) => lzss_huff::compress(i, o, p),
        (Codec::Lzss(p), false) => lzss_huff::expand(i, o, p),
        (Codec::Port, true) => lzhuf::encode(i, o),
        (Codec::Port, false) => lzhuf::decode(i, o),
        (Codec::Td0, true) => td0::compress(i, o),
        (Codec::Td0, false) => td0::expand(i, o),
    })))
}

/// the convenience functions
pub fn run_slice(c: &Codec, compress: bool, d: &[u8]) -> (Res, Vec<u8>) {
    let mut out = Vec::new();
    let r = fold(catch_unwind(AssertUnwindSafe(|| {
        let v = match (c, compress) {
            (Codec::Lzw(p), true) => lzw::compress_slice(d, p),
            (Codec::Lzw(p), false) => lzw::expand_slice(d, p),
            (Codec::Lzss(p), true) => lzss_huff::compress_slice(d, p),
            (Codec::Lzss(p), false) => lzss_huff::expand_slice(d, p),
            (Codec::Port, true) => lzhuf::encode_slice(d),
            (Codec::Port, false) => lzhuf::decode_slice(d),
            (Codec::Td0, true) => td0::compress_slice(d),
            (Codec::Td0, false) => td0::expand_slice(d),
        }?;
        let n = (d.len() as u64, v.len() as u64);
        out = v;
        Ok(n)
    })));
    (r, out)
}
