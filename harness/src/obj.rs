//! Caller's objects: seekable byte objects that transfer in awkward ways, fail on demand,
//! pretend to be huge, and refuse to grow without bound.
use std::cell::Cell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;
use crate::data::Rng;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Full, One, Rand, Intr }

pub struct Plan {
    pub ops: Cell<u64>,       // operations seen
    pub fail_at: Cell<u64>,   // 1-based number of the operation that fails, 0: none
    pub sticky: Cell<bool>,   // every later operation fails as well
    pub fired: Cell<bool>,
    pub runaway: Cell<bool>,
    pub kind: Cell<Option<ErrorKind>>,   // what the failing operation returns; None: a write that takes nothing
}
impl Plan {
    pub fn new(fail_at: u64, sticky: bool) -> Rc<Plan> {
        Rc::new(Plan { ops: Cell::new(0), fail_at: Cell::new(fail_at), sticky: Cell::new(sticky), fired: Cell::new(false), runaway: Cell::new(false), kind: Cell::new(Some(ErrorKind::Other)) })
    }
    fn step(&self) -> Result<()> { if self.kind.get().is_none() { Ok(()) } else { self.count() } }
    fn count(&self) -> Result<()> {
        let n = self.ops.get() + 1;
        self.ops.set(n);
        let f = self.fail_at.get();
        if f > 0 && (n == f || (self.sticky.get() && n > f)) {
            self.fired.set(true);
            return Err(Error::new(self.kind.get().unwrap_or(ErrorKind::Other), "injected"));
        }
        Ok(())
    }
}

pub struct Obj {
    pub data: Vec<u8>,
    pub pos: u64,
    pub mode: Mode,
    pub rng: Rng,
    pub tick: bool,
    pub plan: Rc<Plan>,
    pub cap: usize,           // most bytes the object may come to hold
    pub vlen: Option<u64>,    // pretended length; reads past the real data fail
    pub bytes_read: u64,
    pub written: bool,
    pub hw: u64,              // end of the furthest byte written
}

impl Obj {
    pub fn new(data: Vec<u8>, mode: Mode, plan: Rc<Plan>, cap: usize) -> Self {
        let seed = data.len() as u64 + 77;
        Obj { data, pos: 0, mode, rng: Rng::new(seed), tick: false, plan, cap, vlen: None, bytes_read: 0, written: false, hw: 0 }
    }
    fn quota(&mut self, n: usize) -> Result<usize> {
        match self.mode {
            Mode::Full => Ok(n),
            Mode::One => Ok(n.min(1)),
            Mode::Rand => {
                if self.rng.chance(1, 4) { return Err(Error::new(ErrorKind::Interrupted, "interrupted")); }
                Ok(n.min(1 + self.rng.below(9) as usize * self.rng.below(200) as usize))
            }
            Mode::Intr => {
                self.tick = !self.tick;
                if self.tick { return Err(Error::new(ErrorKind::Interrupted, "interrupted")); }
                Ok(n)
            }
        }
    }
}

impl Read for Obj {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.plan.step()?;
        let q = self.quota(buf.len())?;
        let p = (self.pos as usize).min(self.data.len());
        let n = q.min(self.data.len() - p);
        if n == 0 && q > 0 && self.vlen.map_or(false, |v| self.pos < v) {
            return Err(Error::new(ErrorKind::Other, "probe"));
        }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        self.bytes_read += n as u64;
        Ok(n)
    }
}
impl Write for Obj {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.plan.kind.get().is_none() {
            if !buf.is_empty() && self.plan.count().is_err() { return Ok(0) }
        } else { self.plan.step()?; }
        let n = self.quota(buf.len())?;
        let p = self.pos as usize;
        if p + n > self.cap {
            self.plan.runaway.set(true);
            return Err(Error::new(ErrorKind::Other, "runaway"));
        }
        if n > 0 { self.written = true; }
        if self.data.len() < p + n { self.data.resize(p + n, 0); }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        if n > 0 { self.hw = self.hw.max(self.pos); }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> { self.plan.step() }
}
impl Seek for Obj {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.plan.step()?;
        let len = self.vlen.unwrap_or(self.data.len() as u64) as i128;
        let np = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => len + d as i128,
        };
        if np < 0 { return Err(Error::new(ErrorKind::InvalidInput, "negative seek")); }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
