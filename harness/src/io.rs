//! Streams the decoder reads from: scripted chunking, interruptions, faults and delivery accounting.
use crate::rng::Rng;
use crate::run::HANG;
use std::cell::Cell;
use std::io::{Error, ErrorKind, Read, Result};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Chunks {
    /// as much as the caller asks for
    All,
    Fixed(usize),
    /// sizes drawn per read, 1..=max
    Random(u64, usize),
    /// sizes in turn, the last one repeats
    Script(Vec<usize>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// error once when `at` bytes have been delivered, then carry on
    Once(usize, ErrorKind),
    /// error forever once `at` bytes have been delivered
    Forever(usize, ErrorKind),
}

#[derive(Default, Debug)]
pub struct Obs {
    pub delivered: Cell<usize>,
    /// bytes delivered before the latest read
    pub last_at: Cell<usize>,
    pub reads: Cell<u64>,
    pub eof_reads: Cell<u64>,
    pub interrupts: Cell<u64>,
    pub faults: Cell<u64>,
    /// highest live-heap growth seen beyond what the delivered bytes justify (set by `meter`)
    pub over: Cell<i64>,
    pub over_at: Cell<usize>,
    /// bytes of heap per delivered byte, if not the usual number
    pub per: Cell<i64>,
}

/// streams look into the buffers they are given before they fill them, as safe code may; where nobody put
/// anything there the sanitizers and the interpreter report it
pub static NOSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Stream<'a> {
    data: &'a [u8],
    pos: usize,
    chunks: Chunks,
    rng: Rng,
    step: usize,
    fault: Fault,
    fired: bool,
    /// permille of reads answered with Interrupted first
    interrupt: u64,
    was_interrupted: u32,
    /// after so many bytes, that many interruptions in a row
    burst: (usize, u32),
    meter: Option<isize>,
    pub obs: Rc<Obs>,
}

/// the same kind of error the way a program, the standard library or the system would make it
fn injected(k: ErrorKind, form: usize) -> Error {
    match form % 3 {
        0 => Error::new(k, "injected"),
        1 => Error::from(k),
        _ => (1..200).map(Error::from_raw_os_error).find(|e| e.kind() == k).unwrap_or_else(|| Error::from(k)),
    }
}

pub const MEM_CONST: i64 = 1 << 20;
pub const MEM_PER_BYTE: i64 = 256;

impl<'a> Stream<'a> {
    pub fn new(data: &'a [u8]) -> Stream<'a> {
        Stream {
            data,
            pos: 0,
            chunks: Chunks::All,
            rng: Rng::new(1),
            step: 0,
            fault: Fault::None,
            fired: false,
            interrupt: 0,
            was_interrupted: 0,
            burst: (0, 0),
            meter: None,
            obs: Rc::new(Obs::default()),
        }
    }
    pub fn chunks(mut self, c: Chunks) -> Self {
        if let Chunks::Random(s, _) = c {
            self.rng = Rng::new(s);
        }
        self.chunks = c;
        self
    }
    pub fn interrupt(mut self, permille: u64, seed: u64) -> Self {
        self.interrupt = permille;
        self.rng = Rng::new(seed ^ 0xabcd);
        self
    }
    pub fn burst(mut self, at: usize, n: u32) -> Self {
        self.burst = (at, n);
        self
    }
    pub fn fault(mut self, f: Fault) -> Self {
        self.fault = f;
        self
    }
    /// account heap growth of this thread above `base` against delivered bytes at every read
    pub fn meter(mut self, base: isize) -> Self {
        self.meter = Some(base);
        self
    }
    pub fn check_mem(obs: &Obs, base: isize) {
        let grown = (crate::alloc::peak() - base) as i64;
        let per = if obs.per.get() > 0 { obs.per.get() } else { MEM_PER_BYTE };
        let over = grown - (MEM_CONST + per * obs.delivered.get() as i64);
        if over > obs.over.get() {
            obs.over.set(over);
            obs.over_at.set(obs.delivered.get());
        }
    }
}

impl<'a> Read for Stream<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.obs.reads.set(self.obs.reads.get() + 1);
        self.obs.last_at.set(self.pos);
        if NOSY.load(std::sync::atomic::Ordering::Relaxed) {
            let sum = buf.iter().step_by(buf.len() / 128 + 1).fold(0u8, |a, b| a.wrapping_add(*b));
            if sum == 0x5b {
                std::hint::black_box(&self.obs);
            }
        }
        if let Some(base) = self.meter {
            Stream::check_mem(&self.obs, base);
        }
        match self.fault {
            Fault::Once(at, k) if self.pos >= at && !self.fired => {
                self.fired = true;
                self.obs.faults.set(self.obs.faults.get() + 1);
                return Err(injected(k, self.pos));
            }
            Fault::Forever(at, k) if self.pos >= at => {
                let n = self.obs.faults.get() + 1;
                self.obs.faults.set(n);
                if n > 200_000 {
                    panic!("{}", HANG);
                }
                return Err(injected(k, self.pos));
            }
            _ => {}
        }
        if self.burst.1 > 0 && self.pos >= self.burst.0 {
            self.burst.1 -= 1;
            self.obs.interrupts.set(self.obs.interrupts.get() + 1);
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if self.interrupt > 0 && self.was_interrupted < 3 && self.rng.permille(self.interrupt) {
            self.was_interrupted += 1;
            self.obs.interrupts.set(self.obs.interrupts.get() + 1);
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.was_interrupted = 0;
        let limit = match self.fault {
            Fault::Once(at, _) if !self.fired => at,
            Fault::Forever(at, _) => at,
            _ => self.data.len(),
        }
        .min(self.data.len());
        let left = limit - self.pos.min(limit);
        if left == 0 || buf.is_empty() {
            if left == 0 && !buf.is_empty() {
                let n = self.obs.eof_reads.get() + 1;
                self.obs.eof_reads.set(n);
                // no correct decode asks an exhausted stream this often
                if n > 200_000 {
                    panic!("{}", HANG);
                }
            }
            return Ok(0);
        }
        let want = match &self.chunks {
            Chunks::All => buf.len(),
            Chunks::Fixed(n) => *n,
            Chunks::Random(_, m) => 1 + self.rng.us(*m),
            Chunks::Script(v) => {
                let i = self.step.min(v.len() - 1);
                self.step += 1;
                v[i].max(1)
            }
        };
        let n = want.min(buf.len()).min(left);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.obs.delivered.set(self.obs.delivered.get() + n);
        Ok(n)
    }
}
