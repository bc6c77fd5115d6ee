//! Readers and sinks that split, interrupt and fail their operations as a plan says.
use crate::runner::oracle_panic;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

/// Plan of one side of I/O: chunk sizes used round-robin (0 = Interrupted once), optional fault.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Plan {
    /// 0 means "interrupted", otherwise the most bytes one call moves; empty: no splitting
    pub chunks: Vec<u16>,
    /// size of the BufReader put in front (0: one byte)
    pub buf: u16,
}
impl Plan {
    pub fn cap(&self) -> usize { (self.buf as usize).max(1) }
    pub fn trivial(&self) -> bool { self.chunks.is_empty() }
}

/// Errors of every kind that a stream may fail with; none but an interruption may be swallowed.
pub fn failure(i: u64) -> io::Error {
    use io::ErrorKind::*;
    match i % 14 {
        0 => io::Error::new(Other, "injected error"),
        1 => io::Error::from_raw_os_error(libc::EIO),
        2 => UnexpectedEof.into(),
        3 => WouldBlock.into(),
        4 => TimedOut.into(),
        5 => BrokenPipe.into(),
        6 => io::Error::new(InvalidData, "injected corruption"),
        7 => PermissionDenied.into(),
        8 => NotFound.into(),
        9 => InvalidInput.into(),
        10 => ConnectionReset.into(),
        11 => io::Error::from_raw_os_error(libc::ESTALE),
        12 => WriteZero.into(),
        _ => OutOfMemory.into(),
    }
}

#[derive(Clone, Debug)]
pub struct Chunky {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    plan: Vec<u16>,
    i: usize,
    /// the read that would move past this offset fails
    pub fail_at: Option<u64>,
    pub fail_seek: bool,
    pub failed: bool,
    budget: u64,
}
impl Chunky {
    pub fn new(data: impl Into<Arc<Vec<u8>>>, plan: &Plan) -> Chunky {
        let data = data.into();
        let mut chunks = plan.chunks.clone();
        if !chunks.is_empty() && chunks.iter().all(|&c| c == 0) { chunks.push(1); }
        let budget = (data.len() as u64 + 64) * 16 + 100_000;
        Chunky { data, pos: 0, plan: chunks, i: 0, fail_at: None, fail_seek: false, failed: false, budget }
    }
    pub fn failing(mut self, at: Option<u64>) -> Chunky { self.fail_at = at; self }
    pub fn buffered(self, plan: &Plan) -> io::BufReader<Chunky> { io::BufReader::with_capacity(plan.cap(), self) }
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.budget == 0 { oracle_panic("the reader was called far more often than its data needs (loop without progress)".into()); }
        self.budget -= 1;
        if buf.is_empty() { return Ok(0); }
        let mut n = buf.len();
        if !self.plan.is_empty() {
            let c = self.plan[self.i % self.plan.len()];
            self.i += 1;
            if c == 0 { return Err(io::ErrorKind::Interrupted.into()); }
            n = n.min(c as usize);
        }
        let len = self.data.len() as u64;
        let left = len.saturating_sub(self.pos) as usize;
        n = n.min(left);
        if let Some(f) = self.fail_at {
            if self.pos >= f { self.failed = true; return Err(failure(f ^ f >> 7)); }
            n = n.min((f - self.pos) as usize);
        }
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Chunky {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.fail_seek { self.failed = true; return Err(failure(self.data.len() as u64)); }
        let base = match s { SeekFrom::Start(n) => n as i128, SeekFrom::End(n) => self.data.len() as i128 + n as i128, SeekFrom::Current(n) => self.pos as i128 + n as i128 };
        if base < 0 { return Err(io::ErrorKind::InvalidInput.into()); }
        self.pos = base as u64;
        Ok(self.pos)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fault { Error, Zero, Full, WouldBlock, Kind(u8) }
impl Fault {
    fn err(self) -> io::Error {
        match self {
            Fault::Error => io::Error::new(io::ErrorKind::Other, "injected write error"),
            Fault::Full => io::Error::from_raw_os_error(libc::ENOSPC),
            Fault::WouldBlock => io::ErrorKind::WouldBlock.into(),
            Fault::Kind(k) => failure(k as u64),
            Fault::Zero => unreachable!(),
        }
    }
}

#[derive(Debug, Default)]
pub struct SinkState {
    pub data: Vec<u8>,
    pub writes: u64,
    pub flushed_to: usize,
    pub failed: bool,
    /// a write attempted after a fault
    pub after_fault: bool,
}

/// A sink recording what it accepted. Shared so that it can be inspected while in use.
pub struct Sink {
    pub st: Arc<Mutex<SinkState>>,
    plan: Vec<u16>,
    i: usize,
    pub fail_at: Option<(u64, Fault)>,
    /// the fault is over after one write
    pub once: bool,
    pub fail_flush: bool,
    /// called with the number of complete lines accepted so far, before each write
    pub hook: Option<Box<dyn FnMut(&[u8]) + Send>>,
}
impl Sink {
    pub fn new(plan: &[u16]) -> Sink {
        let mut chunks = plan.to_vec();
        if !chunks.is_empty() && chunks.iter().all(|&c| c == 0) { chunks.push(1); }
        Sink { st: Arc::new(Mutex::new(SinkState::default())), plan: chunks, i: 0, fail_at: None, once: false, fail_flush: false, hook: None }
    }
    pub fn state(&self) -> Arc<Mutex<SinkState>> { self.st.clone() }
    pub fn data(&self) -> Vec<u8> { self.st.lock().unwrap_or_else(|e| e.into_inner()).data.clone() }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(h) = self.hook.as_mut() { h(&st.data); }
        st.writes += 1;
        if b.is_empty() { return Ok(0); }
        let mut n = b.len();
        if !self.plan.is_empty() {
            let c = self.plan[self.i % self.plan.len()];
            self.i += 1;
            if c == 0 { return Err(io::ErrorKind::Interrupted.into()); }
            n = n.min(c as usize);
        }
        if let Some((at, f)) = self.fail_at {
            let have = st.data.len() as u64;
            if have >= at {
                if st.failed { st.after_fault = true; }
                st.failed = true;
                if self.once { self.fail_at = None; }
                return if f == Fault::Zero { Ok(0) } else { Err(f.err()) };
            }
            n = n.min((at - have) as usize);
        }
        st.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
        if self.fail_flush { st.failed = true; return Err(failure(st.data.len() as u64)); }
        st.flushed_to = st.data.len();
        Ok(())
    }
}
