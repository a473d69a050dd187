//! Sources and sinks whose environment answers the explorer owns.
use crate::engine::livelock;
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};
use std::rc::Rc;

const EOF_POLLS: u32 = 2000;

/// Serves `data`; read k returns at most `sched(k)` bytes; fails from byte `fail_at` on.
pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// boundaries: a single read never crosses one of these offsets
    pub cuts: Vec<usize>,
    pub chunk: usize,
    pub fail_at: Option<usize>,
    pub fail_kind: io::ErrorKind,
    /// reads (by number) which answer Interrupted first
    pub interrupt_before: Vec<usize>,
    pub interrupt_every: bool,
    pub nread: usize,
    pub calls: usize,
    /// how many times in a row it is interrupted
    pub interrupt_run: usize,
    intr_done: usize,
    eof: u32,
}
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Src { data, pos: 0, cuts: vec![], chunk: usize::MAX, fail_at: None, fail_kind: io::ErrorKind::Other, interrupt_before: vec![], interrupt_every: false, nread: 0, calls: 0, interrupt_run: 1, intr_done: 0, eof: 0 }
    }
    pub fn chunk(mut self, n: usize) -> Self {
        self.chunk = n;
        self
    }
    pub fn cuts(mut self, c: &[usize]) -> Self {
        self.cuts = c.to_vec();
        self
    }
    pub fn failing(mut self, at: usize, kind: io::ErrorKind) -> Self {
        self.fail_at = Some(at);
        self.fail_kind = kind;
        self
    }
    pub fn interrupts(mut self, v: &[usize]) -> Self {
        self.interrupt_before = v.to_vec();
        self
    }
    pub fn in_a_row(mut self, n: usize) -> Self {
        self.interrupt_run = n;
        self
    }
    pub fn interrupt_all(mut self) -> Self {
        self.interrupt_every = true;
        self
    }
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.intr_done < self.interrupt_run && (self.interrupt_every || self.interrupt_before.contains(&self.nread)) {
            self.intr_done += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.intr_done = 0;
        self.nread += 1;
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.eof += 1;
                if self.eof > EOF_POLLS {
                    livelock("read after error");
                }
                return Err(io::Error::new(self.fail_kind, "injected read failure"));
            }
        }
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        for &c in &self.cuts {
            if c > self.pos {
                n = n.min(c - self.pos);
            }
        }
        if n == 0 {
            self.eof += 1;
            if self.eof > EOF_POLLS {
                livelock("read at end of input");
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Default)]
pub struct SinkState {
    pub data: RefCell<Vec<u8>>,
    pub calls: Cell<usize>,
    pub failed: Cell<bool>,
    pub flushes: Cell<usize>,
}
/// A sink shared with the observer. `fail_at`: accepts exactly that many bytes, then fails.
#[derive(Clone)]
pub struct Sink {
    pub st: Rc<SinkState>,
    pub chunk: usize,
    pub cuts: Vec<usize>,
    pub fail_at: Option<usize>,
    pub fail_zero: bool,
    pub fail_kind: io::ErrorKind,
    /// the failure is answered only this many times
    pub fail_times: usize,
    pub interrupt_at: Vec<usize>,
    pub interrupt_every: bool,
    pub interrupt_run: usize,
    pub intr: Rc<Cell<usize>>,
    pub fails: Rc<Cell<usize>>,
}
impl Sink {
    pub fn new() -> Self {
        Sink { st: Rc::new(SinkState::default()), chunk: usize::MAX, cuts: vec![], fail_at: None, fail_zero: false, fail_kind: io::ErrorKind::Other, fail_times: usize::MAX, interrupt_at: vec![], interrupt_every: false, interrupt_run: 1, intr: Rc::new(Cell::new(0)), fails: Rc::new(Cell::new(0)) }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.st.data.borrow().clone()
    }
    pub fn len(&self) -> usize {
        self.st.data.borrow().len()
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.st.calls.set(self.st.calls.get() + 1);
        let pos = self.len();
        if buf.is_empty() {
            return Ok(0);
        }
        if self.intr.get() < self.interrupt_run && (self.interrupt_every || self.interrupt_at.contains(&pos)) {
            self.intr.set(self.intr.get() + 1);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.intr.set(0);
        if let Some(f) = self.fail_at {
            if pos >= f && self.fails.get() < self.fail_times {
                self.fails.set(self.fails.get() + 1);
                self.st.failed.set(true);
                if self.fails.get() > 5000 {
                    livelock("write after error");
                }
                if self.fail_zero {
                    return Ok(0);
                }
                return Err(io::Error::new(self.fail_kind, "injected write failure"));
            }
        }
        let mut n = buf.len().min(self.chunk);
        if let Some(f) = self.fail_at {
            if f > pos {
                n = n.min(f - pos);
            }
        }
        for &c in &self.cuts {
            if c > pos {
                n = n.min(c - pos);
            }
        }
        self.st.data.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.st.flushes.set(self.st.flushes.get() + 1);
        Ok(())
    }
}
