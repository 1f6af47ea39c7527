//! Simulated output sinks (the write seam).

use crate::world;
use std::fmt;
use std::io;

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Healthy,
    /// Full after `n` bytes: a piece that does not fit is refused whole.
    FullWhole(usize),
    /// Full after `n` bytes: takes what fits of a piece, then refuses.
    FullPartial(usize),
    /// Refuses the k-th piece only; would take later ones.
    Transient(usize),
    /// Panics on the k-th piece.
    Panic(usize),
}

pub struct FmtSink {
    pub got: String,
    pub mode: Mode,
    pub calls: usize,
    pub failed: bool,
    pub after_fail: usize,
    pub hook: Option<Box<dyn FnMut(usize)>>,
    pub yields: bool,
}
impl FmtSink {
    pub fn new(mode: Mode) -> FmtSink { FmtSink { got: String::new(), mode, calls: 0, failed: false, after_fail: 0, hook: None, yields: false } }
}
impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        world::callback(|| {
            if self.yields { world::yield_point(3); }
            if let Some(ref mut h) = self.hook { h(self.calls); }
            let k = self.calls;
            self.calls += 1;
            if self.failed { if !s.is_empty() { self.after_fail += 1; } return Ok(()); }
            match self.mode {
                Mode::Healthy => { self.got.push_str(s); Ok(()) }
                Mode::FullWhole(n) => {
                    if self.got.len() + s.len() > n { self.failed = true; world::fault("sink_full"); return Err(fmt::Error); }
                    self.got.push_str(s);
                    Ok(())
                }
                Mode::FullPartial(n) => {
                    if self.got.len() + s.len() > n {
                        let mut room = n - self.got.len();
                        while !s.is_char_boundary(room) { room -= 1; }
                        self.got.push_str(&s[..room]);
                        self.failed = true;
                        world::fault("sink_full_partial");
                        return Err(fmt::Error);
                    }
                    self.got.push_str(s);
                    Ok(())
                }
                Mode::Transient(c) => {
                    if k == c { self.failed = true; world::fault("sink_transient_error"); return Err(fmt::Error); }
                    self.got.push_str(s);
                    Ok(())
                }
                Mode::Panic(c) => {
                    if k == c { self.failed = true; world::fault("sink_panic"); world::inject_panic(700 + c as u64); }
                    self.got.push_str(s);
                    Ok(())
                }
            }
        })
    }
}

/// Byte-level output: short writes, EINTR, hard errors.
pub struct IoSink {
    pub got: Vec<u8>,
    /// Hard error once this many bytes are in; None: never.
    pub fail_at: Option<usize>,
    pub zero: bool,
    pub short: bool,
    pub eintr: bool,
    pub failed: bool,
    pub after_fail: usize,
}
impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        world::callback(|| {
            if self.failed { if !b.is_empty() { self.after_fail += 1; } return Ok(b.len()); }
            if b.is_empty() { return Ok(0); }
            if self.eintr && world::chance(1, 4) { world::fault("io_eintr"); return Err(io::Error::new(io::ErrorKind::Interrupted, "EINTR")); }
            let mut n = b.len();
            if self.short && n > 1 && world::chance(1, 2) { n = world::range(1, n as u64) as usize; if n < b.len() { world::fault("io_short_write"); } }
            if let Some(at) = self.fail_at {
                if self.got.len() + n > at {
                    let room = at - self.got.len();
                    if room > 0 { n = room; } else {
                        self.failed = true;
                        if self.zero { world::fault("io_write_zero"); return Ok(0); }
                        world::fault("io_error");
                        return Err(io::Error::new(io::ErrorKind::Other, "EIO"));
                    }
                }
            }
            self.got.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
