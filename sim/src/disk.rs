//! Simulated storage and streams.
use crate::rng::Rng;
use crate::seam::{callback, with_ctx, Stage};
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read, Result, Write};

/// What happens to one write or read stream.
#[derive(Clone, Default, Debug, Serialize, Deserialize)]
pub struct IoFault {
    pub seed: u64,
    /// Transfer at most 1..=short bytes per call (0: whole buffers).
    pub short: u16,
    /// Percentage of calls that return EINTR.
    pub eintr: u8,
    /// Fail for good once this many bytes went through.
    pub fail_at: Option<u32>,
    /// Which error: 0 ENOSPC/EIO, 1 Ok(0) (write) or early EOF (read), 2 panic.
    pub how: u8,
    /// Writes: the flush at the end fails.
    pub flush_fails: bool,
}

impl IoFault {
    pub fn is_none(&self) -> bool {
        self.short == 0 && self.eintr == 0 && self.fail_at.is_none() && !self.flush_fails
    }
}

fn fired(name: &'static str) {
    crate::seam::untracked(|| with_ctx(|c| *c.fired.entry(name).or_default() += 1));
}

pub struct SimWriter {
    f: IoFault,
    rng: Rng,
    /// Bytes the device accepted.
    pub got: Vec<u8>,
    interrupted: bool,
}

impl SimWriter {
    pub fn new(f: &IoFault) -> Self {
        SimWriter { f: f.clone(), rng: Rng::new(f.seed), got: Vec::new(), interrupted: false }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        callback(Stage::IoWrite);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.f.eintr > 0 && !self.interrupted && self.rng.pct(self.f.eintr as u64) {
            self.interrupted = true;
            fired("write_eintr");
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let mut n = buf.len();
        if self.f.short > 0 {
            let m = 1 + self.rng.below(self.f.short as u64) as usize;
            if m < n {
                n = m;
                fired("write_short");
            }
        }
        if let Some(at) = self.f.fail_at {
            let room = (at as usize).saturating_sub(self.got.len());
            if room == 0 {
                fired(["write_error", "write_zero", "write_panic"][self.f.how as usize % 3]);
                return match self.f.how % 3 {
                    0 => Err(Error::from_raw_os_error(28)),
                    1 => Ok(0),
                    _ => std::panic::panic_any(crate::seam::Injected),
                };
            }
            n = n.min(room);
        }
        crate::seam::untracked(|| self.got.extend_from_slice(&buf[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        callback(Stage::IoWrite);
        if self.f.flush_fails {
            fired("flush_error");
            return Err(Error::from_raw_os_error(5));
        }
        Ok(())
    }
}

pub struct SimReader<'a> {
    f: IoFault,
    rng: Rng,
    data: &'a [u8],
    pos: usize,
    interrupted: bool,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], f: &IoFault) -> Self {
        SimReader { f: f.clone(), rng: Rng::new(f.seed), data, pos: 0, interrupted: false }
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        callback(Stage::IoRead);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.f.eintr > 0 && !self.interrupted && self.rng.pct(self.f.eintr as u64) {
            self.interrupted = true;
            fired("read_eintr");
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.f.short > 0 && n > 0 {
            let m = 1 + self.rng.below(self.f.short as u64) as usize;
            if m < n {
                n = m;
                fired("read_short");
            }
        }
        if let Some(at) = self.f.fail_at {
            let room = (at as usize).saturating_sub(self.pos);
            if room == 0 {
                fired(["read_error", "read_early_eof", "read_panic"][self.f.how as usize % 3]);
                return match self.f.how % 3 {
                    0 => Err(Error::from_raw_os_error(5)),
                    1 => Ok(0),
                    _ => std::panic::panic_any(crate::seam::Injected),
                };
            }
            n = n.min(room);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
