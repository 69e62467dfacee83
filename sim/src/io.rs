//! Simulated storage and sockets: byte streams that take or give few bytes at
//! a time, are interrupted, fail, fill up or end early, as the plan says.
use crate::prng::Prng;
use ark_std::io::{Error, ErrorKind, Read, Result, Write};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Io {
    pub seed: u64,
    /// Largest number of bytes moved by one call (0: no limit).
    pub max_chunk: usize,
    /// One call in this many is interrupted first (0: never).
    pub interrupt: usize,
    /// The call that would move this byte fails.
    pub fail_at: Option<u64>,
    /// 0 other error, 1 accepts nothing more (full disk), 2 end of data,
    /// 3 would block, 4 timed out, 5 broken pipe
    pub fail_kind: u8,
}

pub struct Stream {
    io: Io,
    p: Prng,
    pub moved: u64,
    pub failed: bool,
    pub interrupted: u64,
    pub calls: u64,
}

fn kind(k: u8) -> Error {
    let k = match k {
        3 => ErrorKind::WouldBlock,
        4 => ErrorKind::TimedOut,
        5 => ErrorKind::BrokenPipe,
        _ => ErrorKind::Other,
    };
    Error::new(k, "injected")
}

impl Stream {
    pub fn new(io: &Io) -> Self {
        Stream {
            io: io.clone(),
            p: Prng::derive(io.seed, "io"),
            moved: 0,
            failed: false,
            interrupted: 0,
            calls: 0,
        }
    }
    /// How much the next call moves.
    fn step(&mut self, want: usize) -> Result<usize> {
        self.calls += 1;
        if want == 0 {
            return Ok(0);
        }
        if self.io.interrupt > 0 && self.p.chance(1, self.io.interrupt) {
            self.interrupted += 1;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = want;
        if self.io.max_chunk > 0 {
            n = n.min(1 + self.p.below(self.io.max_chunk));
        }
        if let Some(at) = self.io.fail_at {
            if self.moved >= at {
                self.failed = true;
                return match self.io.fail_kind {
                    1 | 2 => Ok(0),
                    k => Err(kind(k)),
                };
            }
            n = n.min((at - self.moved) as usize);
        }
        self.moved += n as u64;
        Ok(n)
    }
}

pub struct SimWrite {
    pub s: Stream,
    pub out: Vec<u8>,
}
impl Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = self.s.step(buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

pub struct SimRead<'a> {
    pub s: Stream,
    pub data: &'a [u8],
    pub at: usize,
}
impl<'a> Read for SimRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let left = self.data.len() - self.at;
        let n = self.s.step(buf.len().min(left))?;
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
