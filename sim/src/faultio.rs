//! Simulated storage and pipes: writers and readers with scripted short, interrupted and failing
//! calls.

use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read, Result, Write};

pub const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
];

/// How a stream behaves. Everything is decided by these fields.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Script {
    /// Largest number of bytes a call takes: cycled through; empty: everything.
    pub chunks: Vec<u16>,
    /// Calls (by number) that are interrupted first, and how often.
    pub interrupts: Vec<(u32, u8)>,
    /// Fails for good once so many bytes passed.
    pub fail_at: Option<(usize, Break)>,
}

#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
pub enum Break {
    Error(u8),
    /// Accepts nothing any more without saying why (`Ok(0)`).
    Zero,
    /// Fails once and then works again.
    Once(u8),
}

impl Script {
    pub fn draw(r: &mut Rng, len: usize, failing: bool) -> Script {
        let chunks = match r.below(4) {
            0 => Vec::new(),
            1 => vec![1],
            _ => (0..r.range(1, 5)).map(|_| 1 + r.skewed(40) as u16).collect(),
        };
        let n = r.below(5);
        let interrupts = (0..n).map(|_| (r.skewed(200) as u32, 1 + r.below(3) as u8)).collect();
        let fail_at = failing.then(|| {
            let b = if r.chance(1, 5) {
                Break::Zero
            } else if r.chance(1, 4) {
                Break::Once(r.below(KINDS.len()) as u8)
            } else {
                Break::Error(r.below(KINDS.len()) as u8)
            };
            (r.below(len + 2), b)
        });
        Script {
            chunks,
            interrupts,
            fail_at,
        }
    }
}

#[derive(Default, Debug)]
pub struct Counts {
    pub calls: u64,
    pub interrupted: u64,
    pub short: u64,
    pub failed: u64,
    pub after_failure: u64,
    pub flushes: u64,
    pub digest: u64,
}

pub struct SimIo<'a> {
    script: &'a Script,
    pub counts: Counts,
    interrupted: Vec<u8>,
    /// Bytes received (writing).
    pub got: Vec<u8>,
    /// Bytes to deliver (reading).
    data: &'a [u8],
    passed: usize,
    broken: bool,
}

impl<'a> SimIo<'a> {
    pub fn new(script: &'a Script, data: &'a [u8]) -> SimIo<'a> {
        SimIo {
            script,
            counts: Counts::default(),
            interrupted: vec![0; script.interrupts.len()],
            got: Vec::new(),
            data,
            passed: 0,
            broken: false,
        }
    }

    /// How many of `want` bytes the call may move.
    fn call(&mut self, want: usize) -> Result<usize> {
        simhooks::nest::callback();
        for (i, (n, times)) in self.script.interrupts.iter().enumerate() {
            if u64::from(*n) == self.counts.calls && self.interrupted[i] < *times {
                self.interrupted[i] += 1;
                self.counts.interrupted += 1;
                self.counts.digest = mix(self.counts.digest ^ 1);
                return Err(ErrorKind::Interrupted.into());
            }
        }
        let mut n = want;
        if !self.script.chunks.is_empty() {
            n = n.min(self.script.chunks[self.counts.calls as usize % self.script.chunks.len()] as usize);
        }
        self.counts.calls += 1;
        if self.broken {
            self.counts.after_failure += 1;
        }
        if let Some((at, b)) = self.script.fail_at {
            let healed = matches!(b, Break::Once(_)) && self.counts.failed > 0;
            if self.passed >= at && want > 0 && !healed {
                self.broken = !matches!(b, Break::Once(_));
                self.counts.failed += 1;
                if self.counts.failed > 10_000 {
                    panic!("simulated stream: called without end after it failed");
                }
                self.counts.digest = mix(self.counts.digest ^ 2);
                return match b {
                    Break::Zero => Ok(0),
                    Break::Error(k) | Break::Once(k) => Err(Error::new(KINDS[k as usize % KINDS.len()], "simulated failure")),
                };
            }
            if !healed {
                n = n.min(at - self.passed);
            }
        }
        if n < want {
            self.counts.short += 1;
        }
        self.passed += n;
        self.counts.digest = mix(self.counts.digest ^ (n as u64) << 8);
        Ok(n)
    }
}

impl Write for SimIo<'_> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = self.call(buf.len())?;
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        self.counts.flushes += 1;
        Ok(())
    }
}

impl Read for SimIo<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let left = &self.data[self.passed.min(self.data.len())..];
        let n = self.call(buf.len().min(left.len()))?;
        buf[..n].copy_from_slice(&left[..n]);
        Ok(n)
    }
}
