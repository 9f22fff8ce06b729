//! Environments whose every answer is a choice.
use crate::engine::Ch;
use std::io::{self, Read, Write};

use io::ErrorKind as K;
/// Every kind of error an operation can report for good (an interruption is asked again).
pub const ALL_KINDS: [K; 36] = [
    K::Other, K::UnexpectedEof, K::ConnectionReset, K::BrokenPipe, K::WouldBlock, K::TimedOut, K::InvalidData, K::PermissionDenied,
    K::NotFound, K::ConnectionRefused, K::HostUnreachable, K::NetworkUnreachable, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable,
    K::NetworkDown, K::AlreadyExists, K::NotADirectory, K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StaleNetworkFileHandle, K::InvalidInput,
    K::WriteZero, K::StorageFull, K::NotSeekable, K::QuotaExceeded, K::FileTooLarge, K::ResourceBusy, K::ExecutableFileBusy, K::Deadlock,
    K::TooManyLinks, K::Unsupported, K::OutOfMemory, K::ArgumentListTooLong,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// default: everything asked for; deviations chosen
    Full,
    /// default: one byte at a time; deviations chosen
    One,
    /// every other call is interrupted, one byte otherwise
    Stutter,
    /// so many interruptions before every answer
    Storm(usize),
    /// at most so many bytes at a time
    Chunk(usize),
}
/// Ways to behave from beginning to end.
pub const MODES: [Mode; 14] = [
    Mode::Full, Mode::One, Mode::Stutter, Mode::Storm(2), Mode::Storm(5), Mode::Storm(40), Mode::Storm(300),
    Mode::Chunk(2), Mode::Chunk(3), Mode::Chunk(4), Mode::Chunk(7), Mode::Chunk(8), Mode::Chunk(64), Mode::Chunk(1000),
];
impl Mode {
    /// the ordinary answer to the `calls`-th call for `full` bytes; None: interrupted
    fn usual(self, calls: usize, full: usize) -> Option<usize> {
        match self {
            Mode::Full => Some(full),
            Mode::One => Some(full.min(1)),
            Mode::Stutter if calls % 2 == 1 => None,
            Mode::Stutter => Some(full.min(1)),
            Mode::Storm(n) if calls % (n + 1) != 0 => None,
            Mode::Storm(_) => Some(full),
            Mode::Chunk(n) => Some(full.min(n)),
        }
    }
}

pub struct EnvRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub ch: &'a Ch,
    pub mode: Mode,
    pub calls: usize,
    /// fail with this error once `pos` reaches the offset
    pub fail_at: Option<(usize, io::ErrorKind)>,
    pub failed: bool,
    /// the failure passes: asked again, the source goes on
    pub once: bool,
    pub deviate: bool,
}
impl<'a> EnvRead<'a> {
    pub fn new(data: &'a [u8], ch: &'a Ch, mode: Mode) -> Self {
        EnvRead { data, pos: 0, ch, mode, calls: 0, fail_at: None, failed: false, once: false, deviate: true }
    }
}
impl<'a> Read for EnvRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut left = self.data.len() - self.pos;
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at && !(self.once && self.failed) {
                self.failed = true;
                return Err(io::Error::new(k, "injected"));
            }
            if self.pos < at {
                left = left.min(at - self.pos);
            }
        }
        let full = left.min(buf.len());
        let def = match self.mode.usual(self.calls, full) {
            Some(n) => n,
            None => return Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
        };
        let mut opts: Vec<Option<usize>> = vec![Some(def), None];
        for k in [1, full / 2, full.saturating_sub(1), full] {
            if k >= 1 && k <= full && !opts.contains(&Some(k)) {
                opts.push(Some(k));
            }
        }
        let o = if self.deviate { opts[self.ch.dev(opts.len())] } else { opts[0] };
        match o {
            None => Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
            Some(n) => {
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

pub struct EnvWrite<'a> {
    pub got: Vec<u8>,
    pub ch: &'a Ch,
    pub mode: Mode,
    pub calls: usize,
    pub deviate: bool,
    pub faults: bool,
    /// fails for good once this many bytes were taken
    pub room: Option<usize>,
    pub faulted: bool,
    /// the failure passes: asked again, the sink goes on
    pub once: bool,
    pub kind: io::ErrorKind,
}
impl<'a> EnvWrite<'a> {
    pub fn new(ch: &'a Ch, mode: Mode) -> Self {
        EnvWrite { got: vec![], ch, mode, calls: 0, deviate: true, faults: false, room: None, faulted: false, once: false, kind: io::ErrorKind::Other }
    }
}
impl<'a> Write for EnvWrite<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut full = buf.len();
        if let Some(room) = self.room.filter(|_| !(self.once && self.faulted)) {
            full = full.min(room - self.got.len().min(room));
            if full == 0 {
                self.faulted = true;
                return Err(io::Error::new(self.kind, "sink is full"));
            }
        }
        let def = match self.mode.usual(self.calls, full) {
            Some(n) => n,
            None => return Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
        };
        // None: interrupted; Some(0): refuses; usize::MAX: hard error
        let mut opts: Vec<Option<usize>> = vec![Some(def), None];
        for k in [1, full / 2, full - 1, full] {
            if k >= 1 && k <= full && !opts.contains(&Some(k)) {
                opts.push(Some(k));
            }
        }
        if self.faults {
            opts.push(Some(0));
            opts.push(Some(usize::MAX));
        }
        let o = if self.deviate { opts[self.ch.dev(opts.len())] } else { opts[0] };
        match o {
            None => Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
            Some(0) => {
                self.faulted = true;
                Ok(0)
            }
            Some(usize::MAX) => {
                self.faulted = true;
                Err(io::Error::new(self.kind, "injected"))
            }
            Some(n) => {
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
