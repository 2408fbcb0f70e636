//! Instrumented in-memory storage: records every write, injects faults, short transfers,
//! interrupted calls, and tracks which bytes are durable (flushed).

use crate::rng::Rng;
use std::io::{self, Read, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Copy, Debug)]
pub enum Fault {
    /// return this error, transferring nothing
    Err(io::ErrorKind),
    /// write: accept half of the buffer, then the next call fails
    Partial,
    /// write: Ok(0)
    Zero,
}

#[derive(Default)]
pub struct Noise {
    pub rng: Option<Rng>,
    /// probability /256 that a read or write transfers only part of the buffer
    pub short: u64,
    /// probability /256 that a read or write fails with Interrupted
    pub intr: u64,
    /// probability /256 that a read, write or seek fails with a real error
    pub err: u64,
    /// some of the failing reads claim the end of the file instead
    pub zero: bool,
}

pub struct Store {
    pub data: Vec<u8>,
    pub pos: u64,
    pub log: Option<Vec<(u64, Vec<u8>)>>,
    /// (operation index, what to do); index counts all operations
    pub fault: Option<(u64, Fault)>,
    /// keep failing from the fault on
    pub sticky: bool,
    pub fired: u64,
    pub ops: u64,
    pub op_log: Vec<Op>,
    pub log_ops: bool,
    pub noise: Noise,
    pub n_short: u64,
    pub n_intr: u64,
    pub n_err: u64,
    /// volatile write-back cache model: true if something was written since the last flush
    pub unflushed: bool,
    pub bytes_written: u64,
    partial_pending: bool,
    pub op_limit: u64,
}

impl Store {
    pub fn new(data: Vec<u8>) -> Self {
        Store {
            data,
            pos: 0,
            log: None,
            fault: None,
            sticky: false,
            fired: 0,
            ops: 0,
            op_log: vec![],
            log_ops: false,
            noise: Noise::default(),
            n_short: 0,
            n_intr: 0,
            n_err: 0,
            unflushed: false,
            bytes_written: 0,
            partial_pending: false,
            op_limit: u64::MAX,
        }
    }

    fn gate(&mut self, op: Op) -> io::Result<Option<Fault>> {
        let k = self.ops;
        self.ops += 1;
        if self.ops > self.op_limit {
            panic!("HARNESS-OPLIMIT: more than {} storage operations", self.op_limit);
        }
        if self.log_ops {
            self.op_log.push(op);
        }
        if self.partial_pending {
            self.partial_pending = false;
            self.fired += 1;
            return Err(io::ErrorKind::StorageFull.into());
        }
        if let Some((at, f)) = self.fault {
            if k == at || (self.sticky && k > at) {
                match f {
                    Fault::Err(e) => {
                        self.fired += 1;
                        return Err(e.into());
                    }
                    Fault::Zero if op == Op::Write => {
                        self.fired += 1;
                        return Ok(Some(Fault::Zero));
                    }
                    Fault::Partial if op == Op::Write => {
                        self.partial_pending = true;
                        return Ok(Some(Fault::Partial));
                    }
                    _ => {
                        self.fired += 1;
                        return Err(io::ErrorKind::Other.into());
                    }
                }
            }
        }
        if let Some(r) = self.noise.rng.as_mut() {
            if matches!(op, Op::Read | Op::Write) && r.below(256) < self.noise.intr {
                self.n_intr += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            if op != Op::Flush && r.below(256) < self.noise.err {
                self.n_err += 1;
                if op == Op::Read && self.noise.zero && r.chance(1, 3) {
                    return Ok(Some(Fault::Zero));
                }
                return Err(if op == Op::Seek && self.n_err % 2 == 0 {
                    io::ErrorKind::Interrupted.into()
                } else {
                    io::ErrorKind::Other.into()
                });
            }
        }
        Ok(None)
    }

    fn shorten(&mut self, n: usize) -> usize {
        if let Some(r) = self.noise.rng.as_mut() {
            if n > 1 && r.below(256) < self.noise.short {
                self.n_short += 1;
                return match r.below(4) {
                    0 => 1,
                    1 => n - 1,
                    // whole blocks
                    2 if n > 0x8000 => r.range(1, (n as u64 - 1) / 0x8000) as usize * 0x8000,
                    _ => r.range(1, n as u64 - 1) as usize,
                };
            }
        }
        n
    }
}

impl Read for Store {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(Fault::Zero) = self.gate(Op::Read)? {
            return Ok(0);
        }
        let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let mut n = buf.len().min(avail);
        n = self.shorten(n);
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos as usize..][..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Store {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let f = self.gate(Op::Write)?;
        let mut n = self.shorten(buf.len());
        match f {
            Some(Fault::Zero) => return Ok(0),
            Some(Fault::Partial) => n = (buf.len() / 2).max(1).min(buf.len()),
            _ => {}
        }
        let end = self.pos as usize + n;
        if n > 0 {
            if self.data.len() < end {
                self.data.resize(end, 0);
            }
            self.data[self.pos as usize..end].copy_from_slice(&buf[..n]);
            self.unflushed = true;
        }
        if let Some(l) = self.log.as_mut() {
            if n > 0 {
                l.push((self.pos, buf[..n].to_vec()));
            }
        }
        self.bytes_written += n as u64;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.gate(Op::Flush)?;
        self.unflushed = false;
        Ok(())
    }
}

impl Seek for Store {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.gate(Op::Seek)?;
        let p = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// A huge virtual stream: every byte is a function of its position unless it was overwritten.
pub struct Far {
    pub size: u64,
    pub seed: u64,
    pub pos: u64,
    pub over: std::collections::BTreeMap<u64, u8>,
}

impl Far {
    pub fn byte(&self, p: u64) -> u8 {
        self.over.get(&p).copied().unwrap_or_else(|| far_byte(self.seed, p))
    }
}

pub fn far_byte(seed: u64, p: u64) -> u8 {
    (crate::rng::mix(seed ^ (p >> 3)) >> (8 * (p & 7))) as u8
}

impl Read for Far {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.size.saturating_sub(self.pos)) as usize;
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = self.byte(self.pos + i as u64);
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Far {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        for (i, b) in buf.iter().enumerate() {
            self.over.insert(self.pos + i as u64, *b);
        }
        self.pos += buf.len() as u64;
        self.size = self.size.max(self.pos);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Seek for Far {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let p = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.size as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// A huge stream of which only some pieces exist; everything else reads as zeros.
#[derive(Default)]
pub struct Sparse {
    pub segs: std::collections::BTreeMap<u64, Vec<u8>>,
    pub size: u64,
    pub pos: u64,
}

impl Sparse {
    pub fn put(&mut self, at: u64, b: Vec<u8>) {
        self.size = self.size.max(at + b.len() as u64);
        self.segs.insert(at, b);
    }
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = (buf.len() as u64).min(self.size.saturating_sub(self.pos)) as usize;
        if n == 0 {
            return Ok(0);
        }
        if let Some((a, b)) = self.segs.range(..=self.pos).next_back() {
            let skip = self.pos - a;
            if skip < b.len() as u64 {
                let src = &b[skip as usize..];
                n = n.min(src.len());
                buf[..n].copy_from_slice(&src[..n]);
                self.pos += n as u64;
                return Ok(n);
            }
        }
        if let Some((a, _)) = self.segs.range(self.pos + 1..).next() {
            n = (n as u64).min(a - self.pos) as usize;
        }
        buf[..n].fill(0);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let p = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.size as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
