//! Instrumented streams used as observation points.
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub trait RS: Read + Seek {}
impl<T: Read + Seek> RS for T {}
pub trait WS: Write + Seek {}
impl<T: Write + Seek> WS for T {}

/// Records every byte range written, to check write-once and find gaps.
#[derive(Default)]
pub struct RecWriter {
    pub data: Vec<u8>,
    pub pos: u64,
    /// number of times each byte was written
    pub hits: Vec<u8>,
    pub ops: Vec<(u64, usize)>,
    pub seeks: usize,
    pub writes: usize,
    /// a byte already written with a non-zero value was overwritten with something else
    pub conflict: Option<u64>,
}
impl RecWriter {
    /// Longest run of bytes inside the output that were never written, ignoring the first `skip` bytes.
    pub fn longest_gap(&self, skip: usize) -> (usize, usize) {
        let (mut best, mut at, mut run) = (0, 0, 0);
        for (i, h) in self.hits.iter().enumerate().skip(skip) {
            if *h == 0 {
                run += 1;
                if run > best {
                    best = run;
                    at = i + 1 - run;
                }
            } else {
                run = 0;
            }
        }
        (best, at)
    }
}
impl Write for RecWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let p = self.pos as usize;
        let end = p + b.len();
        if end > 1 << 30 {
            return Err(io::Error::new(io::ErrorKind::Other, "write beyond 1 GiB"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.data.len() < end {
            self.data.resize(end, 0);
            self.hits.resize(end, 0);
        }
        for i in p..end {
            if self.hits[i] > 0 && self.data[i] != 0 && self.data[i] != b[i - p] && self.conflict.is_none() {
                self.conflict = Some(i as u64);
            }
        }
        self.data[p..end].copy_from_slice(b);
        for h in &mut self.hits[p..end] {
            *h = h.saturating_add(1);
        }
        self.ops.push((self.pos, b.len()));
        self.writes += 1;
        self.pos = end as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn seek_to(pos: u64, len: u64, s: SeekFrom) -> io::Result<u64> {
    let p = match s {
        SeekFrom::Start(p) => p as i128,
        SeekFrom::End(d) => len as i128 + d as i128,
        SeekFrom::Current(d) => pos as i128 + d as i128,
    };
    if p < 0 || p > u64::MAX as i128 {
        return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
    }
    Ok(p as u64)
}
impl Seek for RecWriter {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        self.pos = seek_to(self.pos, self.data.len() as u64, s)?;
        Ok(self.pos)
    }
}

/// Counts operations and delivered bytes; optionally splits reads and injects one fault.
pub struct Probe<'a> {
    pub data: &'a [u8],
    pub pos: u64,
    pub reads: u64,
    pub seeks: u64,
    pub delivered: u64,
    pub op: u64,
    /// fail at this operation index (0-based, counting reads and seeks)
    pub fail_at: Option<u64>,
    pub fail_kind: io::ErrorKind,
    pub failed: bool,
    pub max_chunk: usize,
    /// inject ErrorKind::Interrupted before every n-th read
    pub interrupt_every: u64,
    pub op_limit: u64,
    pub limit_hit: bool,
    /// fail only once instead of permanently
    pub transient: bool,
    pub count_pos_queries: bool,
}
impl<'a> Probe<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Probe { data, pos: 0, reads: 0, seeks: 0, delivered: 0, op: 0, fail_at: None, fail_kind: io::ErrorKind::Other, failed: false, max_chunk: usize::MAX, interrupt_every: 0, op_limit: u64::MAX, limit_hit: false, transient: false, count_pos_queries: false }
    }
    fn step(&mut self) -> io::Result<()> {
        let i = self.op;
        self.op += 1;
        if self.op > self.op_limit {
            self.limit_hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "operation limit"));
        }
        // The failure is permanent, like a device that went away.
        if self.fail_at.is_some_and(|f| if self.transient { i == f } else { i >= f }) {
            self.failed = true;
            return Err(io::Error::new(self.fail_kind, "injected fault"));
        }
        Ok(())
    }
}
impl Read for Probe<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        self.step()?;
        if self.interrupt_every > 0 && self.reads % self.interrupt_every == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let start = (self.pos.min(self.data.len() as u64)) as usize;
        let n = b.len().min(self.data.len() - start).min(self.max_chunk);
        b[..n].copy_from_slice(&self.data[start..start + n]);
        self.pos += n as u64;
        self.delivered += n as u64;
        Ok(n)
    }
}
impl Seek for Probe<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        // Position queries are not device operations.
        if self.count_pos_queries || !matches!(s, SeekFrom::Current(0)) {
            self.seeks += 1;
            self.step()?;
        }
        self.pos = seek_to(self.pos, self.data.len() as u64, s)?;
        Ok(self.pos)
    }
}

/// Writer that fails at a given operation and/or splits writes.
pub struct FaultWriter {
    pub inner: Cursor<Vec<u8>>,
    pub op: u64,
    pub fail_at: Option<u64>,
    pub zero_write: bool,
    pub kind: io::ErrorKind,
    pub failed: bool,
    pub max_chunk: usize,
    pub interrupt_every: u64,
    pub count_pos_queries: bool,
    pub transient: bool,
    /// fail once the stream would grow beyond this
    pub byte_limit: u64,
}
impl FaultWriter {
    pub fn new() -> Self {
        FaultWriter { inner: Cursor::new(vec![]), op: 0, fail_at: None, zero_write: false, kind: io::ErrorKind::Other, failed: false, max_chunk: usize::MAX, interrupt_every: 0, count_pos_queries: false, transient: false, byte_limit: 1 << 30 }
    }
    fn step(&mut self) -> io::Result<()> {
        let i = self.op;
        self.op += 1;
        if self.fail_at.is_some_and(|f| if self.transient { i == f } else { i >= f }) {
            self.failed = true;
            return Err(io::Error::new(self.kind, "injected fault"));
        }
        Ok(())
    }
}
impl Write for FaultWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if let Err(e) = self.step() {
            return if self.zero_write { Ok(0) } else { Err(e) };
        }
        if self.interrupt_every > 0 && self.op % self.interrupt_every == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = b.len().min(self.max_chunk);
        if self.inner.position() > self.byte_limit {
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "write beyond 1 GiB"));
        }
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step()
    }
}
impl Seek for FaultWriter {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.count_pos_queries || !matches!(s, SeekFrom::Current(0)) {
            self.step()?;
        }
        self.inner.seek(s)
    }
}
