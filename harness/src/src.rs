//! Instrumented byte sources: the boundary at which reads, seeks and faults are observed.

use crate::rng::Rng;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

pub trait Content: Send + Sync {
    fn len(&self) -> u64;
    fn read_at(&self, pos: u64, buf: &mut [u8]);
}
impl Content for Vec<u8> {
    fn len(&self) -> u64 {
        Vec::len(self) as u64
    }
    fn read_at(&self, pos: u64, buf: &mut [u8]) {
        let p = pos as usize;
        buf.copy_from_slice(&self[p..p + buf.len()]);
    }
}

/// A huge stream that is zero except for some segments (sorted by position).
pub struct Sparse {
    pub segs: Vec<(u64, Vec<u8>)>,
    pub len: u64,
}
impl Content for Sparse {
    fn len(&self) -> u64 {
        self.len
    }
    fn read_at(&self, pos: u64, buf: &mut [u8]) {
        buf.fill(0);
        let end = pos + buf.len() as u64;
        let i = self.segs.partition_point(|(o, s)| o + s.len() as u64 <= pos);
        for (o, s) in &self.segs[i..] {
            if *o >= end {
                break;
            }
            let a = (*o).max(pos);
            let b = (o + s.len() as u64).min(end);
            buf[(a - pos) as usize..(b - pos) as usize].copy_from_slice(&s[(a - o) as usize..(b - o) as usize]);
        }
    }
}

#[derive(Clone, Debug)]
pub enum Chunk {
    Full,
    Max(usize),
    /// Random short reads of up to this many bytes.
    Random(usize),
    /// Mostly full reads, stopping at these absolute positions.
    Stops(Arc<Vec<u64>>),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// Number of the operation (reads and seeks, counted over the life of the source) that fails.
    pub at: u64,
    pub kind: ErrorKind,
    /// Every later operation fails, too.
    pub persistent: bool,
}

#[derive(Default, Debug)]
pub struct St {
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub faults: u64,
    pub interrupts: u64,
    /// Ranges that were delivered.
    pub touched: Vec<(u64, u64)>,
    pub record: bool,
    pub budget: Option<u64>,
    pub over: bool,
    /// Read calls that reported the end.
    pub eofs: u64,
    pub fault: Option<Fault>,
    /// Every n-th read is interrupted (0: never)
    pub interrupt_every: u64,
    pub delay_us: u64,
}

pub struct Budget;

#[derive(Clone)]
pub struct Src {
    content: Arc<dyn Content>,
    pos: u64,
    pub chunk: Chunk,
    rng: Rng,
    pub st: Arc<Mutex<St>>,
}

impl Src {
    pub fn new(content: Arc<dyn Content>) -> Src {
        Src { content, pos: 0, chunk: Chunk::Full, rng: Rng::new(1), st: Arc::new(Mutex::new(St::default())) }
    }
    pub fn bytes(b: &Arc<Vec<u8>>) -> Src {
        Src::new(b.clone() as Arc<dyn Content>)
    }
    pub fn vec(b: Vec<u8>) -> Src {
        Src::new(Arc::new(b))
    }
    pub fn chunk(mut self, c: Chunk, seed: u64) -> Src {
        self.chunk = c;
        self.rng = Rng::new(seed);
        self
    }
    pub fn at(mut self, pos: u64) -> Src {
        self.pos = pos;
        self
    }
    pub fn fault(self, f: Fault) -> Src {
        self.st.lock().unwrap().fault = Some(f);
        self
    }
    pub fn budget(self, n: u64) -> Src {
        self.st.lock().unwrap().budget = Some(n);
        self
    }
    pub fn record(self) -> Src {
        self.st.lock().unwrap().record = true;
        self
    }
    pub fn stats(&self) -> Arc<Mutex<St>> {
        self.st.clone()
    }
    fn op(&self, s: &mut St) -> io::Result<()> {
        let n = s.ops;
        s.ops += 1;
        if let Some(b) = s.budget {
            if n >= b {
                s.over = true;
                if n >= b + 10_000 {
                    // The caller goes on in spite of errors: leave its loop.
                    std::panic::panic_any(Budget);
                }
                return Err(io::Error::new(ErrorKind::Other, "operation budget exhausted"));
            }
        }
        if let Some(f) = s.fault {
            if n == f.at || (f.persistent && n > f.at) {
                s.faults += 1;
                return Err(io::Error::new(f.kind, "injected fault"));
            }
        }
        Ok(())
    }
}

pub fn chunk_any(r: &mut Rng, lay: &[crate::model::Lay]) -> Chunk {
    match r.below(7) {
        0 => Chunk::Full,
        1 => Chunk::Max(1),
        2 => Chunk::Max(1 + r.us(16)),
        3 => Chunk::Random(1 + r.us(10)),
        4 => Chunk::Random(5000),
        5 => Chunk::Random(70000),
        _ => {
            let mut v: Vec<u64> = vec![];
            for l in lay {
                for p in [l.off, l.off + 1, l.off + 2, l.off + 3, l.off + 4, l.data_off(), l.data_off() + 1, l.end().saturating_sub(1), l.end()] {
                    if r.chance(1, 2) {
                        v.push(p);
                    }
                }
            }
            v.sort();
            v.dedup();
            Chunk::Stops(Arc::new(v))
        }
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let delay;
        {
            let st = self.st.clone();
            let mut s = st.lock().unwrap();
            self.op(&mut s)?;
            s.reads += 1;
            if s.interrupt_every > 0 && s.reads % s.interrupt_every == 0 {
                s.interrupts += 1;
                return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            delay = s.delay_us;
            let left = self.content.len().saturating_sub(self.pos);
            let mut n = (buf.len() as u64).min(left) as usize;
            if n > 0 {
                n = match &self.chunk {
                    Chunk::Full => n,
                    Chunk::Max(m) => n.min(*m),
                    Chunk::Random(m) => n.min(1 + self.rng.us(*m)),
                    Chunk::Stops(v) => {
                        let i = v.partition_point(|x| *x <= self.pos);
                        match v.get(i) {
                            Some(x) => n.min((x - self.pos) as usize),
                            None => n,
                        }
                    }
                };
                self.content.read_at(self.pos, &mut buf[..n]);
                if s.record {
                    match s.touched.last_mut() {
                        Some(l) if l.1 == self.pos => l.1 += n as u64,
                        _ => s.touched.push((self.pos, self.pos + n as u64)),
                    }
                }
                self.pos += n as u64;
                s.bytes += n as u64;
            } else if !buf.is_empty() {
                s.eofs += 1;
            }
            if delay == 0 {
                return Ok(n);
            }
            drop(s);
            std::thread::sleep(std::time::Duration::from_micros(delay));
            Ok(n)
        }
    }
}

impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let st = self.st.clone();
        let mut s = st.lock().unwrap();
        self.op(&mut s)?;
        s.seeks += 1;
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.content.len() as i128 + d as i128,
        };
        if n < 0 || n > i64::MAX as i128 {
            return Err(io::Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// A reader without `Seek`.
pub struct NoSeek<R>(pub R);
impl<R: Read> Read for NoSeek<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}

/// Does any touched range contain one of these positions?
pub fn touched(t: &[(u64, u64)], pos: u64) -> bool {
    t.iter().any(|(a, b)| *a <= pos && pos < *b)
}
