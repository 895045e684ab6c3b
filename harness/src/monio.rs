//! An in-memory file whose reads and writes follow a chunking plan, that can fail at a chosen
//! operation, and that records what was done to it.
use crate::util::Rng;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub enum Chunk {
    Full,
    Fixed(usize),
    /// random sizes up to the bound
    Random(u64, usize),
    /// everything except the last byte asked for
    AllButOne,
}

impl Chunk {
    fn size(&mut self, want: usize) -> usize {
        if want <= 1 {
            return want;
        }
        match self {
            Chunk::Full => want,
            Chunk::Fixed(n) => want.min(*n),
            Chunk::AllButOne => want - 1,
            Chunk::Random(s, max) => {
                let mut r = Rng::new(*s);
                *s = r.u64();
                r.range(1, (*max).min(want).max(1))
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Debug)]
pub enum Op {
    Read { pos: u64, len: usize },
    Write { pos: u64, data: Vec<u8> },
    Seek { to: u64 },
    Flush,
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// index among all operations on this file, or among those of `kind`
    pub at: u64,
    pub kind: Option<Kind>,
    pub err: io::ErrorKind,
    /// fail every later operation of the kind as well
    pub sticky: bool,
    /// a failing write stores this many bytes first and reports them (0: plain error)
    pub partial: usize,
    /// writes return Ok(0) instead of an error
    pub zero: bool,
}

pub struct Inner {
    pub data: Vec<u8>,
    pub pos: u64,
    pub rplan: Chunk,
    pub wplan: Chunk,
    pub ops: u64,
    pub kops: [u64; 4],
    pub budget: u64,
    pub fault: Option<Fault>,
    pub fired: u64,
    pub log: Option<Vec<Op>>,
    pub written: u64,
    pub readonly: bool,
    /// what the latest successful flush (or seek) has made permanent, for a file behind a buffer
    pub durable: Option<Vec<u8>>,
}

#[derive(Clone)]
pub struct MonIo(pub Arc<Mutex<Inner>>);

/// The message of the panic that stops an operation which does not come to an end.
pub const RUNAWAY: &str = "vmon: operation budget exhausted (runaway)";

impl MonIo {
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
    }
    pub fn new(data: Vec<u8>) -> Self {
        let budget = 200_000 + 40 * data.len() as u64;
        MonIo(Arc::new(Mutex::new(Inner {
            data,
            pos: 0,
            rplan: Chunk::Full,
            wplan: Chunk::Full,
            ops: 0,
            kops: [0; 4],
            budget,
            fault: None,
            fired: 0,
            log: None,
            written: 0,
            readonly: false,
            durable: None,
        })))
    }
    pub fn empty() -> Self {
        Self::new(vec![])
    }
    pub fn plan(self, r: Chunk, w: Chunk) -> Self {
        {
            let mut i = self.lock();
            i.rplan = r;
            i.wplan = w;
        }
        self
    }
    pub fn logged(self) -> Self {
        self.lock().log = Some(vec![]);
        self
    }
    pub fn budget(self, b: u64) -> Self {
        self.lock().budget = b;
        self
    }
    pub fn fault(self, f: Fault) -> Self {
        self.lock().fault = Some(f);
        self
    }
    pub fn at(self, pos: u64) -> Self {
        self.lock().pos = pos;
        self
    }
    /// The content; of a file behind a buffer, what has reached it.
    pub fn data(&self) -> Vec<u8> {
        let i = self.lock();
        i.durable.as_ref().unwrap_or(&i.data).clone()
    }
    /// From now on what is written counts only after it was flushed.
    pub fn buffered(&self) {
        let mut i = self.lock();
        i.durable = Some(i.data.clone());
    }
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut self.lock().data)
    }
    pub fn pos(&self) -> u64 {
        self.lock().pos
    }
    pub fn ops(&self) -> u64 {
        self.lock().ops
    }
    pub fn written(&self) -> u64 {
        self.lock().written
    }
    pub fn fired(&self) -> u64 {
        self.lock().fired
    }
    pub fn kops(&self, k: Kind) -> u64 {
        self.lock().kops[k as usize]
    }
    pub fn log(&self) -> Vec<Op> {
        self.lock().log.clone().unwrap_or_default()
    }
}

impl Inner {
    /// Counts the operation; `Some` if it has to fail.
    fn step(&mut self, kind: Kind) -> Option<Fault> {
        let (all, of_kind) = (self.ops, self.kops[kind as usize]);
        self.ops += 1;
        self.kops[kind as usize] += 1;
        if self.ops > self.budget {
            panic!("{RUNAWAY}");
        }
        let f = self.fault.clone()?;
        let n = match f.kind {
            None => all,
            Some(k) if k == kind => of_kind,
            Some(_) => return None,
        };
        if n == f.at || (f.sticky && n > f.at) {
            self.fired += 1;
            Some(f)
        } else {
            None
        }
    }
    fn commit(&mut self) {
        if let Some(d) = &mut self.durable {
            d.clone_from(&self.data);
        }
    }
    fn store(&mut self, buf: &[u8]) {
        let p = self.pos as usize;
        if self.data.len() < p {
            self.data.resize(p, 0);
        }
        let n = buf.len().min(self.data.len() - p);
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.data.extend_from_slice(&buf[n..]);
        if let Some(l) = &mut self.log {
            l.push(Op::Write {
                pos: p as u64,
                data: buf.to_vec(),
            });
        }
        self.pos += buf.len() as u64;
        self.written += buf.len() as u64;
    }
}

fn fail(f: &Fault) -> io::Error {
    io::Error::new(f.err, "injected fault")
}

impl Read for MonIo {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut i = self.lock();
        if let Some(f) = i.step(Kind::Read) {
            return Err(fail(&f));
        }
        let p = i.pos.min(i.data.len() as u64) as usize;
        let want = buf.len().min(i.data.len() - p);
        let n = i.rplan.size(want);
        buf[..n].copy_from_slice(&i.data[p..p + n]);
        i.pos += n as u64;
        if let Some(l) = &mut i.log {
            l.push(Op::Read {
                pos: p as u64,
                len: n,
            });
        }
        Ok(n)
    }
}

impl Write for MonIo {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut i = self.lock();
        if let Some(f) = i.step(Kind::Write) {
            if f.partial > 0 && !buf.is_empty() {
                let n = f.partial.min(buf.len());
                i.store(&buf[..n]);
                return Ok(n);
            }
            return if f.zero { Ok(0) } else { Err(fail(&f)) };
        }
        if i.readonly {
            return Err(io::Error::new(io::ErrorKind::PermissionDenied, "read-only"));
        }
        let n = i.wplan.size(buf.len());
        i.store(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut i = self.lock();
        if let Some(f) = i.step(Kind::Flush) {
            return Err(fail(&f));
        }
        if let Some(l) = &mut i.log {
            l.push(Op::Flush);
        }
        i.commit();
        Ok(())
    }
}

impl Seek for MonIo {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let mut i = self.lock();
        if let Some(f) = i.step(Kind::Seek) {
            return Err(fail(&f));
        }
        let to = match s {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => i.data.len() as i128 + i128::from(d),
            SeekFrom::Current(d) => i128::from(i.pos) + i128::from(d),
        };
        if to < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start"));
        }
        i.pos = to as u64;
        i.commit();
        if let Some(l) = &mut i.log {
            l.push(Op::Seek { to: to as u64 });
        }
        Ok(to as u64)
    }
}
