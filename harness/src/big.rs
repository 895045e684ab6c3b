//! Contents of more than 32 bits of length: made while they are read, checked while they are written.
use std::io::{Error, Read, Result, Seek, SeekFrom, Write};

/// A little more than 4 GiB.
pub const LONG: u64 = (4 << 30) + (5 << 20) + 12_345;

fn seek(pos: &mut u64, len: u64, to: SeekFrom) -> Result<u64> {
    let p = match to {
        SeekFrom::Start(n) => Some(n),
        SeekFrom::Current(d) => pos.checked_add_signed(d),
        SeekFrom::End(d) => len.checked_add_signed(d),
    };
    *pos = p.ok_or_else(|| Error::from_raw_os_error(22))?;
    Ok(*pos)
}

/// The byte at each place of the content.
pub fn fill(buf: &mut [u8], pos: u64) {
    for (i, b) in buf.iter_mut().enumerate() {
        let p = pos + i as u64;
        *b = (p ^ (p >> 11) ^ (p >> 19) ^ (p >> 27) ^ (p >> 32)) as u8;
    }
}

pub struct Endless {
    pub len: u64,
    pub pos: u64,
}
impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(buf.len() as u64) as usize;
        fill(&mut buf[..n], self.pos);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Endless {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        seek(&mut self.pos, self.len, to)
    }
}

/// Compares what is written with the content.
#[derive(Default)]
pub struct Compare {
    pos: u64,
    pub len: u64,
    /// every byte was written once, in order
    pub in_order: u64,
    pub wrong: Option<u64>,
    buf: Vec<u8>,
}
impl Write for Compare {
    fn write(&mut self, data: &[u8]) -> Result<usize> {
        self.buf.resize(data.len(), 0);
        fill(&mut self.buf, self.pos);
        if self.buf != data && self.wrong.is_none() {
            let at = self.buf.iter().zip(data).position(|(a, b)| a != b).unwrap_or(0);
            self.wrong = Some(self.pos + at as u64);
        }
        if self.in_order == self.pos {
            self.in_order += data.len() as u64;
        }
        self.pos += data.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(data.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Compare {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        seek(&mut self.pos, self.len, to)
    }
}

const PAGE: u64 = 4096;

/// Counts how often every part of a long stream is written, and whether zeros came last.
pub struct Cover {
    pos: u64,
    pub len: u64,
    written: Vec<u32>,
    zeros: Vec<u32>,
    pub beyond: u64,
    pub hist: [u64; 256],
}
impl Cover {
    pub fn new(len: u64) -> Cover {
        let n = len.div_ceil(PAGE) as usize;
        Cover { pos: 0, len, written: vec![0; n], zeros: vec![0; n], beyond: 0, hist: [0; 256] }
    }
    /// `len` bytes are written at `pos`.
    pub fn record(&mut self, mut pos: u64, mut len: u64, zero: bool) {
        while len > 0 && pos < self.len {
            let page = (pos / PAGE) as usize;
            let k = len.min(self.len.min((page as u64 + 1) * PAGE) - pos);
            self.written[page] += k as u32;
            self.zeros[page] = if zero { self.zeros[page] + k as u32 } else { 0 };
            pos += k;
            len -= k;
        }
        self.beyond += len;
    }
    /// The first part that was not written `times` times with zeros at the end.
    pub fn judge(&self, times: u64) -> Option<String> {
        for (i, (w, z)) in self.written.iter().zip(&self.zeros).enumerate() {
            let at = i as u64 * PAGE;
            let n = PAGE.min(self.len - at);
            if u64::from(*w) != n * times {
                return Some(format!("{w} bytes are written to the {n} bytes from {at} on, instead of {}", n * times));
            }
            if u64::from(*z) < n {
                return Some(format!("the {n} bytes from {at} on do not end up as zeros"));
            }
        }
        (self.beyond > 0).then(|| format!("{} bytes are written behind the range", self.beyond))
    }
}
impl Write for Cover {
    fn write(&mut self, mut data: &[u8]) -> Result<usize> {
        let n = data.len();
        while !data.is_empty() {
            if self.pos >= self.len {
                self.beyond += data.len() as u64;
                self.pos += data.len() as u64;
                break;
            }
            let page = (self.pos / PAGE) as usize;
            let end = self.len.min((page as u64 + 1) * PAGE);
            let k = data.len().min((end - self.pos) as usize);
            let part = &data[..k];
            self.written[page] += k as u32;
            if part.iter().all(|b| *b == 0) {
                self.zeros[page] += k as u32;
            } else {
                self.zeros[page] = 0;
                self.hist[part[0] as usize] += 1;
            }
            self.pos += k as u64;
            data = &data[k..];
        }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Cover {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        seek(&mut self.pos, self.len, to)
    }
}
