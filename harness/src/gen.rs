//! Generators shared by the workloads.
use crate::monio::Chunk;
use crate::ops::{Alg, Kdf, ALGS, KDFS};
use crate::refimpl::BLOCK;
use crate::util::Rng;

/// Lengths around the boundaries that matter, and others.
pub fn length(r: &mut Rng, max_blocks: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 => r.range(1, 20),
        2 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 415, 416, 417, 511, 512, 513]),
        3..=5 => r.range(1, 3000),
        6 => r.range(1, 70_000),
        7 => r.range(BLOCK - 40, BLOCK - 1),
        8 if max_blocks > 0 => BLOCK * r.range(1, max_blocks),
        9 if max_blocks > 0 => BLOCK * r.range(1, max_blocks) + r.range(1, 40),
        10 if max_blocks > 0 => BLOCK * r.range(1, max_blocks) - r.range(1, 40),
        _ => {
            if max_blocks > 0 {
                r.range(0, max_blocks * BLOCK)
            } else {
                r.range(0, 9000)
            }
        }
    }
}

pub fn content(r: &mut Rng, len: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0; len],
        1 => vec![0xFF; len],
        2 => (0..len).map(|i| b"The quick brown fox "[i % 20]).collect(),
        3 => {
            // starts like an encrypted file or an archive
            let mut v = r.bytes(len);
            let m: &[u8] = *r.pick(&[
                &[0xDE, 5, 0x0E, 1, 0x0C, 1][..],
                &[0xDE, 4, 0x0E, 2, 0x0C, 2],
                b"PK\x03\x04",
                &[0; 64],
            ]);
            for (i, b) in m.iter().enumerate().take(len) {
                v[i] = *b;
            }
            v
        }
        _ => r.bytes(len),
    }
}

pub fn password(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 1,
        1 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257]),
        2 => r.range(200, 2000),
        _ => r.range(2, 24),
    };
    match r.below(5) {
        0 => r.bytes(n),
        1 => (0..n).map(|_| *r.pick(&[0u8, b'\n', b'\r', b' ', b'a', 0xFF, 0xC3, b'\t'])).collect(),
        2 => "pässwörd-秘密-🔑".bytes().cycle().take(n).collect(),
        _ => (0..n).map(|_| r.range(33, 126) as u8).collect(),
    }
}

pub fn alg(r: &mut Rng) -> Alg {
    *r.pick(&ALGS)
}
pub fn kdf(r: &mut Rng) -> Kdf {
    *r.pick(&KDFS)
}

/// A chunking plan, cheap enough for data of this length.
pub fn chunk(r: &mut Rng, len: usize) -> Chunk {
    let small = len <= 20_000;
    match r.below(7) {
        0 => Chunk::Full,
        1 if small => Chunk::Fixed(1),
        2 if small => Chunk::Fixed(r.range(2, 60)),
        3 => Chunk::AllButOne,
        4 => Chunk::Random(r.u64(), r.range(1, 64) * if small { 1 } else { 4096 }),
        5 => Chunk::Fixed(*r.pick(&[8192, 65536, BLOCK / 2, BLOCK / 2 + 1, BLOCK - 1, BLOCK, BLOCK + 16, 4096])),
        _ => Chunk::Random(r.u64(), 3 * BLOCK / 2),
    }
}

/// Values that a careless comparison could take for `k`.
pub fn near_misses(r: &mut Rng, k: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let app = |b: &[u8]| [k, b].concat();
    v.push(("newline appended", app(b"\n")));
    v.push(("CRLF appended", app(b"\r\n")));
    v.push(("zero byte appended", app(b"\0")));
    v.push(("space appended", app(b" ")));
    v.push(("space prepended", [b" ", k].concat()));
    v.push(("byte appended", app(&[r.u64() as u8])));
    v.push(("doubled", [k, k].concat()));
    v.push(("last byte removed", k[..k.len().saturating_sub(1)].to_vec()));
    v.push(("first byte removed", k[k.len().min(1)..].to_vec()));
    v.push(("empty", vec![]));
    v.push(("lower case", k.to_ascii_lowercase()));
    v.push(("upper case", k.to_ascii_uppercase()));
    v.push(("reversed", k.iter().rev().copied().collect()));
    v.push(("trimmed", String::from_utf8_lossy(k).trim().as_bytes().to_vec()));
    v.push(("lossy text", String::from_utf8_lossy(k).as_bytes().to_vec()));
    v.push(("7 bit", k.iter().map(|b| b & 0x7F).collect()));
    for n in [8, 16, 32, 55, 56, 64, 72, 128, 255, 256, 1024, 4096, 8192, 65_536, 1 << 20] {
        if k.len() > n {
            v.push(("cut at a boundary", k[..n].to_vec()));
        }
    }
    if let Some(p) = k.iter().position(|b| *b == 0 || *b == b'\n' || *b == b'\r') {
        v.push(("cut at a separator", k[..p].to_vec()));
        v.push(("cut after a separator", k[p + 1..].to_vec()));
    }
    for _ in 0..3 {
        if !k.is_empty() {
            let mut m = k.to_vec();
            let i = r.below(m.len());
            m[i] ^= 1 << r.below(8);
            v.push(("one bit flipped", m));
        }
    }
    if !k.is_empty() {
        let mut m = k.to_vec();
        let i = m.len() - 1;
        m[i] ^= 1 << r.below(8);
        v.push(("bit of the last byte flipped", m));
        let mut m = k.to_vec();
        m[0] ^= 1 << r.below(8);
        v.push(("bit of the first byte flipped", m));
    }
    let n = r.range(1, 20);
    v.push(("unrelated", r.bytes(n)));
    v.retain(|(_, m)| m != k);
    v
}
