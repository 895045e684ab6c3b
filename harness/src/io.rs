//! C21 (overwriting), C23 (hashing) and C24 (I/O failures).
use crate::big;
use crate::gen;
use crate::monio::{Chunk, Fault, Kind, MonIo, Op};
use crate::ops::*;
use crate::refimpl::{self, BLOCK};
use crate::trace::{self, Cmd, Scratch};
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::io::ErrorKind;

// ---------------------------------------------------------------------------------------------
// C21

pub fn windows(v: &[u8]) -> impl Iterator<Item = [u8; 16]> + '_ {
    let n = v.len() / 16;
    (0..n)
        .map(|i| <[u8; 16]>::try_from(&v[16 * i..16 * i + 16]).unwrap())
        .chain((v.len() > 16 && v.len() % 16 != 0).then(|| v[v.len() - 16..].try_into().unwrap()).filter(|_| v.len() % 16 >= 8))
}

struct Tally {
    /// values seen at each position of very short passes
    tiny: BTreeMap<(usize, usize), BTreeMap<u8, u64>>,
    hist: [u64; 256],
}

fn c21_case(o: &mut Obs, t: &mut Tally, n: usize, passes: i32, after: usize, at: u64, wp: Chunk) {
    let old = match o.rng.below(3) {
        0 => vec![0xA5; n],
        1 => vec![0; n],
        _ => o.rng.bytes(n),
    };
    let tail = o.rng.bytes(after);
    let d = |s: String| format!("{n} bytes, {passes} passes, {after} bytes behind, position {at}, writes {wp:?}: {s}");
    o.eval(&(n, passes, after, at, format!("{wp:?}")), n > 0);
    let f = MonIo::new([old.clone(), tail.clone()].concat()).at(at).logged().plan(Chunk::Full, wp.clone());
    let f = f.budget(100_000 + 40 * (n as u64 + 1) * (passes.max(0) as u64 + 1));
    let r = overwrite(&f, n, passes);
    if !r.ok() {
        return o.viol("fails", d(r.name()));
    }
    // every byte's sequence of values, from the recorded writes
    let p = passes.max(0) as usize;
    let mut level = vec![0u32; n];
    let mut pass = vec![vec![0u8; n]; p + 1];
    let mut now = 0;
    for op in f.log() {
        let Op::Write { pos, data } = op else { continue };
        o.count("write_events", 1);
        let a = pos as usize;
        if a + data.len() > n {
            return o.viol("beyond", d(format!("{} bytes are written at {pos}", data.len())));
        }
        for (i, b) in data.iter().enumerate() {
            let l = level[a + i] as usize;
            if l > p {
                return o.viol("passes", d(format!("byte {} is written {} times", a + i, l + 1)));
            }
            if l < now {
                return o.viol("order", d(format!("byte {} gets its value {} after others got theirs of pass {}", a + i, l + 1, now + 1)));
            }
            now = l;
            pass[l][a + i] = *b;
            level[a + i] += 1;
        }
    }
    if let Some(i) = level.iter().position(|l| *l as usize != p + 1) {
        return o.viol("passes", d(format!("byte {i} is written {} times instead of {}", level[i], p + 1)));
    }
    if let Some(i) = pass[p].iter().position(|b| *b != 0) {
        return o.viol("zeros", d(format!("the last value of byte {i} is {}", pass[p][i])));
    }
    if f.data() != [vec![0; n], tail].concat() {
        return o.viol("result", d("the stream is not zeros followed by the old rest".into()));
    }
    o.count("passes_checked", p as u64);
    let mut seen: HashSet<[u8; 16]> = windows(&old).collect();
    for (k, v) in pass[..p].iter().enumerate() {
        let mut mine = HashSet::new();
        for w in windows(v) {
            if seen.contains(&w) {
                return o.viol("same-data", d(format!("pass {} repeats data of the content or of an earlier pass", k + 1)));
            }
            if w.iter().all(|b| *b == w[0]) || !mine.insert(w) {
                return o.viol("not-random", d(format!("pass {} writes {}", k + 1, brief(v))));
            }
        }
        seen.extend(mine);
        if n <= 16 {
            for (i, b) in v.iter().enumerate() {
                *t.tiny.entry((n, i)).or_default().entry(*b).or_insert(0) += 1;
            }
        }
        for b in v {
            t.hist[*b as usize] += 1;
        }
        // the bytes behind the last whole block of any plausible size
        if n > 16 {
            let w = &v[n - 8..];
            if w.iter().all(|b| *b == w[0]) {
                return o.viol("not-random", d(format!("pass {} ends with {}", k + 1, hex(w))));
            }
        }
    }
}

/// A range of more than 32 bits of length.
fn c21_long(o: &mut Obs, len: u64, passes: i32) {
    let w = std::cell::RefCell::new(big::Cover::new(len));
    let r = guard(|| tools::overwrite::execute(tools::overwrite::Request { writer: &w, buf_capacity: len as usize, passes }));
    o.eval(&("long", len, passes), true);
    o.count("longest_ranges", 1);
    o.max("max_length", len);
    let w = w.into_inner();
    let bad = if r.ok() { w.judge(passes as u64 + 1) } else { Some(r.name()) };
    if let Some(t) = bad {
        o.viol("long-range", format!("overwriting {len} bytes in {passes} passes: {t}"));
    }
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "Each case overwrites a recording stream and rebuilds from the recorded writes the sequence of values of every byte; non-trivial: \
        distinct (length, passes, rest, position, write splitting) with a length above 0."
        .into();
    ctx.min_evals = 500;
    ctx.need("write_events", 5000);
    ctx.need("passes_checked", 1000);
    ctx.need("longest_ranges", 1);
    let t = std::sync::Mutex::new(Tally { tiny: BTreeMap::new(), hist: [0; 256] });
    ctx.par(1, ctx.pick(5, 200), |o| {
        let mut my = Tally { tiny: BTreeMap::new(), hist: [0; 256] };
        let mut i = 0;
        for n in (0..=34).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 510, 511, 512, 513, 514, 1023, 1024, 1025, 1535, 1536, 1537, 2048, 4095, 4096, 4097, 65535, 65536, 65537, BLOCK - 1, BLOCK, BLOCK + 1, BLOCK + 511, 2 * BLOCK + 513]) {
            for passes in [0, 1, 2, 3, 7] {
                for (after, at) in [(0, 0), (5, 0), (700, 3)] {
                    i += 1;
                    if o.mine(i) && (n < 70_000 || o.thorough || passes < 3) {
                        c21_case(o, &mut my, n, passes, after, at, Chunk::Full);
                        if n < 5000 {
                            let wp = gen::chunk(&mut o.rng, n);
                            c21_case(o, &mut my, n, passes, after, at, wp);
                        }
                    }
                }
            }
        }
        if o.worker == 0 {
            c21_long(o, big::LONG, 1);
        }
        // far more than any buffer
        for (n, passes) in [(17 * BLOCK + 5, 1), (66 * BLOCK + 513, 1), (33 * BLOCK, 2), (130 * BLOCK + 1, 0)] {
            i += 1;
            if o.mine(i) {
                c21_case(o, &mut my, n, passes, 100, 0, Chunk::Full);
                o.max("max_length", n as u64);
            }
        }
        while o.time_left() {
            let n = match o.rng.below(4) {
                0 => o.rng.range(0, 16),
                1 => o.rng.range(17, 3000),
                2 => 512 * o.rng.range(1, 40) + o.rng.below(3) - 1,
                _ => gen::length(&mut o.rng, 1),
            };
            let (passes, after, at) = (o.rng.range(0, 5) as i32, o.rng.below(2000), o.rng.below(n + 5) as u64);
            let wp = gen::chunk(&mut o.rng, n);
            o.sample(|| format!("length {n}, {passes} passes, {after} bytes behind, from position {at}, writes {wp:?}"));
            c21_case(o, &mut my, n, passes, after, at, wp);
        }
        let mut t = t.lock().unwrap();
        for (k, m) in my.tiny {
            let e = t.tiny.entry(k).or_default();
            for (b, c) in m {
                *e.entry(b).or_insert(0) += c;
            }
        }
        for i in 0..256 {
            t.hist[i] += my.hist[i];
        }
    });
    let t = t.into_inner().unwrap();
    ctx.single(2, 5, |o| {
        for ((n, i), m) in &t.tiny {
            let total: u64 = m.values().sum();
            let top = m.values().max().copied().unwrap_or(0);
            // a sound source repeats a byte more than half of 40 times with probability below 2^-150
            if total >= 40 && top * 2 > total {
                o.viol("not-random", format!("byte {i} of passes over {n} bytes has the same value {top} of {total} times"));
            }
            o.count("short_positions", 1);
        }
        let total: u64 = t.hist.iter().sum();
        let e = total as f64 / 256.0;
        let chi: f64 = t.hist.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
        o.max("max_bytes_in_passes", total);
        // 255 degrees of freedom: 560 is beyond 13 standard deviations
        if total > 100_000 && chi > 560.0 {
            o.viol("biased", format!("byte values of {total} bytes written in passes: chi square {chi:.0}"));
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C23

const VECTORS: [(&[u8], &str); 3] = [
    (b"", "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),
    (b"\0", "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213"),
    (b"abc", "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"),
];

fn c23_case(o: &mut Obs, data: &[u8], at: u64, rp: Chunk) {
    let want = blake3::hash(data).to_hex().to_string();
    let d = |s: &str| format!("{} bytes {}, stream at {at}, reads {rp:?}: {s}", data.len(), brief(data));
    o.eval(&(hash_of(&data), at, format!("{rp:?}")), true);
    let f = MonIo::new(data.to_vec()).at(at).logged().plan(rp.clone(), Chunk::Full).budget(100_000 + 40 * data.len() as u64);
    let r = hash(&f);
    o.count("read_events", f.ops());
    match r {
        Out::Ok(h) if h == want => {}
        Out::Ok(h) => o.viol("digest", d(&format!("{h} instead of {want}"))),
        x => o.viol("fails", d(&x.name())),
    }
    if f.data() != data || f.kops(Kind::Write) > 0 {
        o.viol("modified", d("the content was written to"));
    }
}

fn c23_endless(o: &mut Obs, len: u64) {
    let mut h = blake3::Hasher::new();
    let mut buf = vec![0; 1 << 20];
    let mut pos = 0;
    while pos < len {
        let n = (len - pos).min(buf.len() as u64) as usize;
        big::fill(&mut buf[..n], pos);
        h.update(&buf[..n]);
        pos += n as u64;
    }
    let want = h.finalize().to_hex().to_string();
    let f = big::Endless { len, pos: 0 };
    let r = guard(|| tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: std::cell::RefCell::new(f) }));
    o.eval(&("endless", len), true);
    o.max("max_length", len);
    if r != Out::Ok(want.clone()) {
        o.viol("digest", format!("{len} bytes made while they are read: {r:?} instead of {want}"));
    }
}

/// The program's hash command and switches.
fn c23_cli(o: &mut Obs, sc: &Scratch) {
    sc.reset();
    let n = match o.rng.below(6) {
        0 => 1,
        1 => 2,
        2 => o.rng.range(20, 60),
        _ => o.rng.range(3, 8),
    };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    // files that have much in common: their name, their length, most of their content
    let alike = o.rng.chance(1, 3);
    let (same_name, same_len) = (o.rng.chance(2, 3), o.rng.chance(2, 3));
    for i in 0..n {
        let len = match files.first() {
            Some(f) if alike && same_len => f.1.len(),
            _ if n > 10 => o.rng.below(3000),
            _ => gen::length(&mut o.rng, 2),
        };
        let mut data = gen::content(&mut o.rng, len);
        if let (true, true, true, Some(f)) = (alike, len > 0, o.rng.chance(1, 2), files.first()) {
            if f.1.len() == len {
                data = f.1.clone();
                let at = *o.rng.pick(&[0, len / 2, len - 1]);
                data[at] ^= o.rng.range(1, 255) as u8;
            }
        }
        let name = match o.rng.below(5) {
            0 => format!("file {i}"),
            1 => format!("d{i}/däta-{i}.bin"),
            2 => format!(".hidden{i}"),
            _ => format!("f{i}"),
        };
        let name = if alike && same_name { format!("dir {i}/same.name") } else { name };
        sc.put(&name, &data);
        files.push((name, data));
    }
    o.count(if alike { "commands_on_similar_files" } else { "commands_on_other_files" }, 1);
    if n > 2 && o.rng.chance(1, 2) {
        let again = files[o.rng.below(n)].clone();
        files.push(again);
    }
    let missing = o.rng.chance(1, 6).then(|| o.rng.below(files.len() + 1));
    sc.own();
    let before = trace::snapshot(&sc.w);
    let mut args = vec!["hash".to_string()];
    args.extend(files.iter().map(|f| f.0.clone()));
    if let Some(m) = missing {
        args.insert(1 + m, "not-there".into());
    }
    let mut c = Cmd::cli(&args);
    if o.rng.chance(1, 2) {
        let seed = o.rng.below(1 << 30);
        let max = *o.rng.pick(&[1000, 70_000, BLOCK + 5]);
        c = c.traced().env("VT_NODATA", "1").env("VT_SHORT", format!("{seed}:{max}"));
    }
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("cli", hash_of(&args), hash_of(&files)), true);
    o.count("files_hashed_by_program", files.len() as u64);
    let text = String::from_utf8_lossy(&r.stdout).to_string();
    let d = |s: &str| format!("{}: {s}; {}", c.text(), r.text());
    if trace::diff(&before, &trace::snapshot(&sc.w)) != Vec::<String>::new() {
        o.viol("cli-modified", d("files changed"));
    }
    if missing.is_some() {
        if r.ok() {
            o.viol("cli-missing", d("success although a file does not exist"));
        }
    } else if !r.ok() {
        o.viol("cli-fails", d("fails"));
    }
    let shown = if let Some(m) = missing { m } else { files.len() };
    let lines: Vec<&str> = text.lines().collect();
    let mut at = 0;
    for (name, data) in &files[..shown] {
        let want = blake3::hash(data).to_hex().to_string();
        match lines[at..].iter().position(|l| l.contains(name.as_str())) {
            Some(p) => {
                if !lines[at + p].contains(&want) {
                    o.viol("cli-digest", d(&format!("{:?} does not show {want}", lines[at + p])));
                }
                at += p + 1;
            }
            None => {
                // files before a missing one need not be reported
                if missing.is_none() {
                    o.viol("cli-unreported", d(&format!("no line for {name}")));
                }
                break;
            }
        }
    }
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "Each case hashes a recording stream of known content and compares with one call of the BLAKE3 function (itself checked with published \
        vectors), or runs the program on several files; non-trivial: distinct (content, position, read splitting) or command."
        .into();
    ctx.min_evals = 400;
    ctx.need("files_hashed_by_program", 100);
    ctx.need("commands_on_similar_files", 8);
    ctx.single(1, 5, |o| {
        for (m, h) in VECTORS {
            if blake3::hash(m).to_hex().as_str() != h {
                o.inconclusive("the BLAKE3 function fails its published vectors");
            }
            c23_case(o, m, 0, Chunk::Full);
        }
    });
    ctx.par(2, ctx.pick(4, 200), |o| {
        let mut i = 0;
        for len in [0, 1, 2, 63, 64, 65, 1023, 1024, 1025, 2048, 2049, 3073, 8192, 16384, 16385, 65536, 131_071, 131_072, 131_073, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK - 1, 2 * BLOCK, 2 * BLOCK + 1, 3 * BLOCK + 17] {
            for at in [0, 1, len / 2, len, len + 9] {
                for rp in [Chunk::Full, Chunk::AllButOne, Chunk::Fixed(4096), Chunk::Fixed(65_536), Chunk::Fixed(100_003)] {
                    i += 1;
                    if o.mine(i) {
                        let data = gen::content(&mut o.rng, len);
                        c23_case(o, &data, at as u64, rp);
                    }
                }
            }
        }
        // far more than any buffer
        for len in [17 * BLOCK + 5, 66 * BLOCK, 257 * BLOCK + 1, 300 * BLOCK - 7] {
            i += 1;
            if o.mine(i) {
                let data = o.rng.bytes(len);
                c23_case(o, &data, 7, Chunk::Full);
                o.max("max_length", len as u64);
            }
        }
        if o.worker == 0 {
            c23_endless(o, if o.thorough { big::LONG + (1 << 30) } else { big::LONG });
        }
        while o.time_left() {
            let len = gen::length(&mut o.rng, 3);
            let data = gen::content(&mut o.rng, len);
            let at = o.rng.below(len + 3) as u64;
            let rp = gen::chunk(&mut o.rng, len);
            o.sample(|| format!("{len} bytes, stream at {at}, reads {rp:?}"));
            c23_case(o, &data, at, rp);
        }
    });
    ctx.par(3, ctx.pick(3, 60), |o| {
        let sc = Scratch::new();
        let mut n = 0;
        while o.time_left() || n < 10 {
            c23_cli(o, &sc);
            n += 1;
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C24

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ope {
    Encrypt,
    EncryptDetached,
    Decrypt,
    DecryptDetached,
    DecryptBlank,
    Hash,
    Dump,
    Strip,
    Restore,
    Verify,
    Add,
    Change,
    Delete,
    Overwrite,
    Details,
}
const OPES: [Ope; 15] = [
    Ope::Encrypt,
    Ope::EncryptDetached,
    Ope::Decrypt,
    Ope::DecryptDetached,
    Ope::DecryptBlank,
    Ope::Hash,
    Ope::Dump,
    Ope::Strip,
    Ope::Restore,
    Ope::Verify,
    Ope::Add,
    Ope::Change,
    Ope::Delete,
    Ope::Overwrite,
    Ope::Details,
];

/// The streams an operation works on, and how to judge its success.
struct Stage {
    op: Ope,
    pt: Vec<u8>,
    key: Vec<u8>,
    key2: Vec<u8>,
    spec: Spec,
    memory: bool,
    header: Vec<u8>,
    body: Vec<u8>,
    plan: Chunk,
    /// where the streams stand at first
    starts: [u64; NSTREAM],
}

const NSTREAM: usize = 3;

impl Stage {
    fn new(r: &mut Rng, op: Ope, len: usize) -> Stage {
        let mut spec = Spec::new(gen::alg(r), gen::kdf(r));
        spec.detached = op == Ope::EncryptDetached;
        let pt = gen::content(r, len);
        let key = gen::password(r);
        let ver = match op {
            Ope::Decrypt | Ope::DecryptDetached | Ope::DecryptBlank | Ope::Details | Ope::Strip => r.range(1, 5) as u8,
            Ope::Dump | Ope::Restore => r.range(3, 5) as u8,
            _ => 5,
        };
        if !matches!(op, Ope::Encrypt | Ope::EncryptDetached) {
            spec.ver = ver;
        }
        let memory = matches!(op, Ope::Decrypt | Ope::DecryptDetached) && r.chance(1, 3);
        let pos = if matches!(op, Ope::Dump | Ope::Restore) { 0 } else { r.below(4) };
        let m = refimpl::make(r, ver, spec.alg, memory, &[(pos, spec.kdf, key.clone())], &pt);
        let small = len < 5000;
        let plan = match r.below(5) {
            0 | 1 => Chunk::Full,
            2 => Chunk::AllButOne,
            3 if small => Chunk::Fixed(r.range(7, 300)),
            _ => Chunk::Fixed(BLOCK / 3),
        };
        Stage {
            op,
            key2: [&key[..], b"+"].concat(),
            pt,
            key,
            spec,
            memory,
            header: m.header,
            body: m.body,
            plan,
            starts: if r.chance(1, 2) { [0; NSTREAM] } else { [r.below(len + 3) as u64, r.range(1, 600) as u64, r.range(1, 600) as u64] },
        }
    }
    fn io(&self, data: &[u8]) -> MonIo {
        MonIo::new(data.to_vec()).plan(self.plan.clone(), self.plan.clone()).budget(300_000 + 10 * data.len() as u64)
    }
    /// Fresh streams: 0 input or handle, 1 output, 2 header.
    fn streams(&self) -> [MonIo; NSTREAM] {
        let whole = [self.header.clone(), self.body.clone()].concat();
        let blank = [vec![0; self.header.len()], self.body.clone()].concat();
        let e = || self.io(&[]).budget(400_000 + 10 * self.pt.len() as u64);
        match self.op {
            // these start from the beginning, wherever the streams stand
            Ope::Encrypt | Ope::EncryptDetached | Ope::Hash => {
                [self.io(&self.pt).at(self.starts[0]), e().at(self.starts[1]), e().at(self.starts[2])]
            }
            Ope::Decrypt | Ope::Dump | Ope::Strip | Ope::Verify | Ope::Add | Ope::Change | Ope::Delete | Ope::Details => [self.io(&whole), e(), e()],
            Ope::DecryptDetached => [self.io(&self.body), e(), self.io(&self.header)],
            Ope::DecryptBlank => [self.io(&blank), e(), self.io(&self.header)],
            Ope::Restore => [self.io(&self.header), self.io(&blank), e()],
            Ope::Overwrite => [self.io(&self.pt).at(self.starts[0]), e(), e()],
        }
    }
    fn run(&self, s: &[MonIo; NSTREAM]) -> (Out<()>, String) {
        let mut text = String::new();
        let r = match self.op {
            Ope::Encrypt => encrypt_io(self.spec, &self.key, &s[0], &s[1], None),
            Ope::EncryptDetached => encrypt_io(self.spec, &self.key, &s[0], &s[1], Some(&s[2])),
            Ope::Decrypt => decrypt_io(None, &s[0], &s[1], &self.key),
            Ope::DecryptDetached | Ope::DecryptBlank => decrypt_io(Some(&s[2]), &s[0], &s[1], &self.key),
            Ope::Hash => match hash(&s[0]) {
                Out::Ok(h) => {
                    text = h;
                    Out::Ok(())
                }
                Out::Err(e) => Out::Err(e),
                Out::Panic(p) => Out::Panic(p),
            },
            Ope::Dump => dump(&s[0], &s[1]),
            Ope::Strip => strip(&s[0]),
            Ope::Restore => restore(&s[0], &s[1]),
            Ope::Verify => key_verify(&s[0], &self.key),
            Ope::Add => key_add(&s[0], &self.key, &self.key2, self.spec.kdf),
            Ope::Change => key_change(&s[0], &self.key, &self.key2, self.spec.kdf),
            Ope::Delete => key_delete(&s[0], &self.key),
            Ope::Overwrite => overwrite(&s[0], self.pt.len(), 1),
            Ope::Details => match deserialize(&s[0]) {
                Out::Ok((h, _)) => {
                    text = hex(&h.nonce);
                    Out::Ok(())
                }
                Out::Err(e) => Out::Err(e),
                Out::Panic(p) => Out::Panic(p),
            },
        };
        (r, text)
    }
    /// The operation reported success: is everything there?
    fn complete(&self, s: &[MonIo; NSTREAM], text: &str) -> Result<(), String> {
        let whole = [self.header.clone(), self.body.clone()].concat();
        let want = |ok: bool, e: &str| if ok { Ok(()) } else { Err(e.to_string()) };
        let opens = |f: &[u8], k: &[u8]| refimpl::decode(None, f, k);
        match self.op {
            Ope::Encrypt => match refimpl::decode(None, &s[1].data(), &self.key) {
                Ok(x) => want(x == self.pt, "the output holds other content"),
                Err(e) => Err(format!("the output is not readable: {e}")),
            },
            Ope::EncryptDetached => match refimpl::decode(Some(&s[2].data()), &s[1].data(), &self.key) {
                Ok(x) => want(x == self.pt, "the output holds other content"),
                Err(e) => Err(format!("the output is not readable: {e}")),
            },
            Ope::Decrypt | Ope::DecryptDetached | Ope::DecryptBlank => want(s[1].data() == self.pt, "the output is not the content"),
            Ope::Hash => want(text == blake3::hash(&self.pt).to_hex().as_str(), "the digest is wrong"),
            Ope::Dump => want(s[1].data() == self.header, "the output is not the header"),
            Ope::Strip => want(s[0].data() == [vec![0; self.header.len()], self.body.clone()].concat(), "the header is not zeroed, or more is"),
            Ope::Restore => want(s[1].data() == whole, "the file is not restored"),
            Ope::Verify | Ope::Details => want(s[0].data() == whole, "the file changed"),
            Ope::Add => {
                let f = s[0].data();
                want(opens(&f, &self.key).as_deref() == Ok(&self.pt), "the old key does not open the file")?;
                want(opens(&f, &self.key2).as_deref() == Ok(&self.pt), "the new key does not open the file")
            }
            Ope::Change => {
                let f = s[0].data();
                want(opens(&f, &self.key).is_err(), "the old key opens the file")?;
                want(opens(&f, &self.key2).as_deref() == Ok(&self.pt), "the new key does not open the file")
            }
            Ope::Delete => want(opens(&s[0].data(), &self.key).is_err(), "the deleted key opens the file"),
            Ope::Overwrite => want(s[0].data() == vec![0; self.pt.len()], "the content is not zeroed"),
        }
    }
}

const ERRS: [ErrorKind; 6] = [
    ErrorKind::Other,
    ErrorKind::Interrupted,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
];

fn c24_fault(o: &mut Obs, st: &Stage, which: usize, f: Fault) {
    let s = st.streams();
    let ks = s[which].clone();
    if f.kind == Some(Kind::Flush) {
        // what is not flushed is lost
        ks.buffered();
        o.count("flush_faults", 1);
    }
    ks.lock().fault = Some(f.clone());
    let (r, text) = st.run(&s);
    let fired = s[which].fired();
    let d = |x: &str| {
        format!(
            "{:?} of {} bytes ({:?}, version {}, memory {}, calls {:?}, streams at {:?}), {} with {f:?}: {x}",
            st.op,
            st.pt.len(),
            st.spec.alg,
            st.spec.ver,
            st.memory,
            st.plan,
            st.starts,
            ["input", "output", "header"][which],
        )
    };
    o.eval(&(st.op, st.pt.len(), st.spec, which, format!("{f:?}"), format!("{:?}", st.plan)), fired > 0);
    if fired > 0 {
        o.count("faults_fired", 1);
        o.count(&format!("fired_{:?}", st.op), 1);
    }
    match &r {
        Out::Panic(p) => {
            // a failing call that is repeated without end is not a silent success; but it is no error either
            o.viol(&format!("panic-{:?}", st.op), d(&format!("panic {p}")));
        }
        Out::Err(_) => {
            if fired == 0 {
                o.viol("fails", d(&r.name()));
            }
            o.count("reported", u64::from(fired > 0));
        }
        Out::Ok(()) => {
            o.count("succeeded_nevertheless", u64::from(fired > 0));
            if let Err(e) = st.complete(&s, &text) {
                o.viol(&format!("silent-{:?}", st.op), d(&format!("success, but {e}")));
            }
        }
    }
}

fn c24_stage(o: &mut Obs, op: Ope, len: usize, cap: usize) {
    let st = Stage::new(&mut o.rng, op, len);
    let s = st.streams();
    let (r, text) = st.run(&s);
    if let (false, _) | (_, Err(_)) = (r.ok(), st.complete(&s, &text)) {
        return o.viol("fails", format!("{op:?} of {len} bytes without any fault: {}", r.name()));
    }
    for which in 0..NSTREAM {
        let kinds = [Kind::Read, Kind::Write, Kind::Seek, Kind::Flush];
        let mut at: Vec<(Kind, u64)> = kinds.iter().flat_map(|k| (0..s[which].kops(*k)).map(move |i| (*k, i))).collect();
        if at.len() > cap {
            // the first, the last, and some of the rest
            let (a, b) = (at[..cap / 4].to_vec(), at[at.len() - cap / 4..].to_vec());
            o.rng.shuffle(&mut at);
            at.truncate(cap / 2);
            at.extend(a);
            at.extend(b);
        }
        for (kind, i) in at {
            let mut err = ErrorKind::Other;
            for _ in 0..2 {
                let sticky = o.rng.chance(1, 3) && err != ErrorKind::Interrupted;
                let (partial, zero) = if kind == Kind::Write { (if o.rng.chance(1, 4) { o.rng.range(1, 40) } else { 0 }, o.rng.chance(1, 4)) } else { (0, false) };
                // a write that stores part of the data is no failure by itself: the next one fails then
                let f = Fault {
                    at: i,
                    kind: Some(kind),
                    err,
                    sticky: sticky && partial == 0,
                    partial,
                    zero,
                };
                c24_fault(o, &st, which, f);
                err = *o.rng.pick(&ERRS);
            }
        }
    }
}

// ---- the same for files, in children ----

use crate::arch;

/// A command on files, and what has to be there if it ends with success.
pub struct FileJob {
    pub name: String,
    pub cmd: Cmd,
    pub setup: Box<dyn Fn(&Scratch) + Send>,
    pub complete: Box<dyn Fn(&Scratch, &trace::Res) -> Result<(), String> + Send>,
}

pub fn jobs(r: &mut Rng) -> Vec<FileJob> {
    let mut v = vec![];
    let key = (0..9).map(|_| r.range(97, 122) as u8).collect::<Vec<u8>>();
    let khex = hex(&key);
    let skey = String::from_utf8(key.clone()).unwrap();
    let len = *r.pick(&[0, 3000, BLOCK + 100]);
    let pt = gen::content(r, len);
    let tree = arch::small_tree(r);
    let alg = gen::alg(r);
    let kdf = gen::kdf(r);
    let (an, kn) = (crate::drive::alg_name(alg), crate::drive::kdf_name(kdf));
    let zip = arch::zip_of(&tree, r.chance(1, 2));
    let packed = refimpl::make(r, 5, alg, false, &[(0, kdf, key.clone())], &zip);
    let plain = refimpl::make(r, 5, alg, false, &[(0, kdf, key.clone())], &pt);
    for det in [false, true] {
        let h = if det { "h" } else { "-" };
        let fetch = move |sc: &Scratch, k: &[u8]| -> Result<Vec<u8>, String> {
            let out = sc.get("out").ok_or("no output")?;
            let hd = if det { Some(sc.get("h").ok_or("no header file")?) } else { None };
            refimpl::decode(hd.as_deref(), &out, k)
        };
        for cli in [false, true] {
            let hd: Vec<&str> = if det { vec!["--header", "h"] } else { vec![] };
            let cl = |a: &[&str]| Cmd::cli(&[a, &hd[..]].concat()).env("VOLARIS_KEY", &skey);
            let tag = |n: &str| format!("{n}{}{}", if cli { " (program)" } else { "" }, if det { ", header apart" } else { "" });
            let (p, k) = (pt.clone(), key.clone());
            v.push(FileJob {
                name: tag("encrypt"),
                cmd: if cli { cl(&["encrypt", "in", "out"]) } else { Cmd::drive(&["encrypt", "in", "out", &an, &kn, &khex, h]) },
                setup: {
                    let p = p.clone();
                    Box::new(move |sc| {
                        sc.put("in", &p);
                    })
                },
                complete: Box::new(move |sc, _| match fetch(sc, &k) {
                    Ok(x) if x == p => Ok(()),
                    Ok(_) => Err("the output holds other content".into()),
                    Err(e) => Err(e),
                }),
            });
            let (p, m) = (pt.clone(), (plain.header.clone(), plain.body.clone()));
            v.push(FileJob {
                name: tag("decrypt"),
                cmd: if cli { cl(&["decrypt", "in", "out"]) } else { Cmd::drive(&["decrypt", "in", "out", &khex, h]) },
                setup: Box::new(move |sc| {
                    if det {
                        sc.put("in", &m.1);
                        sc.put("h", &m.0);
                    } else {
                        sc.put("in", &[&m.0[..], &m.1].concat());
                    }
                }),
                complete: Box::new(move |sc, _| if sc.get("out").as_ref() == Some(&p) { Ok(()) } else { Err("the output is not the content".into()) }),
            });
            let (t, t2, k) = (tree.clone(), tree.clone(), key.clone());
            let z = r.chance(1, 2);
            v.push(FileJob {
                name: tag("pack"),
                cmd: if cli {
                    let mut a = vec!["pack", "dir", "out"];
                    if z {
                        a.push("--zstd");
                    }
                    cl(&a)
                } else {
                    Cmd::drive(&["pack", "out", &an, &kn, &khex, if z { "zstd" } else { "stored" }, h, "dir"])
                },
                setup: Box::new(move |sc| arch::write_tree(&sc.path("dir"), &t)),
                complete: Box::new(move |sc, _| {
                    let z = fetch(sc, &k)?;
                    arch::zip_equals(&z, &t2, "dir")
                }),
            });
            let (m, t) = ((packed.header.clone(), packed.body.clone()), tree.clone());
            v.push(FileJob {
                name: tag("unpack"),
                cmd: if cli { cl(&["unpack", "in", "res"]) } else { Cmd::drive(&["unpack", "in", "res", &khex, h]) },
                setup: Box::new(move |sc| {
                    if det {
                        sc.put("in", &m.1);
                        sc.put("h", &m.0);
                    } else {
                        sc.put("in", &[&m.0[..], &m.1].concat());
                    }
                }),
                complete: Box::new(move |sc, _| arch::tree_equals(&sc.path("res"), &t)),
            });
        }
    }
    // operations that work in place, and hashing
    let (p, want) = (pt.clone(), blake3::hash(&pt).to_hex().to_string());
    for cli in [false, true] {
        let (p, want) = (p.clone(), want.clone());
        v.push(FileJob {
            name: "hash".into(),
            cmd: if cli { Cmd::cli(&["hash", "in"]) } else { Cmd::drive(&["hash", "in"]) },
            setup: Box::new(move |sc| {
                sc.put("in", &p);
            }),
            complete: Box::new(move |_, r| if String::from_utf8_lossy(&r.stdout).contains(&want) { Ok(()) } else { Err("the digest is wrong".into()) }),
        });
    }
    let k2 = [&key[..], b"+"].concat();
    for (op, args) in [
        ("key_add", vec!["key_add", "in", &khex, "HEX2", &kn]),
        ("key_change", vec!["key_change", "in", &khex, "HEX2", &kn]),
        ("key_delete", vec!["key_delete", "in", &khex]),
        ("strip", vec!["strip", "in"]),
        ("dump", vec!["dump", "in", "out"]),
        ("restore", vec!["restore", "h", "in"]),
    ] {
        let args: Vec<String> = args.iter().map(|a| if *a == "HEX2" { hex(&k2) } else { (*a).to_string() }).collect();
        let whole = [&plain.header[..], &plain.body].concat();
        let blank = [vec![0; plain.header.len()], plain.body.clone()].concat();
        let (w2, b2, hd, p, k, k2) = (whole.clone(), blank.clone(), plain.header.clone(), pt.clone(), key.clone(), k2.clone());
        let hd2 = hd.clone();
        v.push(FileJob {
            name: op.into(),
            cmd: Cmd::drive(&args),
            setup: Box::new(move |sc| {
                sc.put("in", if op == "restore" { &blank } else { &whole });
                if op == "restore" {
                    sc.put("h", &hd);
                }
            }),
            complete: Box::new(move |sc, _| {
                let f = sc.get("in").ok_or("the file is gone")?;
                let opens = |k: &[u8]| refimpl::decode(None, &f, k).as_deref() == Ok(&p);
                let ok = match op {
                    "key_add" => opens(&k) && opens(&k2),
                    "key_change" => !opens(&k) && opens(&k2),
                    "key_delete" => !opens(&k),
                    "strip" => f == b2,
                    "dump" => sc.get("out").as_ref() == Some(&hd2) && f == w2,
                    _ => f == w2,
                };
                if ok {
                    Ok(())
                } else {
                    Err("the file is not as it should be".into())
                }
            }),
        });
    }
    let n = pt.len();
    v.push(FileJob {
        name: "erase".into(),
        cmd: Cmd::drive(&["erase", "in", "1"]),
        setup: Box::new(move |sc| {
            sc.put("in", &vec![7; n]);
        }),
        complete: Box::new(move |sc, _| if sc.path("in").exists() { Err("the file is still there".into()) } else { Ok(()) }),
    });
    // directories with nothing in them
    let mut wide = tree.clone();
    for i in 0..r.range(35, 60) {
        wide.insert(format!("w/{i}").into(), trace::Node::Dir);
    }
    let m = refimpl::make(r, 5, alg, false, &[(0, kdf, key.clone())], &arch::zip_of(&wide, false));
    v.push(FileJob {
        name: "unpack, many directories".into(),
        cmd: Cmd::drive(&["unpack", "in", "res", &khex, "-"]),
        setup: Box::new(move |sc| {
            sc.put("in", &[&m.header[..], &m.body].concat());
        }),
        complete: Box::new(move |sc, _| arch::tree_equals(&sc.path("res"), &wide)),
    });
    let t = tree.clone();
    v.push(FileJob {
        name: "erase_dir".into(),
        cmd: Cmd::drive(&["erase_dir", "dir", "1"]),
        setup: Box::new(move |sc| arch::write_tree(&sc.path("dir"), &t)),
        complete: Box::new(move |sc, _| if sc.path("dir").exists() { Err("the directory is still there".into()) } else { Ok(()) }),
    });
    v
}

const ERRNOS: [i32; 6] = [libc::EIO, libc::ENOSPC, libc::EINTR, libc::EACCES, libc::EAGAIN, libc::EMFILE];

fn c24_files(o: &mut Obs, sc: &Scratch, j: &FileJob, per: usize) {
    let prepare = || {
        sc.reset();
        (j.setup)(sc);
        sc.own();
    };
    prepare();
    let r = match j.cmd.clone().traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    if !r.ok() {
        return o.viol("file-fails", format!("{}: {} {}", j.name, j.cmd.text(), r.text()));
    }
    if let Err(e) = (j.complete)(sc, &r) {
        return o.viol("file-fails", format!("{}: {}: success, but {e}", j.name, j.cmd.text()));
    }
    // how often each kind of call was made
    let mut n: BTreeMap<&str, usize> = BTreeMap::new();
    for x in &r.trace {
        if x.inside() {
            use trace::K;
            let k = match x.kind {
                K::Open => "open",
                K::Read => "read",
                K::Write => "write",
                K::Lseek => "lseek",
                K::Trunc => "trunc",
                K::Stat => "stat",
                K::Mkdir => "mkdir",
                K::Unlink => "unlink",
                K::Rmdir => "rmdir",
                K::Opendir => "opendir",
                K::Readdir => "readdir",
                _ => continue,
            };
            *n.entry(k).or_insert(0) += 1;
        }
    }
    let mut cases = vec![];
    for (k, c) in &n {
        for i in 0..*c {
            cases.push((*k, i));
        }
    }
    o.rng.shuffle(&mut cases);
    // every kind of call gets its share
    let mut used: BTreeMap<&str, usize> = BTreeMap::new();
    cases.retain(|(k, _)| {
        let u = used.entry(k).or_insert(0);
        *u += 1;
        *u <= per
    });
    // a disk that is full for one of the files: what it can hold ends somewhere, mostly shortly before its end
    let mut lens: BTreeMap<std::path::PathBuf, i64> = BTreeMap::new();
    for x in r.trace.iter().filter(|x| x.inside() && x.kind == trace::K::Write && x.ret > 0) {
        let l = lens.entry(x.path.clone()).or_insert(0);
        *l = (*l).max(x.a + x.ret);
    }
    let own = sc.path("tmp");
    let mut full: Vec<(String, i64)> = vec![];
    for (p, l) in &lens {
        if *l > 0 {
            // temporary files have another name in each run
            let p = if p.parent() == Some(&own) { format!("{}/", own.to_string_lossy()) } else { p.to_string_lossy().into_owned() };
            for at in [l - 1, l - 1 - o.rng.below((*l).min(30) as usize) as i64, l - 1 - o.rng.below((*l).min(8000) as usize) as i64, o.rng.below(*l as usize) as i64] {
                full.push((p.clone(), at));
            }
        }
    }
    o.rng.shuffle(&mut full);
    full.truncate(4 * per);
    for (p, at) in full {
        if !o.time_left() {
            return;
        }
        prepare();
        let c = j.cmd.clone().traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").env("VT_FULL", format!("{p}:{at}"));
        let r = match c.run(sc) {
            Ok(r) => r,
            Err(e) => return o.inconclusive(e),
        };
        let hit = r.trace.iter().any(trace::Rec::injected);
        o.eval(&(&j.name, "full", &p, at), hit);
        o.count("program_runs", 1);
        let d = |s: &str| format!("{}: {}: no room in {p} beyond {at} bytes -> {s}; {}", j.name, c.text(), r.text());
        if hit {
            o.count("full_disks", 1);
            if p.ends_with('/') {
                o.count("full_temporary_disks", 1);
            }
        }
        if r.crashed() {
            o.viol("file-panic", d("crashed"));
        } else if r.ok() {
            if let Err(e) = (j.complete)(sc, &r) {
                o.viol("file-silent", d(&format!("success, but {e}")));
            }
        } else if !hit {
            o.viol("file-fails", d("fails"));
        }
    }
    for (k, i) in cases {
        if !o.time_left() {
            return;
        }
        let errno = *o.rng.pick(&ERRNOS);
        let sticky = o.rng.chance(1, 4) && errno != libc::EINTR;
        prepare();
        let c = j.cmd.clone().traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").env("VT_FAULT", format!("{k}:{i}:{errno}{}", if sticky { ":s" } else { "" }));
        let r = match c.run(sc) {
            Ok(r) => r,
            Err(e) => return o.inconclusive(e),
        };
        let hit = r.trace.iter().find(|x| x.injected());
        o.eval(&(&j.name, k, i, errno, sticky), hit.is_some());
        o.count("program_runs", 1);
        let d = |s: &str| format!("{}: {}: {} -> {s}; {}", j.name, c.text(), hit.map_or("no fault".into(), trace::Rec::brief), r.text());
        if hit.is_some() {
            o.count("file_faults_fired", 1);
            o.count(&format!("file_fault_{k}"), 1);
        }
        if r.crashed() {
            o.viol("file-panic", d("crashed"));
        } else if r.ok() {
            if let Err(e) = (j.complete)(sc, &r) {
                o.viol("file-silent", d(&format!("success, but {e}")));
            }
        } else if hit.is_none() {
            o.viol("file-fails", d("fails"));
        }
    }
}

pub fn c24(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "Each case runs one operation with one read, write, seek, flush or file system call failing at a chosen place; an operation that reports \
        success is judged by an independent decoder or comparison; non-trivial: distinct cases in which the fault was really hit."
        .into();
    ctx.min_evals = 2000;
    ctx.need("faults_fired", 2000);
    ctx.need("file_faults_fired", 200);
    ctx.need("full_disks", 60);
    ctx.par(1, ctx.pick(7, 250), |o| {
        let mut i = 0;
        for op in OPES {
            for len in [0, 40, 3000, BLOCK, BLOCK + 40] {
                i += 1;
                if o.mine(i) {
                    o.sample(|| format!("{op:?} of {len} bytes, every call of every stream failing in turn"));
                    c24_stage(o, op, len, if len < 5000 { 60 } else { 16 });
                }
            }
        }
        while o.time_left() {
            let op = *o.rng.pick(&OPES);
            let len = gen::length(&mut o.rng, 1);
            c24_stage(o, op, len, 16);
        }
    });
    ctx.par(2, ctx.pick(8, 250), |o| {
        let sc = Scratch::new();
        let mut round = 0;
        while o.time_left() {
            let js = jobs(&mut o.rng);
            for (i, j) in js.iter().enumerate() {
                let many = j.name.contains("many");
                if o.time_left() && (round > 0 || many || i % o.workers == o.worker) {
                    c24_files(o, &sc, j, if many { 8 } else if round == 0 { 5 } else { 4 });
                }
            }
            round += 1;
        }
    });
}
