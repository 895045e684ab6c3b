//! C14 and C15: freshness and distribution of random values.
use crate::gen;
use crate::monio::MonIo;
use crate::ops::*;
use crate::refimpl::RefHeader;
use crate::trace::{Cmd, Scratch};
use crate::util::*;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

/// How many standard deviations a chi-square statistic is from its mean (Wilson-Hilferty).
fn chi_z(stat: f64, dof: f64) -> f64 {
    let c = 2.0 / (9.0 * dof);
    ((stat / dof).cbrt() - (1.0 - c)) / c.sqrt()
}
fn chi(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let s: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    chi_z(s, counts.len() as f64 - 1.0)
}
/// beyond this many standard deviations chance is no explanation (less than 1 in 10^14)
const LIMIT: f64 = 8.0;

// ------------------------------------------------------------------------------------ C14

#[derive(Default)]
struct Field {
    seen: HashMap<Vec<u8>, String>,
    /// per byte position: counts of each value
    bytes: Vec<Vec<u64>>,
    n: u64,
}

/// Whether some bits are always a sum (exclusive or) of others, or a constant: the rank of all values seen.
#[derive(Default)]
struct Rank {
    /// by highest set bit
    basis: HashMap<usize, Vec<u64>>,
    bits: usize,
    n: usize,
}

impl Rank {
    fn add(&mut self, v: &[u8]) {
        self.n += 1;
        if self.bits == 0 {
            self.bits = 8 * v.len();
        }
        if self.bits != 8 * v.len() || self.basis.len() > self.bits {
            return;
        }
        // the bit above all others is always set, so that constants show too
        let mut w = vec![0u64; self.bits / 64 + 1];
        for (i, b) in v.iter().enumerate() {
            w[i / 8] |= u64::from(*b) << (i % 8 * 8);
        }
        w[self.bits / 64] |= 1 << (self.bits % 64);
        loop {
            let Some(i) = (0..w.len()).rev().find(|i| w[*i] != 0) else { return };
            let top = i * 64 + 63 - w[i].leading_zeros() as usize;
            match self.basis.get(&top) {
                Some(b) => w.iter_mut().zip(b).for_each(|(x, y)| *x ^= y),
                None => {
                    self.basis.insert(top, w);
                    return;
                }
            }
        }
    }
    /// with 64 values more than bits, chance is no explanation for a rank that is not full
    fn judge(&self, o: &mut Obs, name: &str) {
        if self.n < self.bits + 65 {
            return;
        }
        o.count("ranks_judged", 1);
        if self.basis.len() != self.bits + 1 {
            o.viol(
                "dependent-bits",
                format!("{name}: {} of {} bits are always determined by others, in {} draws", self.bits + 1 - self.basis.len(), self.bits, self.n),
            );
        }
    }
}

#[derive(Default)]
struct Pool {
    ranks: HashMap<String, Rank>,
    fields: HashMap<String, Field>,
    windows: HashMap<u64, u32>,
    repeats: Vec<String>,
    next: u32,
}

impl Pool {
    /// A value that must be fresh. `class`: values of one kind, for the statistics.
    fn add(&mut self, class: &str, v: &[u8], from: &str) {
        let f = self.fields.entry(class.to_string()).or_default();
        f.n += 1;
        if f.bytes.is_empty() {
            f.bytes = vec![vec![0; 256]; v.len()];
        }
        if f.bytes.len() != v.len() {
            self.repeats.push(format!("{class} has {} bytes, elsewhere {}", v.len(), f.bytes.len()));
            return;
        }
        for (i, b) in v.iter().enumerate() {
            f.bytes[i][*b as usize] += 1;
        }
        if let Some(old) = f.seen.insert(v.to_vec(), from.to_string()) {
            self.repeats.push(format!("{class} {} repeats: {old} / {from}", hex(v)));
        }
        // no piece of 8 bytes may occur in two values, or twice in one
        let origin = from.split(' ').next().unwrap_or("");
        self.ranks.entry(format!("{class}, {origin}")).or_default().add(v);
        self.next += 1;
        for w in v.windows(8) {
            let k = u64::from_le_bytes(w.try_into().unwrap());
            if let Some(o) = self.windows.insert(k, self.next) {
                self.repeats.push(format!("8 bytes {} of a {class} ({from}) occur elsewhere (value {o})", hex(w)));
            }
        }
    }
    fn judge(&self, o: &mut Obs) {
        for (i, r) in self.repeats.iter().enumerate() {
            if i < 5 {
                o.viol("repeat", r.clone());
            }
        }
        for (name, r) in &self.ranks {
            r.judge(o, name);
        }
        let mut names: Vec<_> = self.fields.keys().collect();
        names.sort();
        for name in names {
            let f = &self.fields[name];
            o.count(&format!("values_{}", name.replace(' ', "_")), f.n);
            if f.n < 200 {
                continue;
            }
            let mut all = vec![0u64; 256];
            for (pos, c) in f.bytes.iter().enumerate() {
                for (a, b) in all.iter_mut().zip(c) {
                    *a += b;
                }
                // fixed or missing values
                let distinct = c.iter().filter(|x| **x > 0).count();
                let expected_missing = 256.0 * (1.0 - 1.0 / 256.0f64).powf(f.n as f64);
                if (256 - distinct) as f64 > expected_missing + 8.0 * expected_missing.sqrt() + 8.0 {
                    o.viol("fixed-bytes", format!("byte {pos} of the {name} takes only {distinct} values in {} draws", f.n));
                }
                for bit in 0..8 {
                    let ones: u64 = (0..256).filter(|v| v >> bit & 1 == 1).map(|v| c[v]).sum();
                    let z = (ones as f64 - f.n as f64 / 2.0) / (f.n as f64 / 4.0).sqrt();
                    if z.abs() > LIMIT {
                        o.viol("biased-bit", format!("bit {bit} of byte {pos} of the {name} is one in {ones} of {} draws", f.n));
                    }
                }
                o.count("bit_positions_tested", 8);
                if f.n >= 2560 && chi(c) > LIMIT {
                    o.viol("biased-byte", format!("byte {pos} of the {name}: chi-square {:.1} deviations", chi(c)));
                }
            }
            if chi(&all) > LIMIT {
                o.viol("biased-byte", format!("bytes of the {name}: chi-square {:.1} deviations", chi(&all)));
            }
        }
    }
}

fn collect_file(p: &mut Pool, alg: Alg, file: &[u8], passwords: &[&[u8]], from: &str) -> Result<RefHeader, String> {
    let (h, _) = RefHeader::parse(file)?;
    p.add(&format!("body nonce of {alg:?}"), &h.nonce, from);
    if h.ver == 4 {
        p.add("salt", &h.salt, from);
    }
    for (i, s) in h.slots.iter().enumerate() {
        if let Some(s) = s {
            if h.ver == 5 {
                p.add("salt", &s.salt, &format!("{from} keyslot {i}"));
            }
            p.add(&format!("keyslot nonce of {alg:?}"), &s.nonce, &format!("{from} keyslot {i}"));
        }
    }
    let k = passwords.iter().find_map(|p| h.body_key(p)).ok_or("no key opens the file")?;
    p.add("master key", &k, from);
    if let Some(s) = h.slots.iter().flatten().next() {
        p.ranks.entry(format!("nonces, salt and master key of a file of {alg:?}")).or_default().add(&[&h.nonce[..], &s.salt, &s.nonce, &k].concat());
    }
    Ok(h)
}

fn added_slot(p: &mut Pool, alg: Alg, before: &RefHeader, after: &[u8], from: &str) -> Result<RefHeader, String> {
    let (h, _) = RefHeader::parse(after)?;
    let old: Vec<_> = before.slots.iter().flatten().collect();
    let new: Vec<_> = h.slots.iter().flatten().filter(|s| !old.contains(s)).collect();
    if new.len() != 1 {
        return Err(format!("{} new keyslots", new.len()));
    }
    if let Some(s) = old.first() {
        let all = [&h.nonce[..], &s.salt, &s.nonce, &new[0].salt, &new[0].nonce].concat();
        p.ranks.entry(format!("nonces and salts of a file of {alg:?} and of a keyslot added to it")).or_default().add(&all);
    }
    p.add("salt", &new[0].salt, from);
    p.add(&format!("keyslot nonce of {alg:?}"), &new[0].nonce, from);
    Ok(h)
}

fn c14_file(o: &mut Obs, pool: &Mutex<Pool>, alg: Alg, ver: u8, key: &[u8], pt: &[u8], from: &str) {
    let mut spec = Spec::new(alg, if ver == 4 { Kdf::Balloon(4) } else { gen::kdf(&mut o.rng) });
    spec.ver = ver;
    spec.detached = o.rng.chance(1, 4);
    let e = match encrypt(spec, key, pt) {
        Out::Ok(e) => e,
        x => return o.viol("encrypt", x.name()),
    };
    let file = e.whole();
    let kdf = spec.kdf;
    let mut bad = None;
    let mut h = match collect_file(&mut pool.lock().unwrap(), alg, &file, &[key], from) {
        Ok(h) => h,
        Err(e) => return o.viol("unreadable", e),
    };
    o.count("files", 1);
    o.eval(&(alg, ver, hash_of(&file)), true);
    if ver == 5 {
        let mut data = file;
        for i in 0..o.rng.below(4) {
            let f = MonIo::new(data.clone());
            // the same password again: nothing may be derived from it
            let add = o.rng.chance(1, 2);
            let r = if add { key_add(&f, key, key, kdf) } else { key_change(&f, key, key, kdf) };
            if !r.ok() {
                bad = Some(r.name());
                break;
            }
            o.count("key_operations", 1);
            match added_slot(&mut pool.lock().unwrap(), alg, &h, &f.data(), &format!("{from}, key operation {i}")) {
                Ok(x) => h = x,
                Err(e) => {
                    bad = Some(format!("{} with the same password: {e}", if add { "addition" } else { "change" }));
                    break;
                }
            }
            data = f.data();
        }
    }
    if let Some(b) = bad {
        o.viol("key-operation", b);
    }
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "Files are encrypted and keys added and changed with few distinct passwords and contents, in long-lived threads, many short-lived threads, and separate \
        processes; an independent parser extracts every nonce, salt and master key. No value, and no 8 bytes of any value, may occur twice; every bit and byte \
        position is tested for bias and fixed values, and no bit may be a sum of others, within a value or among the values of a file. non-trivial: distinct files."
        .into();
    ctx.assumptions = vec!["values are judged by their statistics; a generator with predictable output that passes them would not be noticed".into()];
    ctx.min_evals = 1500;
    ctx.need("files", 1500);
    ctx.need("key_operations", 700);
    ctx.need("child_files", 60);
    ctx.need("values_master_key", 1500);
    ctx.need("long_series_values", 3_000_000);
    ctx.need("ranks_judged", 8);
    let pool = Mutex::new(Pool::default());
    let cap = ctx.pick(4000u64, 40_000);
    ctx.par(14, ctx.pick(8, 200), |o| {
        let w = o.worker;
        for i in 0..cap {
            if !o.time_left() {
                break;
            }
            let alg = ALGS[(i % 3) as usize];
            let ver = if i % 7 == 3 { 4 } else { 5 };
            c14_file(o, &pool, alg, ver, b"the same password", b"the same content", &format!("worker {w} file {i}"));
        }
        o.sample(|| format!("worker {w}: files of all algorithms with one password, keys added and changed"));
    });
    // short-lived threads
    let rounds = ctx.pick(20, 200);
    ctx.single(15, 60, |o| {
        for round in 0..rounds {
            let parts: Vec<Obs> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..16)
                    .map(|t| {
                        let mut x = Obs {
                            rng: o.rng.fork(),
                            counts: Default::default(),
                            distinct: HashSet::new(),
                            samples: vec![],
                            viols: vec![],
                            incon: vec![],
                            evals: 0,
                            ..*o
                        };
                        let pool = &pool;
                        s.spawn(move || {
                            c14_file(&mut x, pool, ALGS[t % 3], 5, b"thread", b"x", &format!("round {round} thread {t}"));
                            x
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for p in parts {
                o.evals += p.evals;
                o.distinct.extend(p.distinct);
                o.viols.extend(p.viols);
                for (k, v) in p.counts {
                    o.count(&k, v);
                }
            }
            o.count("short_lived_threads", 16);
        }
    });
    // processes
    let n = ctx.pick(12, 60);
    ctx.par(16, 120, |o| {
        let sc = Scratch::new();
        let input = sc.put("in", b"the same content");
        sc.own();
        for i in 0..n {
            let out = sc.path(&format!("out{i}"));
            let alg = ALGS[i % 3];
            let a = [
                "encrypt".into(),
                input.display().to_string(),
                out.display().to_string(),
                crate::drive::alg_name(alg),
                "b5".into(),
                hex(b"child"),
                "-".into(),
            ];
            match Cmd::drive(&a).run(&sc) {
                Ok(r) if r.ok() => {
                    let file = std::fs::read(&out).unwrap_or_default();
                    match collect_file(&mut pool.lock().unwrap(), alg, &file, &[b"child"], &format!("process {}/{i}", o.worker)) {
                        Ok(_) => o.count("child_files", 1),
                        Err(e) => o.viol("unreadable", e),
                    }
                }
                Ok(r) => o.viol("encrypt", r.text()),
                Err(e) => o.inconclusive(e),
            }
        }
    });
    // long series: no value twice, in one thread or among threads
    let draws = ctx.pick(60_000usize, 400_000);
    let all: Mutex<std::collections::HashMap<&'static str, HashSet<u128>>> = Mutex::default();
    ctx.par(18, 60, |o| {
        use corecrypto::primitives::{gen_master_key, gen_nonce, gen_salt, Mode};
        let id = |b: &[u8]| {
            let mut x = [0; 16];
            let n = b.len().min(16);
            x[..n].copy_from_slice(&b[..n]);
            u128::from_le_bytes(x)
        };
        for (name, f) in [
            ("salt", &(|| id(&gen_salt())) as &dyn Fn() -> u128),
            ("master key", &|| id(gen_master_key().expose())),
            ("XChaCha20-Poly1305 stream nonce", &|| id(&gen_nonce(&Alg::X.real(), &Mode::StreamMode))),
            ("XChaCha20-Poly1305 nonce", &|| id(&gen_nonce(&Alg::X.real(), &Mode::MemoryMode))),
            ("AES-256-GCM stream nonce", &|| id(&gen_nonce(&Alg::A.real(), &Mode::StreamMode))),
            ("AES-256-GCM nonce", &|| id(&gen_nonce(&Alg::A.real(), &Mode::MemoryMode))),
            ("Deoxys-II-256 stream nonce", &|| id(&gen_nonce(&Alg::D.real(), &Mode::StreamMode))),
            ("Deoxys-II-256 nonce", &|| id(&gen_nonce(&Alg::D.real(), &Mode::MemoryMode))),
        ] {
            let v: Vec<u128> = (0..draws).map(|_| f()).collect();
            let mut all = all.lock().unwrap();
            let seen = all.entry(name).or_default();
            for (i, x) in v.into_iter().enumerate() {
                if !seen.insert(x) {
                    o.viol("repeated", format!("{name}: value {i} of thread {} has been handed out before", o.worker));
                    break;
                }
            }
            o.count("long_series_values", draws as u64);
        }
    });
    // the generators themselves, in bulk
    let bulk = ctx.pick(4000, 40_000);
    ctx.single(17, 60, |o| {
        let mut p = pool.lock().unwrap();
        for i in 0..bulk {
            p.add("salt", &corecrypto::primitives::gen_salt(), &format!("bulk {i}"));
            p.add("master key", corecrypto::primitives::gen_master_key().expose(), &format!("bulk {i}"));
            for alg in ALGS {
                for (m, n) in [(corecrypto::primitives::Mode::StreamMode, "body nonce"), (corecrypto::primitives::Mode::MemoryMode, "keyslot nonce")] {
                    p.add(&format!("{n} of {alg:?}"), &corecrypto::primitives::gen_nonce(&alg.real(), &m), &format!("bulk {i}"));
                }
            }
        }
        o.count("bulk_values", 8 * bulk);
        p.judge(o);
        o.count("windows_compared", p.windows.len() as u64);
    });
}

// ------------------------------------------------------------------------------------ C15

struct Words {
    index: HashMap<&'static str, usize>,
    n: usize,
}

fn words() -> Words {
    let index: HashMap<_, _> = include_str!("words.txt").lines().enumerate().map(|(i, w)| (w, i)).collect();
    let n = index.len();
    Words { index, n }
}

const B: usize = 61;

struct Stats {
    per_word: Vec<u64>,
    first: Vec<u64>,
    last: Vec<u64>,
    lag1: Vec<u64>,
    lag2: Vec<u64>,
    /// first words of successive passphrases
    next: Vec<u64>,
    adjacent_equal: u64,
    adjacent: u64,
    seen: HashSet<[u16; 8]>,
    dup: Option<String>,
}
impl Stats {
    fn new(n: usize) -> Stats {
        Stats {
            per_word: vec![0; n],
            first: vec![0; n],
            last: vec![0; n],
            lag1: vec![0; B * B],
            lag2: vec![0; B * B],
            next: vec![0; B * B],
            adjacent_equal: 0,
            adjacent: 0,
            seen: HashSet::new(),
            dup: None,
        }
    }
    fn add(&mut self, w: &[usize], prev_first: &mut Option<usize>) {
        for (i, x) in w.iter().enumerate() {
            self.per_word[*x] += 1;
            if i > 0 {
                self.lag1[(w[i - 1] % B) * B + x % B] += 1;
                self.adjacent += 1;
                self.adjacent_equal += u64::from(w[i - 1] == *x);
            }
            if i > 1 {
                self.lag2[(w[i - 2] % B) * B + x % B] += 1;
            }
        }
        if let (Some(f), Some(l)) = (w.first(), w.last()) {
            self.first[*f] += 1;
            self.last[*l] += 1;
            if let Some(p) = prev_first {
                self.next[(*p % B) * B + f % B] += 1;
            }
            *prev_first = Some(*f);
        }
        if w.len() >= 8 {
            let mut k = [0u16; 8];
            for (a, b) in k.iter_mut().zip(w) {
                *a = *b as u16;
            }
            if !self.seen.insert(k) {
                self.dup = Some(format!("{w:?}"));
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        let z = |a: &mut Vec<u64>, b: Vec<u64>| a.iter_mut().zip(b).for_each(|(x, y)| *x += y);
        z(&mut self.per_word, o.per_word);
        z(&mut self.first, o.first);
        z(&mut self.last, o.last);
        z(&mut self.lag1, o.lag1);
        z(&mut self.lag2, o.lag2);
        z(&mut self.next, o.next);
        self.adjacent += o.adjacent;
        self.adjacent_equal += o.adjacent_equal;
        for k in o.seen {
            if !self.seen.insert(k) {
                self.dup = Some(format!("{k:?}"));
            }
        }
        self.dup = self.dup.take().or(o.dup);
    }
}

fn parse_phrase(ws: &Words, p: &str, n: i32) -> Result<Vec<usize>, String> {
    if n <= 0 {
        return if p.is_empty() { Ok(vec![]) } else { Err(format!("{n} words asked, got {p:?}")) };
    }
    let v: Vec<&str> = p.split('-').collect();
    if v.len() != n as usize {
        return Err(format!("{n} words asked, got {}: {:?}", v.len(), p.chars().take(200).collect::<String>()));
    }
    v.iter().map(|w| ws.index.get(w).copied().ok_or_else(|| format!("{w:?} is not in the word list"))).collect()
}

/// The pair tables are not uniform: the buckets differ in size.
fn pair_z(c: &[u64], n: usize) -> f64 {
    let total: u64 = c.iter().sum();
    let size: Vec<f64> = (0..B).map(|b| ((n - b - 1) / B + 1) as f64 / n as f64).collect();
    let mut s = 0.0;
    for a in 0..B {
        for b in 0..B {
            let e = total as f64 * size[a] * size[b];
            s += (c[a * B + b] as f64 - e).powi(2) / e;
        }
    }
    chi_z(s, (B * B - 1) as f64)
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "Passphrases of 0 to 60 words and some of thousands are generated in parallel threads, separate threads and processes; each is split and looked up in an \
        independent copy of the word list; word counts, first and last positions, neighbouring words and successive passphrases are tested against the uniform \
        distribution. non-trivial: distinct passphrases of at least 8 words."
        .into();
    ctx.assumptions = vec!["a bias that does not show in some millions of draws is not noticed".into()];
    ctx.min_evals = 20_000;
    ctx.need("words_drawn", 800_000);
    ctx.need("child_phrases", 20);
    let ws = words();
    let total = Mutex::new(Stats::new(ws.n));
    ctx.par(15, ctx.pick(9, 200), |o| {
        let mut st = Stats::new(ws.n);
        let mut prev = None;
        let mut one = |o: &mut Obs, n: i32, prev: &mut Option<usize>| {
            let p = guard(|| Ok::<_, ()>(corecrypto::key::generate_passphrase(&n).expose().clone()));
            o.evals += 1;
            match p {
                Out::Ok(p) => match parse_phrase(&ws, &p, n) {
                    Ok(w) => {
                        o.count("words_drawn", w.len() as u64);
                        st.add(&w, prev);
                        if o.samples.len() < 2 && n > 2 {
                            o.samples.push(format!("{n} words: {}", p.chars().take(80).collect::<String>()));
                        }
                    }
                    Err(e) => o.viol("malformed", e),
                },
                x => o.viol("crash", format!("{n} words: {}", x.name_only())),
            }
        };
        for n in [-5, -1, 0, 1, 2, 3, i32::MIN, 5000] {
            one(o, n, &mut None);
        }
        for n in 0..=60 {
            one(o, n, &mut prev);
        }
        while o.time_left() {
            let n = if o.rng.chance(1, 300) { o.rng.range(61, 3000) } else { o.rng.range(1, 24) } as i32;
            one(o, n, &mut prev);
        }
        total.lock().unwrap().merge(st);
    });
    ctx.par(18, 60, |o| {
        // fresh threads and fresh processes
        let mut st = Stats::new(ws.n);
        for _ in 0..200 {
            let r = std::thread::spawn(|| guard(|| Ok::<_, ()>(corecrypto::key::generate_passphrase(&8).expose().clone()))).join();
            o.count("thread_phrases", 1);
            match r {
                Ok(Out::Ok(p)) => match parse_phrase(&ws, &p, 8) {
                    Ok(w) => st.add(&w, &mut None),
                    Err(e) => o.viol("malformed", e),
                },
                _ => o.viol("crash", "in a new thread"),
            }
        }
        let sc = Scratch::new();
        for _ in 0..5 {
            match Cmd::drive(&["passphrase", "8", "3"]).run(&sc) {
                Ok(r) if r.ok() => {
                    for l in String::from_utf8_lossy(&r.stdout).lines() {
                        o.count("child_phrases", 1);
                        match parse_phrase(&ws, l, 8) {
                            Ok(w) => st.add(&w, &mut None),
                            Err(e) => o.viol("malformed", e),
                        }
                    }
                }
                Ok(r) => o.viol("crash", r.text()),
                Err(e) => o.inconclusive(e),
            }
        }
        total.lock().unwrap().merge(st);
    });
    let st = total.into_inner().unwrap();
    ctx.single(19, 60, |o| {
        o.evals = 0;
        for k in &st.seen {
            o.distinct.insert(hash_of(k));
        }
        if let Some(d) = &st.dup {
            o.viol("repeated-phrase", format!("the first 8 words {d} occurred twice"));
        }
        for (name, c) in [("all positions", &st.per_word), ("first position", &st.first), ("last position", &st.last)] {
            let total: u64 = c.iter().sum();
            let e = total as f64 / ws.n as f64;
            if e < 15.0 {
                continue;
            }
            let z = chi(c);
            o.count("distribution_tests", 1);
            if z > LIMIT {
                o.viol("not-uniform", format!("{name}: chi-square {z:.1} deviations over {total} draws"));
            }
            for (i, n) in c.iter().enumerate() {
                let z = (*n as f64 - e) / e.sqrt();
                // (Poisson tails are wider than normal ones for small means)
                if z.abs() > 10.0 || (*n == 0 && e > 40.0) {
                    o.viol("not-uniform", format!("{name}: word {i} of {} was drawn {n} times, {e:.0} expected", ws.n));
                }
            }
        }
        for (name, c) in [("neighbouring words", &st.lag1), ("words at distance 2", &st.lag2), ("first words of successive passphrases", &st.next)] {
            if c.iter().sum::<u64>() < 15 * (B * B) as u64 {
                continue;
            }
            let z = pair_z(c, ws.n);
            o.count("distribution_tests", 1);
            if z > LIMIT {
                o.viol("not-independent", format!("{name}: chi-square {z:.1} deviations"));
            }
        }
        let e = st.adjacent as f64 / ws.n as f64;
        let z = (st.adjacent_equal as f64 - e) / e.sqrt();
        if e > 30.0 && z.abs() > LIMIT {
            o.viol("not-independent", format!("equal neighbours: {} instead of {e:.0}", st.adjacent_equal));
        }
    });
}
