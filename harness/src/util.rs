//! Shared machinery: seeded randomness, verdicts, evidence, parallel workers.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// xoshiro256** seeded through splitmix64; every random choice of a check comes from here.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
        let mut s = [0u64; 4];
        for v in &mut s {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *v = z ^ (z >> 31);
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let r = self.u64().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

/// Hex of the first bytes, with the length.
pub fn brief(b: &[u8]) -> String {
    if b.len() <= 24 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..24]), b.len())
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() || hay.len() < needle.len() {
        return None;
    }
    let first = needle[0];
    let mut i = 0;
    let end = hay.len() - needle.len();
    while i <= end {
        match hay[i..=end].iter().position(|&b| b == first) {
            None => return None,
            Some(p) => {
                i += p;
                if &hay[i..i + needle.len()] == needle {
                    return Some(i);
                }
                i += 1;
            }
        }
    }
    None
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
}

/// What one worker observed; merged into the check's context at the end.
pub struct Obs {
    pub rng: Rng,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub deadline: Instant,
    pub worker: usize,
    pub workers: usize,
    pub incon: Vec<String>,
}

impl Obs {
    /// One case was executed and judged. `key` identifies it; trivial cases do not count as distinct.
    pub fn eval<T: Hash>(&mut self, key: &T, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash_of(key));
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counts.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.counts.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn viol(&mut self, sig: &str, detail: impl Into<String>) {
        if self.viols.len() < 200 && self.viols.iter().filter(|v| v.sig == sig).count() < 3 {
            self.viols.push(Viol {
                sig: sig.to_string(),
                detail: detail.into(),
            });
        }
    }
    pub fn inconclusive(&mut self, why: impl Into<String>) {
        if self.incon.len() < 20 {
            self.incon.push(why.into());
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.viol(sig, detail());
        }
        ok
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline && self.viols.len() < 20
    }
    /// Splits a list of systematic cases among the workers.
    pub fn mine(&self, i: usize) -> bool {
        i % self.workers == self.worker
    }
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub incon: Vec<String>,
    pub rule: String,
    pub level: &'static str,
    pub assumptions: Vec<String>,
    pub min_evals: u64,
    pub needs: Vec<(String, u64)>,
    pub exhaustive: bool,
    pub round: u64,
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

impl Ctx {
    pub fn new(id: &str) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        Ctx {
            id: id.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            evals: 0,
            distinct: HashSet::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            incon: vec![],
            rule: String::new(),
            level: "exploration",
            assumptions: vec![],
            min_evals: 1,
            needs: vec![],
            exhaustive: false,
            round: 0,
        }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// The run is inconclusive unless this counter reached this value.
    pub fn need(&mut self, counter: &str, at_least: u64) {
        self.needs.push((counter.to_string(), at_least));
    }
    pub fn obs(&self, secs: u64, salt: u64) -> Obs {
        Obs {
            rng: Rng::new(self.seed.wrapping_mul(0x1_0000_01B3) ^ hash_of(&(self.id.as_str(), salt)) ^ (self.round << 40)),
            thorough: self.thorough,
            evals: 0,
            distinct: HashSet::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            deadline: Instant::now() + Duration::from_secs(secs),
            worker: 0,
            workers: 1,
            incon: vec![],
        }
    }
    pub fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counts {
            if k.starts_with("max_") {
                let e = self.counts.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counts.entry(k).or_insert(0) += v;
            }
        }
        let room = 8usize.saturating_sub(self.samples.len());
        self.samples.extend(o.samples.into_iter().take(room.min(3)));
        self.viols.extend(o.viols);
        self.incon.extend(o.incon);
    }
    /// Runs `f` in parallel workers until each returns. `secs` is the time cap of the workload.
    pub fn par(&mut self, salt: u64, secs: u64, f: impl Fn(&mut Obs) + Sync) {
        self.par_n(8, salt, secs, f);
    }
    pub fn par_n(&mut self, n: usize, salt: u64, secs: u64, f: impl Fn(&mut Obs) + Sync) {
        let out = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for w in 0..n {
                let mut o = self.obs(secs, salt * 1000 + w as u64);
                o.worker = w;
                o.workers = n;
                let (f, out) = (&f, &out);
                std::thread::Builder::new()
                    .name(format!("worker{w}"))
                    .spawn_scoped(s, move || {
                        restrict_cpus(w);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut o)));
                        if let Err(e) = r {
                            o.incon.push(format!("harness panic: {}", crate::ops::panic_text(&*e)));
                        }
                        out.lock().unwrap().push((w, o));
                    })
                    .unwrap();
            }
        });
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|(w, _)| *w);
        for (_, o) in v {
            self.merge(o);
        }
    }
    pub fn single(&mut self, salt: u64, secs: u64, f: impl FnOnce(&mut Obs)) {
        let mut o = self.obs(secs, salt * 1000);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut o)));
        if let Err(e) = r {
            o.incon.push(format!("harness panic: {}", crate::ops::panic_text(&*e)));
        }
        self.merge(o);
    }

    /// On a machine that is slow or busy the time of one run may not be enough to observe what the verdict needs: run again then.
    pub fn again(&mut self) -> bool {
        let lacks = self.evals < self.min_evals || self.needs.iter().any(|(k, n)| self.counts.get(k).copied().unwrap_or(0) < *n);
        let spent = self.start.elapsed() / (self.round as u32 + 1);
        if !lacks || !self.viols.is_empty() || !self.incon.is_empty() || self.round >= 6 || (self.start.elapsed() + spent).as_secs() > self.pick(400, 3000) {
            return false;
        }
        self.round += 1;
        self.needs.clear();
        true
    }

    fn known(&self) -> Vec<(String, String)> {
        // known: property=<id> sig=<signature> <what fails>
        let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
        text.lines()
            .filter_map(|l| l.strip_prefix("known: "))
            .filter_map(|l| {
                let mut it = l.splitn(3, ' ');
                let p = it.next()?.strip_prefix("property=")?;
                let s = it.next()?.strip_prefix("sig=")?;
                (p == self.id).then(|| (s.to_string(), it.next().unwrap_or("").to_string()))
            })
            .collect()
    }

    pub fn finish(mut self) -> i32 {
        let known = self.known();
        let mut new = vec![];
        let mut seen_known = HashSet::new();
        for v in std::mem::take(&mut self.viols) {
            if let Some((s, t)) = known.iter().find(|(s, _)| *s == v.sig) {
                if seen_known.insert(s.clone()) {
                    println!("KNOWN-FINDING: property={} {}", self.id, t);
                }
            } else {
                new.push(v);
            }
        }
        let evdir = root().join("evidence");
        let _ = std::fs::create_dir_all(&evdir);
        for (k, n) in &self.needs {
            let got = self.counts.get(k).copied().unwrap_or(0);
            if got < *n {
                self.incon.push(format!("observed only {got} of `{k}`, {n} needed"));
            }
        }
        if self.evals < self.min_evals {
            self.incon.push(format!("only {} cases were run", self.evals));
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"observed\": {{",
            json_str(&self.id),
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            self.level,
            self.evals,
            self.distinct.len(),
            json_str(&self.rule),
            self.exhaustive
        );
        for (i, (k, v)) in self.counts.iter().enumerate() {
            let _ = write!(j, "{}\n   {}: {v}", if i > 0 { "," } else { "" }, json_str(k));
        }
        j.push_str("\n  },\n  \"samples\": [");
        for (i, s) in self.samples.iter().enumerate() {
            let _ = write!(j, "{}\n   {}", if i > 0 { "," } else { "" }, json_str(s));
        }
        j.push_str("\n  ]\n },\n \"assumptions\": [");
        for (i, s) in self.assumptions.iter().enumerate() {
            let _ = write!(j, "{}\n  {}", if i > 0 { "," } else { "" }, json_str(s));
        }
        let _ = write!(
            j,
            "\n ],\n \"wall_s\": {wall:.3},\n \"violations\": {},\n \"inconclusive\": [",
            new.len()
        );
        for (i, s) in self.incon.iter().take(20).enumerate() {
            let _ = write!(j, "{}\n  {}", if i > 0 { "," } else { "" }, json_str(s));
        }
        j.push_str("\n ]\n}\n");
        let evf = evdir.join(format!("{}.json", self.id));
        if let Err(e) = std::fs::write(&evf, j) {
            eprintln!("cannot write evidence {evf:?}: {e}");
            return 2;
        }
        if !new.is_empty() {
            let rp = evdir.join(format!("replay-{}.txt", self.id));
            let mut t = format!(
                "property {} tier {} seed {}\nre-run: VERIF_SEED={} VERIF_TIER={} /verif/check.sh {}\n",
                self.id,
                if self.thorough { "thorough" } else { "quick" },
                self.seed,
                self.seed,
                if self.thorough { "thorough" } else { "quick" },
                self.id
            );
            for v in &new {
                let _ = write!(t, "\n[{}]\n{}\n", v.sig, v.detail);
            }
            let _ = std::fs::write(&rp, &t);
            for v in new.iter().take(8) {
                println!("  {}: {}", v.sig, v.detail.lines().next().unwrap_or(""));
            }
            println!("VIOLATION property={} replay={}", self.id, rp.display());
            return 1;
        }
        if !self.incon.is_empty() {
            for s in self.incon.iter().take(10) {
                println!("INCONCLUSIVE property={} {}", self.id, s);
            }
            return 2;
        }
        println!(
            "OK property={} {} cases, {} distinct, {:.1} s",
            self.id,
            self.evals,
            self.distinct.len(),
            wall
        );
        0
    }
}

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("VERIF_SCRATCH").map_or_else(|| PathBuf::from("/tmp"), PathBuf::from);
        let p = base.join(format!(
            "vmon-{}-{}-{}",
            std::process::id(),
            tag,
            N.fetch_add(1, Ordering::SeqCst)
        ));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Two of the eight workers, and all they start, get by with one processor and with two: other schedules, and
/// another machine to whoever asks for its size.
fn restrict_cpus(worker: usize) {
    #[cfg(all(target_os = "linux", not(miri)))]
    if let n @ 1..=2 = worker.saturating_sub(5) {
        unsafe {
            let (mut have, mut want): (libc::cpu_set_t, libc::cpu_set_t) = (std::mem::zeroed(), std::mem::zeroed());
            let size = std::mem::size_of::<libc::cpu_set_t>();
            if libc::sched_getaffinity(0, size, &mut have) != 0 {
                return;
            }
            let all: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
            for i in 0..n {
                libc::CPU_SET(all[(worker + i) % all.len()], &mut want);
            }
            libc::sched_setaffinity(0, size, &want);
        }
    }
}
