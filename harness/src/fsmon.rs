//! Monitors of file system behaviour: C19 (temporary archives), C20 (erasing a file), C22 (erasing a
//! directory), C32 (the storage layer). C19, C20 and C22 judge the recorded system calls of child
//! processes; C32 compares calls with a model of the tree in a child that runs unprivileged.
use crate::arch;
use crate::big;
use crate::gen;
use crate::io::windows;
use crate::ops::*;
use crate::refimpl::{self, BLOCK};
use crate::trace::{self, Cmd, Node, Rec, Res, Scratch, K};
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

/// The content of one file as rebuilt from the recorded writes.
pub struct Shadow {
    pub data: Vec<u8>,
    /// how often each byte was written
    pub level: Vec<u32>,
    /// the values of each round of writing
    pub pass: Vec<Vec<u8>>,
    /// when each byte was last written
    pub last: Vec<u64>,
    /// when the file last grew, and the content then
    pub grown: u64,
    pub at_growth: Vec<u8>,
}
impl Shadow {
    pub fn new(d: &[u8]) -> Shadow {
        Shadow {
            data: d.to_vec(),
            level: vec![0; d.len()],
            pass: vec![],
            last: vec![0; d.len()],
            grown: 0,
            at_growth: d.to_vec(),
        }
    }
    pub fn write(&mut self, pos: usize, d: &[u8], seq: u64) {
        let end = pos + d.len();
        let grows = end > self.data.len();
        if grows {
            self.data.resize(end, 0);
            self.level.resize(end, 0);
            self.last.resize(end, 0);
        }
        for (i, b) in d.iter().enumerate() {
            let l = self.level[pos + i] as usize;
            if self.pass.len() <= l {
                self.pass.push(vec![]);
            }
            if self.pass[l].len() < end {
                self.pass[l].resize(end, 0);
            }
            self.pass[l][pos + i] = *b;
            self.level[pos + i] += 1;
            self.data[pos + i] = *b;
            self.last[pos + i] = seq;
        }
        if grows {
            self.grown = seq;
            self.at_growth.clone_from(&self.data);
        }
    }
}

/// An operation that takes content away: truncating, removing, replacing.
fn destroys(x: &Rec, path: &Path, len: usize) -> bool {
    if x.ret < 0 {
        return false;
    }
    match x.kind {
        K::Trunc => x.path == path && (x.a as usize) < len,
        K::Open => x.path == path && x.truncating_open() && x.b > 0 && len > 0,
        K::Unlink => x.path == path,
        K::Rename => x.path == path || x.path2 == path,
        _ => false,
    }
}

pub struct Erased {
    pub destroyed: bool,
    pub writes: u64,
}

/// Follows one existing file through a trace: before it is truncated, removed or replaced, every byte
/// must have been written `passes` times with random data and then with zeros.
pub fn judge_erasing(initial: &[u8], trace: &[Rec], path: &Path, passes: usize) -> Result<Erased, (&'static str, String)> {
    let mut s = Shadow::new(initial);
    let mut e = Erased {
        destroyed: false,
        writes: 0,
    };
    for x in trace {
        if destroys(x, path, initial.len()) {
            e.destroyed = true;
            if let Some(i) = (0..initial.len()).find(|i| s.level[*i] as usize != passes + 1) {
                return Err(("not-overwritten", format!("{}: byte {i} was written {} times, not {}, before {}", path.display(), s.level[i], passes + 1, x.brief())));
            }
            if let Some(i) = (0..initial.len()).find(|i| s.data[*i] != 0) {
                return Err(("not-zeroed", format!("{}: byte {i} is {} before {}", path.display(), s.data[i], x.brief())));
            }
            let mut seen: HashSet<[u8; 16]> = windows(initial).collect();
            for (k, p) in s.pass.iter().take(passes).enumerate() {
                let mut mine = HashSet::new();
                for w in windows(&p[..initial.len().min(p.len())]) {
                    if w.iter().all(|b| *b == w[0]) || seen.contains(&w) || !mine.insert(w) {
                        return Err(("not-random", format!("{}: pass {} wrote {}", path.display(), k + 1, hex(&w))));
                    }
                }
                seen.extend(mine);
            }
            break;
        }
        if x.kind == K::Write && x.ret > 0 && x.path == path {
            e.writes += 1;
            if x.data.len() != x.ret as usize {
                return Err(("log", "incomplete log".into()));
            }
            s.write(x.a as usize, &x.data, x.seq);
        }
    }
    Ok(e)
}

fn faults(r: &mut Rng, n: usize, per: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if n > per {
        r.shuffle(&mut v);
        v.truncate(per);
    }
    v
}
const ERRNOS: [i32; 5] = [libc::EIO, libc::ENOSPC, libc::EINTR, libc::EACCES, libc::EPERM];

// ---------------------------------------------------------------------------------------------
// C20

fn c20_case(o: &mut Obs, sc: &Scratch, len: usize, passes: usize, way: usize, faulty: usize) {
    let r = &mut o.rng;
    let name = (*r.pick(&["f", "./f", "dir/f", "dir/../f", "ABS", "nämé x", "-f", ".hid", "dir//f"])).to_string();
    let key = b"key".to_vec();
    let skey = "key";
    let data = match r.below(3) {
        0 => vec![0x5A; len],
        _ => gen::content(r, len),
    };
    // a file with a hole: that much is really written, the rest only counts for the length
    let hole = (way < 4 && r.chance(1, 5)).then(|| (*r.pick(&[0, 0, 4096, 5000])).min(len));
    let mut data = data;
    if let Some(h) = hole {
        data[h..].fill(0);
    }
    let plain = if way >= 4 { vec![7u8; len.max(1)] } else { vec![] };
    let z = (way == 5).then(|| arch::zip_of(&arch::small_tree(r), false));
    let m = (way >= 4).then(|| refimpl::make(r, 5, Alg::A, false, &[(0, Kdf::Argon(3), key.clone())], z.as_ref().unwrap_or(&plain)));
    let data = m.map_or(data, |m| [m.header, m.body].concat());
    let arg = match name.as_str() {
        "ABS" => sc.path("f").display().to_string(),
        "-f" => "./-f".into(),
        n => n.to_string(),
    };
    let p = passes.to_string();
    let one = passes == 1 && r.chance(1, 2);
    let pe = if one { "--erase".to_string() } else { format!("--erase={p}") };
    let force = r.chance(1, 2);
    let c = match way {
        0 | 1 => Cmd::drive(&["erase", &arg, &p]),
        2 => {
            let mut a = vec!["erase".to_string(), arg.clone()];
            if !one {
                a.push(format!("--passes={p}"));
            }
            if force {
                a.push("-f".into());
            }
            Cmd::cli(&a)
        }
        3 => Cmd::cli(&["encrypt", &arg, "out", &pe, "--argon"]).env("VOLARIS_KEY", skey),
        4 => Cmd::cli(&["decrypt", &arg, "out", &pe]).env("VOLARIS_KEY", skey),
        _ => Cmd::cli(&["unpack", &arg, "res", &pe]).env("VOLARIS_KEY", skey),
    };
    let c = c.traced().env("VT_NODATA", "1");
    let short = (faulty == 0 && r.chance(1, 3)).then(|| format!("{}:{}", r.below(1 << 30), *r.pick(&[300, 5000, 100_000])));
    let file = sc.path(if arg.contains('/') && name != "ABS" && !name.starts_with("./") && name != "-f" {
        if name.contains("..") {
            "f"
        } else {
            "dir/f"
        }
    } else if name == "ABS" || name == "./f" {
        "f"
    } else {
        &name
    });
    let prepare = || {
        sc.reset();
        sc.put("dir/other", b"other");
        sc.put("neighbour", b"neighbour");
        std::fs::write(&file, &data[..hole.unwrap_or(data.len())]).unwrap();
        if hole.is_some() {
            let f = std::fs::OpenOptions::new().write(true).open(&file).unwrap();
            f.set_len(data.len() as u64).unwrap();
        }
        sc.own();
    };
    let strip = |mut t: trace::Tree| {
        t.retain(|p, _| !p.starts_with("res") && !p.starts_with("out"));
        t
    };
    let judge = |o: &mut Obs, c: &Cmd, res: &Res, before: &trace::Tree, fault: bool| {
        let d = |s: &str| {
            let f = res.trace.iter().find(|x| x.injected()).map_or(String::new(), |x| format!(" (fault: {})", x.brief()));
            let h = hole.map_or(String::new(), |h| format!(" (a hole from {h})"));
            format!("{} bytes{h}, {}: {s}{f}; {}", data.len(), c.text(), res.text())
        };
        if res.crashed() {
            return o.viol("crash", d("crashed"));
        }
        match judge_erasing(&data, &res.trace, &file, passes) {
            Err((s, e)) => o.viol(s, d(&e)),
            Ok(e) => {
                o.count("writes_followed", e.writes);
                let there = std::fs::symlink_metadata(&file).is_ok();
                if res.ok() && there {
                    o.viol("not-removed", d("success, but the file is still there"));
                }
                if !res.ok() && !there {
                    o.viol("false-error", d("an error is reported, but the file is gone"));
                }
                if !res.ok() && !fault {
                    o.viol("fails", d("fails"));
                }
                if !e.destroyed && !there {
                    o.viol("lost", d("the file is gone without a recorded removal"));
                }
                if e.destroyed {
                    o.count("files_erased", 1);
                }
            }
        }
        let mut after = strip(trace::snapshot(&sc.w));
        let rel = file.strip_prefix(&sc.w).unwrap();
        let mut b = strip(before.clone());
        b.remove(rel);
        after.remove(rel);
        let x = trace::diff(&b, &after);
        if !x.is_empty() {
            o.viol("others", d(&x.join("; ")));
        }
    };
    prepare();
    let before = trace::snapshot(&sc.w);
    let c1 = if let Some(s) = &short { c.clone().env("VT_SHORT", s) } else { c.clone() };
    let res = match c1.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&(hash_of(&data), passes, way, &arg, &short), true);
    o.max("max_length", data.len() as u64);
    if hole.is_some() {
        o.count("files_with_holes", 1);
    }
    judge(o, &c1, &res, &before, false);
    if faulty == 0 || !res.ok() {
        return;
    }
    let n = res.trace.iter().filter(|x| x.inside() && x.path == file && !matches!(x.kind, K::Close)).count();
    for k in faults(&mut o.rng, n, faulty) {
        let errno = *o.rng.pick(&ERRNOS);
        let sticky = errno != libc::EINTR && o.rng.chance(1, 3);
        prepare();
        let c = c.clone().env("VT_FAULT", format!("any:{k}:{errno}{}", if sticky { ":s" } else { "" })).env("VT_FPATH", &file);
        let res = match c.run(sc) {
            Ok(r) => r,
            Err(e) => return o.inconclusive(e),
        };
        let hit = res.injected() > 0;
        o.eval(&(hash_of(&data), passes, way, &arg, k, errno, sticky), hit);
        if hit {
            o.count("faults_fired", 1);
        }
        judge(o, &c, &res, &before, true);
    }
}

/// A file that cannot be opened for writing stays as it is.
fn c20_refused(o: &mut Obs, sc: &Scratch) {
    if !trace::can_drop() {
        return;
    }
    // a file that is not there is not reported as erased, and nothing is there afterwards
    for cli in [false, true] {
        sc.reset();
        sc.own();
        let n = *o.rng.pick(&["f", "no/f", "tmp/f", "f/"]);
        let c = if cli { Cmd::cli(&["erase", n, "-f"]) } else { Cmd::drive(&["erase", n, "1"]) };
        let before = trace::snapshot(&sc.w);
        let res = match c.run(sc) {
            Ok(r) => r,
            Err(e) => return o.inconclusive(e),
        };
        o.eval(&("missing", n, cli), true);
        let x = trace::diff(&before, &trace::snapshot(&sc.w));
        if res.ok() || !x.is_empty() {
            o.viol("missing", format!("{}: no such file: {} {}", c.text(), res.text(), x.join("; ")));
        }
    }
    sc.reset();
    let len = o.rng.below(3000);
    let data = o.rng.bytes(len);
    let f = sc.put("f", &data);
    sc.own();
    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o444)).unwrap();
    let c = if o.rng.chance(1, 2) { Cmd::drive(&["erase", "f", "1"]) } else { Cmd::cli(&["erase", "f", "-f"]) }.traced();
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("refused", hash_of(&data)), true);
    if res.ok() || sc.get("f").as_ref() != Some(&data) {
        o.viol("refused", format!("{}: a read-only file: {} {}", c.text(), res.text(), sc.get("f").map_or("gone".into(), |d| brief(&d))));
    }
}

/// A file of more than 32 bits of length. What is written is recorded, but not stored.
fn c20_long(o: &mut Obs, sc: &Scratch, passes: usize, cli: bool) {
    sc.reset();
    let file = sc.put("f", b"");
    let f = std::fs::OpenOptions::new().write(true).open(&file).unwrap();
    if f.set_len(big::LONG).is_err() {
        return o.inconclusive("no file of that length can be made".to_string());
    }
    sc.own();
    let p = passes.to_string();
    let c = if cli { Cmd::cli(&["erase", "f", &format!("--passes={p}"), "-f"]) } else { Cmd::drive(&["erase", "f", &p]) };
    let c = c.traced().env("VT_DISCARD", "1");
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    let d = |t: String| format!("a file of {} bytes, {}: {t}; {}", big::LONG, c.text(), res.text());
    o.eval(&("long", passes, cli), true);
    if !res.ok() {
        return o.viol("fails", d("fails".into()));
    }
    let mut w = big::Cover::new(big::LONG);
    for x in &res.trace {
        if destroys(x, &file, big::LONG as usize) {
            o.count("longest_files", 1);
            if let Some(t) = w.judge(passes as u64 + 1) {
                o.viol("not-overwritten", d(t));
            }
            return;
        }
        if x.kind == K::Write && x.ret > 0 && x.path == file {
            o.count("writes_followed", 1);
            w.record(x.a as u64, x.ret as u64, x.mode == 1);
        }
    }
    o.viol("not-removed", d("the file is not removed".into()));
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "Each case erases a file through the library or the program and rebuilds from the recorded system calls how often and with what every byte was \
        written before the file was first truncated or removed; with faults at every call. Non-trivial: distinct (content, passes, interface, fault hit)."
        .into();
    ctx.min_evals = 200;
    ctx.need("writes_followed", 2000);
    ctx.need("faults_fired", 100);
    ctx.need("files_erased", 100);
    ctx.need("files_with_holes", 10);
    ctx.need("longest_files", 1);
    ctx.par(1, ctx.pick(9, 300), |o| {
        let sc = Scratch::new();
        let mut i = 0;
        for len in [0, 1, 511, 512, 513, 1024, 1500, 4096, 70_001] {
            for passes in [1, 2, 0, 3] {
                i += 1;
                if o.mine(i) && o.time_left() {
                    o.sample(|| format!("a file of {len} bytes, {passes} passes, every way of erasing"));
                    let way = (i / o.workers) % 6;
                    c20_case(o, &sc, len, passes, way, 0);
                }
            }
        }
        for _ in 0..3 {
            c20_refused(o, &sc);
        }
        while o.time_left() {
            let len = if o.rng.chance(1, 15) { BLOCK + o.rng.below(5000) } else { o.rng.below(3000) };
            let (passes, way) = (*o.rng.pick(&[1, 1, 2, 3, 0, 7, 8, 17, 33]), o.rng.below(6));
            let len = if passes > 7 { len.min(3000) } else { len };
            let f = if o.rng.chance(1, 2) { 14 } else { 0 };
            c20_case(o, &sc, len, passes, way, f);
        }
    });
    // far more than any buffer
    ctx.par_n(4, 2, 9, |o| {
        let sc = Scratch::new();
        if o.worker == 3 {
            let cli = o.rng.chance(1, 2);
            c20_long(o, &sc, 0, cli);
            if o.thorough {
                c20_long(o, &sc, 1, !cli);
            }
        }
        let (len, passes, way) = [(17 * BLOCK + 3, 1, 2), (34 * BLOCK + 1, 1, 0), (24 * BLOCK, 1, 3), (66 * BLOCK + 1, 0, 1)][o.worker];
        c20_case(o, &sc, len, passes, way, 0);
    });
}

// ---------------------------------------------------------------------------------------------
// C22

fn c22_case(o: &mut Obs, sc: &Scratch, faulty: bool, many: bool) {
    let r = &mut o.rng;
    let n = match r.below(6) {
        _ if many => r.range(50, 330),
        0 => r.below(3),
        1 => r.range(25, 45),
        _ => r.range(3, 14),
    };
    let mut t = arch::tree(r, n, if many { 90 } else { 2500 }, arch::name);
    let dirs: Vec<PathBuf> = std::iter::once(PathBuf::new()).chain(t.iter().filter(|x| *x.1 == Node::Dir).map(|x| x.0.clone())).collect();
    let count = t.values().filter(|x| matches!(x, Node::File(d) if !d.is_empty())).count();
    if many && count > 48 {
        o.count("trees_of_many_files", 1);
        o.max("max_files_in_a_tree", count as u64);
    }
    let r = &mut o.rng;
    // links to outside and inside
    let mut broken = false;
    if r.chance(2, 3) {
        for i in 0..r.range(1, 4) {
            let d = r.pick(&dirs).clone();
            let up: PathBuf = std::iter::repeat_n("..", d.components().count() + 1).collect();
            let to = match r.below(8) {
                0 => up.join("keep/file"),
                1 => up.join("keep"),
                2 => sc.path("keep/file"),
                3 => sc.path("keep"),
                4 => up.join("keep/deep/other"),
                5 => PathBuf::from("."),
                6 => match t.iter().find(|x| matches!(x.1, Node::File(_))) {
                    Some((p, _)) => sc.path("dir").join(p),
                    None => up.join("keep/file"),
                },
                _ => {
                    broken = true;
                    PathBuf::from(if r.chance(1, 2) { "nowhere" } else { "LOOP" })
                }
            };
            let name = format!("link{i}");
            let to = if to == Path::new("LOOP") { PathBuf::from(&name) } else { to };
            t.insert(d.join(name), Node::Link(to));
        }
    }
    // a large file, and one with nothing but a hole
    if !faulty && r.chance(1, 12) {
        let d = r.pick(&dirs).clone();
        let n = *r.pick(&[70_001, BLOCK + 1, 3 * BLOCK, 9 * BLOCK + 17]);
        let c = r.bytes(n);
        t.insert(d.join("large"), Node::File(c));
    }
    let hole = r.chance(1, 6).then(|| r.pick(&dirs).join("hole"));
    if let Some(p) = &hole {
        t.insert(p.clone(), Node::File(vec![0; r.range(1, 9000)]));
    }
    let cli = r.chance(1, 2);
    let way = if cli { r.below(2) } else { 2 };
    // names that are not Unicode (an archive cannot hold them)
    if way != 1 && r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            use std::os::unix::ffi::OsStrExt;
            let n = *r.pick(&[&b"\xFF"[..], b"b\xFF\xFEd", b"\x80.txt", b"caf\xE9", b"\xC3("]);
            let c = gen::content(r, r.clone().range(1, 900));
            t.insert(r.pick(&dirs).join(std::ffi::OsStr::from_bytes(n)), Node::File(c));
        }
        o.count("names_that_are_not_Unicode", 1);
    }
    let r = &mut o.rng;
    let passes = if cli { *r.pick(&[1, 1, 2]) } else { *r.pick(&[0, 1, 1, 2]) };
    let arg = *r.pick(&["dir", "./dir", "dir/", "ABS", "sub/../dir"]);
    let arg = if arg == "ABS" { sc.path("dir").display().to_string() } else { arg.to_string() };
    // something that cannot be erased
    let files: Vec<PathBuf> = t.iter().filter(|x| matches!(x.1, Node::File(d) if !d.is_empty())).map(|x| x.0.clone()).collect();
    let refuse = (trace::can_drop() && !files.is_empty() && r.chance(1, 4)).then(|| r.pick(&files).clone());
    let closed = (trace::can_drop() && refuse.is_none() && dirs.len() > 1 && r.chance(1, 10)).then(|| r.pick(&dirs[1..]).clone());
    let c = match way {
        0 => {
            let mut a = vec!["erase".to_string(), arg.clone()];
            if passes != 1 {
                a.push(format!("--passes={passes}"));
            }
            let c = if r.chance(1, 2) {
                a.push("-f".into());
                Cmd::cli(&a)
            } else {
                Cmd::cli(&a).stdin(b"y\n")
            };
            c
        }
        1 => Cmd::cli(&["pack", &arg, "out", "--erase", "-f", "--argon"]).env("VOLARIS_KEY", "key"),
        _ => Cmd::drive(&["erase_dir", &arg, &passes.to_string()]),
    };
    let passes = if way == 1 { 1 } else { passes };
    let mut c = c.traced().env("VT_NODATA", "1");
    if r.chance(1, 2) {
        c = c.env("VT_DELAY", format!("{}:{}", r.below(1 << 30), *r.pick(&[50, 300, 1500])));
    }
    let prepare = || {
        sc.reset();
        sc.put("keep/file", b"keep this file");
        sc.put("keep/deep/other", b"and this one");
        sc.put("dirx", b"neighbour");
        sc.put("sub/x", b"x");
        arch::write_tree(&sc.path("dir"), &t);
        if let Some(Node::File(d)) = hole.as_ref().and_then(|p| t.get(p)) {
            let f = std::fs::File::create(sc.path("dir").join(hole.as_ref().unwrap())).unwrap();
            f.set_len(d.len() as u64).unwrap();
        }
        sc.own();
        if let Some(f) = &refuse {
            std::fs::set_permissions(sc.path("dir").join(f), std::fs::Permissions::from_mode(0o444)).unwrap();
        }
        if let Some(f) = &closed {
            std::fs::set_permissions(sc.path("dir").join(f), std::fs::Permissions::from_mode(0o555)).unwrap();
        }
    };
    let outside = |t: trace::Tree| -> trace::Tree { t.into_iter().filter(|(p, _)| !p.starts_with("dir") && !p.starts_with("out")).collect() };
    let root = sc.path("dir");
    let judge = |o: &mut Obs, c: &Cmd, res: &Res, before: &trace::Tree, fault: bool| {
        let list: Vec<String> = t
            .iter()
            .map(|(p, n)| match n {
                Node::Link(l) => format!("{} -> {}", p.display(), l.display()),
                Node::Dir => format!("{}/", p.display()),
                _ => p.display().to_string(),
            })
            .collect();
        let d = |s: &str| {
            let f = res.trace.iter().find(|x| x.injected()).map_or(String::new(), |x| format!(" (fault: {})", x.brief()));
            format!("{}: {s}{f}; tree {:?}, read-only {refuse:?} {closed:?}; {}", c.text(), list, res.text())
        };
        if res.crashed() {
            return o.viol("crash", d("crashed"));
        }
        let mut threads = HashSet::new();
        for x in &res.trace {
            if x.kind == K::Write {
                threads.insert(x.tid);
            }
        }
        o.max("max_threads_writing", threads.len() as u64);
        for (p, n) in &t {
            if let Node::File(data) = n {
                match judge_erasing(data, &res.trace, &root.join(p), passes) {
                    Err((s, e)) => return o.viol(s, d(&e)),
                    Ok(e) => {
                        o.count("writes_followed", e.writes);
                        o.count("files_followed", 1);
                        if e.destroyed {
                            o.count("files_erased", 1);
                        }
                    }
                }
            }
        }
        let there = std::fs::symlink_metadata(&root).is_ok();
        if res.ok() && there {
            o.viol("not-removed", d("success, but the directory is still there"));
        }
        if !res.ok() && !there {
            o.viol("false-error", d("an error is reported, but the directory is gone"));
        }
        if !res.ok() && !fault && refuse.is_none() && closed.is_none() && !broken {
            o.viol("fails", d("fails"));
        }
        if res.ok() && refuse.is_some() {
            o.viol("refused", d("success although a file could not be overwritten"));
        }
        if let Some(f) = &refuse {
            if let Some(Node::File(want)) = t.get(f) {
                if std::fs::read(root.join(f)).ok().as_ref() != Some(want) {
                    o.viol("refused", d("the file that could not be overwritten is not there any more"));
                }
            }
        }
        let x = trace::diff(before, &outside(trace::snapshot(&sc.w)));
        if !x.is_empty() {
            o.viol("outside", d(&x.join("; ")));
        }
        for x in &res.trace {
            // (a link inside is opened for reading only when the tree is listed)
            let ours = x.path.starts_with(&root) || (way == 1 && (x.path == sc.path("out") || x.path.starts_with(sc.path("tmp"))));
            if x.modifies() && x.ret >= 0 && !ours && !x.path.starts_with("/dev") && x.path != root {
                o.viol("outside", d(&x.brief()));
            }
        }
    };
    prepare();
    let before = outside(trace::snapshot(&sc.w));
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&(hash_of(&format!("{t:?}")), way, passes, &arg), true);
    o.sample(|| format!("{}: {} entries, {} links", c.text(), t.len(), t.values().filter(|n| matches!(n, Node::Link(_))).count()));
    o.count(if res.ok() { "removed" } else { "refused" }, 1);
    judge(o, &c, &res, &before, false);
    if !faulty || !res.ok() {
        return;
    }
    let n = res.trace.iter().filter(|x| x.inside() && x.path.starts_with(&root) && !matches!(x.kind, K::Close)).count();
    for k in faults(&mut o.rng, n, 10) {
        if !o.time_left() {
            return;
        }
        let errno = *o.rng.pick(&ERRNOS);
        prepare();
        let c = c.clone().env("VT_FAULT", format!("any:{k}:{errno}")).env("VT_FPATH", "/w/dir");
        let res = match c.run(sc) {
            Ok(r) => r,
            Err(e) => return o.inconclusive(e),
        };
        let hit = res.injected() > 0;
        o.eval(&(hash_of(&format!("{t:?}")), way, passes, k, errno), hit);
        if hit {
            o.count("faults_fired", 1);
        }
        judge(o, &c, &res, &before, true);
    }
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "Each case erases a generated tree (links to outside, read-only members, delays and faults in the threads) and rebuilds from the recorded \
        system calls what every file was overwritten with before it was truncated or removed; the surroundings are compared. Non-trivial: distinct trees and faults hit."
        .into();
    ctx.min_evals = 150;
    ctx.need("files_erased", 500);
    ctx.need("writes_followed", 2000);
    ctx.need("faults_fired", 50);
    ctx.need("trees_of_many_files", 6);
    ctx.par(1, ctx.pick(9, 300), |o| {
        let sc = Scratch::new();
        let mut i = 0;
        while o.time_left() {
            i += 1;
            c22_case(o, &sc, i % 3 == 0, i % 15 == 2);
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C19

/// Judges the temporary files of one run. `expected`: paths the command is there to create.
fn judge_temps(o: &mut Obs, sc: &Scratch, res: &Res, before: &trace::Tree, expected: &dyn Fn(&Path) -> bool, d: &dyn Fn(&str) -> String) {
    let mut temps: BTreeMap<PathBuf, Shadow> = BTreeMap::new();
    let (mut keeps, mut skips) = (false, 0);
    for x in &res.trace {
        if x.kind == K::Open && x.created() && x.ret >= 0 && !expected(&x.path) {
            o.count("temporary_files", 1);
            if x.a & i64::from(libc::O_EXCL) == 0 {
                o.viol("not-exclusive", d(&format!("a temporary file is opened without insisting on a new one: {}", x.brief())));
            }
            if x.mode & 0o077 != 0 {
                o.viol("not-private", d(&format!("a temporary file has mode {:o}", x.mode & 0o7777)));
            }
            temps.insert(x.path.clone(), Shadow::new(b""));
            continue;
        }
        let Some(s) = temps.get_mut(&x.path) else { continue };
        if x.injected() {
            match x.kind {
                K::Trunc | K::Unlink => keeps = true,
                // erasing was not possible, unless the archive still grows after this
                K::Stat | K::Lseek => skips = x.seq,
                K::Write if (x.a + x.b) as usize <= s.data.len() => skips = x.seq,
                _ => {}
            }
        }
        if x.ret < 0 {
            continue;
        }
        let len = s.data.len();
        if x.kind == K::Write && x.ret > 0 {
            s.write(x.a as usize, &x.data, x.seq);
            o.count("temporary_writes", 1);
        } else if x.kind == K::Chmod && x.a & 0o077 != 0 {
            o.viol("not-private", d(&x.brief()));
        } else if x.kind == K::Link || x.kind == K::Rename {
            o.viol("remains", d(&format!("the temporary file gets another name: {}", x.brief())));
        } else if matches!(x.kind, K::Trunc | K::Unlink) && !(x.kind == K::Trunc && x.a as usize >= len) {
            if skips == 0 || skips < s.grown {
                // written again since the archive was complete, or zeroed
                if let Some(i) = (0..len).find(|i| s.last[*i] <= s.grown && !(s.level[*i] >= 2 && s.data[*i] == 0)) {
                    o.viol("not-overwritten", d(&format!("byte {i} of the {len} bytes of the temporary file was not overwritten before {}", x.brief())));
                }
                let old = &s.at_growth;
                for i in (0..len / 16).map(|i| i * 16) {
                    if s.data[i..i + 16] == old[i..i + 16] && s.data[i..i + 16].iter().any(|b| *b != 0) {
                        o.viol("not-overwritten", d(&format!("bytes {i}.. of the temporary file are still the same before {}", x.brief())));
                        break;
                    }
                }
            }
            if len > 0 {
                o.count("archives_followed", 1);
                o.max("max_archive", len as u64);
                if len > 20 << 20 {
                    o.count("long_archives", 1);
                }
            }
            if x.kind == K::Unlink {
                temps.remove(&x.path);
            } else {
                *s = Shadow::new(b"");
            }
        }
    }
    if !keeps {
        let after = trace::snapshot(&sc.w);
        let strip = |t: &trace::Tree| -> trace::Tree { t.iter().filter(|(p, _)| !expected(&sc.w.join(p))).map(|(p, n)| (p.clone(), n.clone())).collect() };
        let x = trace::diff(&strip(before), &strip(&after));
        if !x.is_empty() {
            o.viol("remains", d(&x.join("; ")));
        }
    }
}

struct Ending {
    what: String,
    cmd: Cmd,
    setup: Box<dyn Fn(&Scratch)>,
    /// must this succeed?
    succeeds: Option<bool>,
}

fn endings(r: &mut Rng) -> Vec<Ending> {
    let mut v: Vec<Ending> = vec![];
    let key = b"correct".to_vec();
    let khex = hex(&key);
    let tree = if r.chance(1, 3) { arch::tree(r, 8, 4000, arch::name) } else { arch::small_tree(r) };
    let mut tree = tree;
    if r.chance(1, 4) {
        let n = BLOCK + r.below(3000);
        tree.insert("zz-big".into(), Node::File(r.bytes(n)));
    } else if r.chance(2, 3) {
        // more than any buffer in front of the archive
        let n = r.range(9000, 60_000);
        tree.insert("zz-some".into(), Node::File(r.bytes(n)));
    }
    let alg = gen::alg(r);
    let zip = arch::zip_of(&tree, r.chance(1, 2));
    let m = refimpl::make(r, 5, alg, false, &[(0, Kdf::Argon(3), key.clone())], &zip);
    let whole = [m.header.clone(), m.body.clone()].concat();
    let mut add = |what: &str, cmd: Cmd, succeeds: Option<bool>, setup: Box<dyn Fn(&Scratch)>| {
        v.push(Ending {
            what: what.into(),
            cmd,
            setup,
            succeeds,
        });
    };
    let un = |k: &str| Cmd::cli(&["unpack", "-f", "in", "res"]).env("VOLARIS_KEY", k);
    let input = |d: Vec<u8>| -> Box<dyn Fn(&Scratch)> {
        Box::new(move |sc: &Scratch| {
            sc.put("in", &d);
        })
    };
    add("unpack", un("correct"), Some(true), input(whole.clone()));
    add("unpack (library)", Cmd::drive(&["unpack", "in", "res", &khex, "-"]), Some(true), input(whole.clone()));
    add("unpack, wrong key", un("wrong"), Some(false), input(whole.clone()));
    add("unpack, wrong key (library)", Cmd::drive(&["unpack", "in", "res", "00", "-"]), Some(false), input(whole.clone()));
    let mut x = whole.clone();
    let at = if r.chance(1, 2) { x.len() - 1 - r.below(40) } else { r.range(m.header.len(), x.len() - 1) };
    x[at] ^= 1 << r.below(8);
    add("unpack, damaged", un("correct"), Some(false), input(x));
    let cut = r.range(m.header.len(), whole.len() - 1);
    add("unpack, truncated", un("correct"), Some(false), input(whole[..cut].to_vec()));
    add("unpack, not an encrypted file", un("correct"), Some(false), input(r.bytes(2000)));
    let n = r.range(1, 5000);
    let junk = r.bytes(n);
    let j = refimpl::make(r, 5, alg, false, &[(0, Kdf::Argon(3), key.clone())], &junk);
    add("unpack, not an archive", un("correct"), Some(false), input([j.header, j.body].concat()));
    // an archive one of whose members is damaged
    let mut z = zip.clone();
    let at = r.below(z.len());
    z[at] ^= 0x55;
    let j = refimpl::make(r, 5, alg, false, &[(0, Kdf::Argon(3), key.clone())], &z);
    add("unpack, malformed archive", un("correct"), None, input([j.header, j.body].concat()));
    let w = whole.clone();
    add(
        "unpack, the target is a file",
        un("correct"),
        Some(false),
        Box::new(move |sc| {
            sc.put("in", &w);
            sc.put("res", b"a file");
        }),
    );
    let (w, t) = (whole.clone(), tree.clone());
    add(
        "unpack, no answer about existing files",
        Cmd::cli(&["unpack", "in", "res"]).env("VOLARIS_KEY", "correct"),
        None,
        Box::new(move |sc| {
            sc.put("in", &w);
            arch::write_tree(&sc.path("res"), &t);
        }),
    );
    let (w, t) = (whole.clone(), tree.clone());
    add(
        "unpack, a directory in the way of a file",
        un("correct"),
        None,
        Box::new(move |sc| {
            sc.put("in", &w);
            for (p, n) in &t {
                if matches!(n, Node::File(_)) {
                    std::fs::create_dir_all(sc.path("res").join(p)).unwrap();
                    break;
                }
            }
        }),
    );
    let dir = |t: trace::Tree| -> Box<dyn Fn(&Scratch)> { Box::new(move |sc: &Scratch| arch::write_tree(&sc.path("dir"), &t)) };
    let z = r.chance(1, 2);
    let pk = |more: &[&str]| Cmd::cli(&[&["pack", "dir", "out", "--argon", "-f"][..], more, if z { &["--zstd"][..] } else { &[] }].concat()).env("VOLARIS_KEY", "correct");
    add("pack", pk(&[]), Some(true), dir(tree.clone()));
    add("pack, header apart", pk(&["--header", "h"]), Some(true), dir(tree.clone()));
    add(
        "pack (library)",
        Cmd::drive(&["pack", "out", "D", "b5", &khex, if z { "zstd" } else { "stored" }, "-", "dir"]),
        Some(true),
        dir(tree.clone()),
    );
    // a name that is refused half way
    let t = tree.clone();
    add(
        "pack, a name that is not text",
        pk(&[]),
        Some(false),
        Box::new(move |sc| {
            use std::os::unix::ffi::OsStrExt;
            arch::write_tree(&sc.path("dir"), &t);
            std::fs::write(sc.path("dir").join(std::ffi::OsStr::from_bytes(b"zz\xff\xfe")), b"content").unwrap();
        }),
    );
    add("pack (library), the same directory twice", Cmd::drive(&["pack", "out", "A", "a1", &khex, "stored", "-", "dir", "dir"]), None, dir(tree.clone()));
    let t = tree.clone();
    add(
        "pack, an unreadable file",
        pk(&[]),
        trace::can_drop().then_some(false),
        Box::new(move |sc| {
            arch::write_tree(&sc.path("dir"), &t);
            let f = sc.put("dir/zz-closed", b"closed");
            sc.own();
            std::fs::set_permissions(f, std::fs::Permissions::from_mode(0)).unwrap();
        }),
    );
    add("pack, unwritable output", Cmd::cli(&["pack", "dir", "no/where/out", "--argon"]).env("VOLARIS_KEY", "correct"), Some(false), dir(tree));
    v
}

/// An archive far longer than any buffer, that cannot be compressed.
fn long_endings(r: &mut Rng, len: usize) -> Vec<Ending> {
    let key = b"correct".to_vec();
    let khex = hex(&key);
    let mut tree = arch::small_tree(r);
    tree.insert("zz-long".into(), Node::File(r.bytes(len)));
    let alg = gen::alg(r);
    let m = refimpl::make(r, 5, alg, false, &[(0, Kdf::Argon(3), key)], &arch::zip_of(&tree, false));
    let whole = [m.header, m.body].concat();
    let end = |what: &str, cmd: Cmd, setup: Box<dyn Fn(&Scratch)>| Ending { what: what.into(), cmd, setup, succeeds: Some(true) };
    vec![
        end(
            "unpack, a long archive",
            Cmd::cli(&["unpack", "-f", "in", "res"]).env("VOLARIS_KEY", "correct"),
            Box::new(move |sc| {
                sc.put("in", &whole);
            }),
        ),
        end("pack, a long archive", Cmd::drive(&["pack", "out", "X", "a1", &khex, "stored", "-", "dir"]), Box::new(move |sc| arch::write_tree(&sc.path("dir"), &tree))),
    ]
}

fn c19_case(o: &mut Obs, sc: &Scratch, e: &Ending, fault: usize) {
    let prepare = |r: &mut Rng| {
        sc.reset();
        (e.setup)(sc);
        sc.put("tmp/decoy", b"somebody else's temporary file");
        let n: String = (0..16).map(|_| r.range(97, 122) as u8 as char).collect();
        sc.put(&format!("tmp/{n}"), b"another one");
        if std::fs::symlink_metadata(sc.path("dir/zz-closed")).is_err() {
            sc.own();
        } else {
            let p = sc.path("dir/zz-closed");
            sc.own();
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0));
        }
    };
    let (out, h, res_dir) = (sc.path("out"), sc.path("h"), sc.path("res"));
    let expected = move |p: &Path| p == out || p == h || p.starts_with(&res_dir);
    prepare(&mut o.rng);
    let before = trace::snapshot(&sc.w);
    let mut c = e.cmd.clone().traced().env("VT_NODATA", "1");
    if o.rng.chance(1, 5) {
        c = c.env("VT_SHORT", format!("{}:{}", o.rng.below(1 << 30), *o.rng.pick(&[200, 5000, 300_000])));
    }
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(x) => return o.inconclusive(x),
    };
    let d = |s: &str| format!("{}: {}: {s}; {}", e.what, c.text(), res.text());
    o.eval(&(&e.what, hash_of(&c.text()), hash_of(&format!("{before:?}"))), true);
    o.count(&format!("ended_{}", if res.ok() { "ok" } else { "error" }), 1);
    if res.crashed() {
        o.viol("crash", d("crashed"));
    }
    if e.succeeds.is_some_and(|s| s != res.ok()) {
        o.viol("outcome", d("not the expected outcome"));
    }
    judge_temps(o, sc, &res, &before, &expected, &d);
    if fault == 0 {
        return;
    }
    let ops: Vec<&Rec> = res.trace.iter().filter(|x| x.inside() && !matches!(x.kind, K::Close)).collect();
    let mut at = faults(&mut o.rng, ops.len(), fault);
    // some of them while the archive is still growing: a temporary file with part of it is left behind
    let mut len: BTreeMap<&Path, i64> = BTreeMap::new();
    let mut growing = vec![];
    for (k, x) in ops.iter().enumerate() {
        if x.kind == K::Write && x.ret > 0 && !expected(&x.path) {
            let l = len.entry(&x.path).or_insert(0);
            if x.a + x.ret > *l {
                if *l > 0 {
                    growing.push(k);
                }
                *l = x.a + x.ret;
            }
        }
    }
    if let Some(k) = growing.last() {
        at[0] = *k;
        let i = at.len() - 1;
        at[i] = *o.rng.pick(&growing);
        // and where it is finished
        at.push(*o.rng.pick(&growing[growing.len().saturating_sub(6)..]));
        at.push((k + o.rng.range(1, 4)).min(ops.len() - 1));
    }
    let n = at.len();
    for (j, k) in at.into_iter().enumerate() {
        if !o.time_left() {
            return;
        }
        let errno = *o.rng.pick(&ERRNOS);
        let errno = if errno == libc::EINTR && (j == 0 || j + 1 == n) { libc::ENOSPC } else { errno };
        let sticky = errno != libc::EINTR && o.rng.chance(1, 6);
        prepare(&mut o.rng);
        let before = trace::snapshot(&sc.w);
        let c = e.cmd.clone().traced().env("VT_NODATA", "1").env("VT_FAULT", format!("any:{k}:{errno}{}", if sticky { ":s" } else { "" }));
        let res = match c.run(sc) {
            Ok(r) => r,
            Err(x) => return o.inconclusive(x),
        };
        let hit = res.trace.iter().find(|x| x.injected());
        o.eval(&(&e.what, k, errno, sticky), hit.is_some());
        let d = |s: &str| format!("{}: {}: fault {}: {s}; {}", e.what, c.text(), hit.map_or("none".into(), Rec::brief), res.text());
        if hit.is_some() {
            o.count("faults_fired", 1);
        }
        if hit.is_some_and(|x| x.kind == K::Write && !expected(&x.path) && x.a > 0) {
            o.count("faults_in_a_growing_archive", 1);
        }
        if hit.is_some_and(|x| !expected(&x.path)) && e.what.starts_with("pack") && growing.len() > 3 && k >= growing[growing.len() - 4] && k <= growing[growing.len() - 1] + 3 {
            o.count("faults_while_finishing", 1);
        }
        if res.crashed() {
            o.viol("crash", d("crashed"));
        }
        judge_temps(o, sc, &res, &before, &expected, &d);
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "Each case ends a pack or unpack in a certain way (success, wrong key, damage, malformed archive, refused target, a fault at one system call) and \
        follows every temporary file through the recorded system calls; non-trivial: distinct (ending, trees, fault hit)."
        .into();
    ctx.min_evals = 200;
    ctx.need("temporary_files", 200);
    ctx.need("archives_followed", 150);
    ctx.need("faults_fired", 60);
    ctx.need("ended_error", 50);
    ctx.need("faults_in_a_growing_archive", 8);
    ctx.need("faults_while_finishing", 16);
    ctx.need("long_archives", 2);
    ctx.par(1, ctx.pick(18, 300), |o| {
        let sc = Scratch::new();
        let mut round = 0;
        if o.worker < 2 {
            let len = if o.thorough { 200 << 20 } else { 24 << 20 } + o.rng.below(9999);
            let es = long_endings(&mut o.rng, len);
            c19_case(o, &sc, &es[o.worker], 0);
            sc.reset();
        }
        while o.time_left() {
            let es = endings(&mut o.rng);
            for i in 0..es.len() {
                if o.time_left() && (round > 0 || o.mine(i)) {
                    let e = &es[i];
                    if round == 0 {
                        o.sample(|| e.what.clone());
                    }
                    c19_case(o, &sc, e, if round == 0 { 10 } else { 5 });
                }
            }
            round += 1;
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C32

/// Runs in an unprivileged child: random storage calls against a model of the tree.
/// Prints `V <sig> <detail>` for a violation and `C <name> <count>` at the end.
pub fn storage_script(seed: u64, steps: usize) {
    use tools::storage::{Entry, FileStorage, Storage};
    let mut r = Rng::new(seed);
    let stor = FileStorage;
    let w = std::env::current_dir().unwrap();
    let tmp = std::env::temp_dir();
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut temps: BTreeSet<PathBuf> = BTreeSet::new();
    // (names that are not Unicode are names as well)
    let bytes = |b: &[u8]| PathBuf::from(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(b));
    let mut pool: Vec<PathBuf> = [
        "a", "b", "c.txt", "d", "d/e", "d/f", "d/.h", "d/g/h", "d/g/.i", ".x", "k", "k/l", "k/l/m", "ro", "ro/in", "closed", "s1", "s2", "s3/t", "sdir/n", "ünï", "d/s4",
        "x y", "dp", "d/n~", "d/#o#", "d/p.tmp",
    ]
    .iter()
    .map(PathBuf::from)
    .collect();
    pool.extend([&b"b\xFF\xFE"[..], b"d/\x80z", b"k/\xC3("].map(bytes));
    let viol = |sig: &str, s: String| println!("V {sig} {}", s.replace('\n', " "));
    let show = |r: &Result<String, String>| format!("{r:?}");
    let world = |w: &Path| trace::snapshot(w);
    // lengths around 32 bits, of files with holes
    for len in [0x7fff_fffe_u64, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_8000_0007] {
        let p = w.join("long");
        if !std::fs::File::create(&p).and_then(|f| f.set_len(len)).is_ok() {
            continue;
        }
        for n in 0..3 {
            let e = match n {
                0 => stor.read_file(&p),
                1 => stor.read_dir(&stor.read_file(&w).unwrap()).map(|v| v.into_iter().find(|e| e.path() == p).unwrap()),
                _ => stor.write_file(&p).inspect(|e| {
                    use std::io::{Seek, SeekFrom, Write};
                    let mut s = e.try_writer().unwrap().borrow_mut();
                    let _ = s.seek(SeekFrom::Start(len - 1)).and_then(|_| s.write_all(b"x"));
                }),
            };
            let got = e.as_ref().ok().map(|e| stor.file_len(e).ok());
            *counts.entry("long_lengths").or_default() += 1;
            if got != Some(Some(len as usize)) {
                viol("long-length", format!("a file of {len} bytes opened in way {n}: {got:?} {:?}", e.err()));
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    for step in 0..steps {
        // the world is changed from outside as well
        if r.chance(1, 12) {
            let p = w.join(r.pick(&pool));
            match r.below(10) {
                9 => {
                    let d = w.join("dp").join("n/".repeat(r.range(5, 70)));
                    let _ = std::fs::create_dir_all(&d);
                    let _ = std::fs::write(d.join("bottom"), r.bytes(20));
                }
                0 => {
                    let _ = symlink(r.pick(&["a", "d", "nowhere", "../w/b", "k"]), w.join(r.pick(&["s1", "s2", "s3", "sdir", "d/s4"])));
                }
                1 => {
                    trace::force_remove(&p);
                }
                2 => {
                    let _ = std::fs::remove_file(&p);
                }
                3 => {
                    let _ = std::fs::write(&p, r.bytes(20));
                }
                4 => {
                    let _ = std::fs::create_dir(&p);
                }
                5 => {
                    let _ = std::fs::create_dir(w.join("ro"));
                    let _ = std::fs::write(w.join("ro/in"), b"in");
                    let _ = std::fs::set_permissions(w.join("ro"), std::fs::Permissions::from_mode(0o555));
                }
                6 => {
                    let _ = std::fs::write(w.join("closed"), b"closed");
                    let _ = std::fs::set_permissions(w.join("closed"), std::fs::Permissions::from_mode(*r.pick(&[0o000, 0o444, 0o200])));
                }
                7 => {
                    for s in ["s1", "s2", "s3", "sdir", "d/s4"] {
                        let _ = std::fs::remove_file(w.join(s));
                    }
                }
                _ => {
                    let _ = std::fs::set_permissions(w.join("ro"), std::fs::Permissions::from_mode(0o755));
                    trace::force_remove(&w.join("ro"));
                }
            }
        }
        let name = r.pick(&pool).clone();
        let style = r.below(4);
        let p = match style {
            0 => w.join(&name),
            1 => Path::new("./").join(&name),
            _ => name.clone(),
        };
        let abs = w.join(&name);
        let before = world(&w);
        let lst = std::fs::symlink_metadata(&abs).ok();
        let st = std::fs::metadata(&abs).ok();
        let is_dir = st.as_ref().is_some_and(std::fs::Metadata::is_dir);
        let parent = abs.parent().unwrap().to_path_buf();
        let writable = |d: &Path| {
            use std::os::unix::ffi::OsStrExt;
            let c = std::ffi::CString::new(d.as_os_str().as_bytes()).unwrap();
            unsafe { libc::access(c.as_ptr(), libc::W_OK | libc::X_OK) == 0 }
        };
        let openable = |how: i32| {
            use std::os::unix::ffi::OsStrExt;
            let c = std::ffi::CString::new(abs.as_os_str().as_bytes()).unwrap();
            unsafe {
                let fd = libc::open(c.as_ptr(), how | libc::O_CLOEXEC);
                if fd >= 0 {
                    libc::close(fd);
                }
                fd >= 0
            }
        };
        let op = r.below(11);
        let ctx = |s: &str| format!("step {step} of seed {seed}: {s} (tree {:?})", before.keys().map(|k| k.display().to_string()).collect::<Vec<_>>());
        let err = |e: tools::storage::Error| Err::<String, String>(format!("{e:?}"));
        let unchanged = |what: &str| {
            let x = trace::diff(&before, &world(&w));
            if !x.is_empty() {
                viol("changed", ctx(&format!("{what}: {}", x.join("; "))));
            }
        };
        match op {
            0 | 1 => {
                *counts.entry("create_file").or_default() += 1;
                let can = lst.is_none() && std::fs::metadata(&parent).is_ok_and(|m| m.is_dir()) && writable(&parent);
                match stor.create_file(&p) {
                    Ok(e) => {
                        if !can {
                            viol("create", ctx(&format!("create_file({}) succeeds although it exists or cannot be created", p.display())));
                        }
                        let n = r.below(40);
                        let data = r.bytes(n);
                        use std::io::Write;
                        if e.is_dir() || e.path() != p {
                            viol("entry", ctx(&format!("create_file({}) gives an entry for {}", p.display(), e.path().display())));
                        }
                        let cut = r.below(data.len() + 1);
                        let put = |d: &[u8]| e.try_writer().is_ok_and(|s| s.borrow_mut().write_all(d).is_ok());
                        let mut ok = put(&data[..cut]);
                        if stor.file_len(&e).ok() != Some(cut) {
                            viol("len", ctx(&format!("file_len {:?} of {cut} bytes just written", stor.file_len(&e))));
                        }
                        ok = ok && put(&data[cut..]) && stor.flush_file(&e).is_ok();
                        if !ok {
                            viol("create", ctx("cannot write to a new file"));
                        }
                        if stor.file_len(&e).ok() != Some(data.len()) {
                            viol("len", ctx(&format!("file_len {:?} of {} bytes just written", stor.file_len(&e), data.len())));
                        }
                        drop(e);
                        let mut want = before.clone();
                        let real = parent.canonicalize().unwrap().join(abs.file_name().unwrap());
                        want.insert(real.strip_prefix(w.canonicalize().unwrap()).unwrap().to_path_buf(), Node::File(data));
                        let x = trace::diff(&want, &world(&w));
                        if !x.is_empty() {
                            viol("create", ctx(&format!("create_file({}): {}", p.display(), x.join("; "))));
                        }
                    }
                    Err(e) => {
                        if can {
                            viol("create", ctx(&format!("create_file({}) fails: {e:?}", p.display())));
                        }
                        unchanged(&format!("refused create_file({})", p.display()));
                    }
                }
            }
            2 => {
                *counts.entry("create_dir_all").or_default() += 1;
                let got = stor.create_dir_all(&p);
                // every ancestor that exists is a directory, and the lowest one is writable
                let mut a = abs.as_path();
                while std::fs::symlink_metadata(a).is_err() {
                    a = a.parent().unwrap();
                }
                let can = std::fs::metadata(a).is_ok_and(|m| m.is_dir()) && (a == abs || writable(a));
                // (seen after the call: an existing directory is fine either way)
                let x = trace::diff(&before, &world(&w));
                match got {
                    Ok(()) => {
                        if !std::fs::metadata(&abs).is_ok_and(|m| m.is_dir()) {
                            viol("mkdir", ctx(&format!("create_dir_all({}) succeeds but there is no such directory", p.display())));
                        }
                        if x.iter().any(|l| !l.ends_with("is new (Dir)")) || x.len() > 3 {
                            viol("mkdir", ctx(&format!("create_dir_all({}): {}", p.display(), x.join("; "))));
                        }
                    }
                    Err(e) => {
                        if can {
                            viol("mkdir", ctx(&format!("create_dir_all({}) fails: {e:?}", p.display())));
                        }
                        unchanged(&format!("refused create_dir_all({})", p.display()));
                    }
                }
            }
            3 | 4 => {
                *counts.entry("read_file").or_default() += 1;
                let can = is_dir || openable(libc::O_RDONLY);
                let got = stor.read_file(&p).map(|e| {
                    let mut b = vec![];
                    let part = r.below(30);
                    if let Ok(s) = e.try_reader() {
                        use std::io::Read;
                        // asking for the length in between moves nothing
                        let _ = s.borrow_mut().by_ref().take(part as u64).read_to_end(&mut b);
                        let _ = stor.file_len(&e);
                        let _ = s.borrow_mut().read_to_end(&mut b);
                    }
                    let l = stor.file_len(&e).ok();
                    (e.is_dir(), e.path().to_path_buf(), b, l)
                });
                match got {
                    Ok((d, q, b, l)) => {
                        if !can {
                            viol("read", ctx(&format!("read_file({}) succeeds", p.display())));
                        }
                        if d != is_dir || q != p {
                            viol("entry", ctx(&format!("read_file({}) is a directory: {d}, path {}", p.display(), q.display())));
                        }
                        if !d && (std::fs::read(&abs).ok() != Some(b.clone()) || l != Some(b.len())) {
                            viol("read", ctx(&format!("read_file({}) reads {} with length {l:?}", p.display(), brief(&b))));
                        }
                        if d && l.is_some() {
                            viol("len", ctx("a directory has a length"));
                        }
                    }
                    Err(e) => {
                        if can {
                            viol("read", ctx(&format!("read_file({}) fails: {e:?}", p.display())));
                        }
                    }
                }
                unchanged(&format!("read_file({})", p.display()));
            }
            5 => {
                let over = r.chance(1, 2);
                let what = if over { "overwrite_file" } else { "write_file" };
                *counts.entry(what).or_default() += 1;
                let can = lst.is_some() && !is_dir && openable(libc::O_RDWR);
                let old = if over { std::fs::read(&abs).unwrap_or_default() } else { vec![] };
                match if over { stor.overwrite_file(&p) } else { stor.write_file(&p) } {
                    Ok(e) => {
                        use std::io::Write;
                        if !can {
                            viol("write", ctx(&format!("{what}({}) succeeds", p.display())));
                        }
                        if stor.file_len(&e).ok() != Some(old.len()) {
                            viol("len", ctx(&format!("the length after {what} is {:?}, should be {}", stor.file_len(&e), old.len())));
                        }
                        let n = r.below(40);
                        let mut data = r.bytes(n);
                        let ok = e.try_writer().is_ok_and(|s| s.borrow_mut().write_all(&data).is_ok()) && stor.flush_file(&e).is_ok();
                        if data.len() < old.len() {
                            data.extend_from_slice(&old[data.len()..]);
                        }
                        if !ok || stor.file_len(&e).ok() != Some(data.len()) {
                            viol("write", ctx(&format!("writing {} bytes to {}: ok {ok}, length {:?}", data.len(), p.display(), stor.file_len(&e))));
                        }
                        drop(e);
                        let Ok(real) = abs.canonicalize() else {
                            viol("write", ctx(&format!("{what}({}) succeeds, but there is no such file", p.display())));
                            continue;
                        };
                        let mut want = before.clone();
                        want.insert(real.strip_prefix(w.canonicalize().unwrap()).unwrap().to_path_buf(), Node::File(data));
                        let x = trace::diff(&want, &world(&w));
                        if !x.is_empty() {
                            viol("write", ctx(&format!("{what}({}): {}", p.display(), x.join("; "))));
                        }
                    }
                    Err(e) => {
                        if can {
                            viol("write", ctx(&format!("{what}({}) fails: {e:?}", p.display())));
                        }
                        unchanged(&format!("refused {what}({})", p.display()));
                    }
                }
            }
            6 => {
                // removing what was opened for writing
                *counts.entry("remove_file").or_default() += 1;
                if lst.as_ref().is_some_and(|m| m.file_type().is_symlink()) {
                    continue; // whether the link or its target is meant is not said
                }
                let e = match r.below(3) {
                    0 => stor.read_file(&p),
                    _ => stor.write_file(&p).or_else(|_| stor.create_file(&p)),
                };
                let Ok(e) = e else { continue };
                let dir = e.is_dir();
                let mid = world(&w);
                let got = stor.remove_file(e).map(|()| String::new()).or_else(err);
                let real = parent.canonicalize().unwrap().join(abs.file_name().unwrap());
                let rel = real.strip_prefix(w.canonicalize().unwrap()).unwrap().to_path_buf();
                if got.is_ok() {
                    if dir {
                        viol("remove", ctx(&format!("remove_file of the directory {} succeeds", p.display())));
                    }
                    let mut want = mid;
                    want.remove(&rel);
                    let x = trace::diff(&want, &world(&w));
                    if !x.is_empty() {
                        viol("remove", ctx(&format!("remove_file({}): {}", p.display(), x.join("; "))));
                    }
                } else {
                    let mut want = mid.clone();
                    let mut now = world(&w);
                    if !now.contains_key(&rel) {
                        viol("remove", ctx(&format!("remove_file({}) reports {} but it is gone", p.display(), show(&got))));
                    }
                    // a failed removal may have emptied the file
                    if now.get(&rel) == Some(&Node::File(vec![])) && mid.get(&rel).is_some_and(|n| matches!(n, Node::File(_))) {
                        want.remove(&rel);
                        now.remove(&rel);
                    }
                    let x = trace::diff(&want, &now);
                    if !x.is_empty() {
                        viol("remove", ctx(&format!("failed remove_file({}): {}", p.display(), x.join("; "))));
                    }
                }
            }
            7 => {
                *counts.entry("remove_dir_all").or_default() += 1;
                if lst.as_ref().is_some_and(|m| m.file_type().is_symlink()) {
                    // the link may go, but not what it leads to
                    let Ok(e) = stor.read_file(&p) else { continue };
                    *counts.entry("linked_directories_removed").or_default() += u64::from(e.is_dir());
                    let got = stor.remove_dir_all(e).map(|()| String::new()).or_else(err);
                    let mut want = before.clone();
                    let now = world(&w);
                    let link = parent.canonicalize().unwrap().join(abs.file_name().unwrap());
                    if std::fs::symlink_metadata(&link).is_err() {
                        want.remove(link.strip_prefix(w.canonicalize().unwrap()).unwrap());
                    }
                    let x = trace::diff(&want, &now);
                    if !x.is_empty() {
                        viol("rmdir", ctx(&format!("remove_dir_all({}), a link, {}: {}", p.display(), show(&got), x.join("; "))));
                    }
                    continue;
                }
                let Ok(e) = stor.read_file(&p) else { continue };
                let dir = e.is_dir();
                let real = abs.canonicalize().unwrap();
                let rel = real.strip_prefix(w.canonicalize().unwrap()).unwrap().to_path_buf();
                let got = stor.remove_dir_all(e).map(|()| String::new()).or_else(err);
                let rest = |t: trace::Tree| -> trace::Tree { t.into_iter().filter(|(p, _)| !p.starts_with(&rel)).collect() };
                let now = world(&w);
                if got.is_ok() && (!dir || now.contains_key(&rel)) {
                    viol("rmdir", ctx(&format!("remove_dir_all({}) succeeds; directory: {dir}, still there: {}", p.display(), now.contains_key(&rel))));
                }
                if got.is_err() && !now.contains_key(&rel) {
                    viol("rmdir", ctx(&format!("remove_dir_all({}) fails but it is gone", p.display())));
                }
                if !dir {
                    unchanged(&format!("refused remove_dir_all({})", p.display()));
                }
                let x = trace::diff(&rest(before.clone()), &rest(now));
                if !x.is_empty() {
                    viol("rmdir", ctx(&format!("remove_dir_all({}): {}", p.display(), x.join("; "))));
                }
            }
            8 | 9 => {
                *counts.entry("read_dir").or_default() += 1;
                let p = if r.chance(1, 3) { PathBuf::from(".") } else { p };
                let abs = w.join(&p);
                let Ok(e) = stor.read_file(&p) else { continue };
                let got = stor.read_dir(&e);
                if !e.is_dir() {
                    if got.is_ok() {
                        viol("list", ctx(&format!("read_dir of the file {}", p.display())));
                    }
                    unchanged("read_dir of a file");
                    continue;
                }
                let inside = trace::snapshot(&abs);
                // entries that cannot be opened make the listing fail
                let bad = std::fs::read_dir(&abs).is_err() || inside.keys().any(|k| {
                    let q = abs.join(k);
                    !std::fs::metadata(&q).is_ok_and(|m| if m.is_dir() { std::fs::read_dir(&q).is_ok() } else { std::fs::File::open(&q).is_ok() })
                });
                match got {
                    Ok(v) => {
                        *counts.entry("entries_listed").or_default() += v.len() as u64;
                        let mut seen: BTreeMap<PathBuf, (usize, bool)> = BTreeMap::new();
                        for e in &v {
                            let q = match e {
                                Entry::File(_) | Entry::Dir(_) => e.path(),
                            };
                            let rel = q.strip_prefix(&p).unwrap_or(q).to_path_buf();
                            let s = seen.entry(rel).or_insert((0, e.is_dir()));
                            s.0 += 1;
                        }
                        if seen.get(Path::new("")).is_some_and(|s| s.0 > 1 || !s.1) {
                            viol("list", ctx(&format!("read_dir({}) lists itself {:?}", p.display(), seen.get(Path::new("")))));
                        }
                        seen.remove(Path::new(""));
                        for k in inside.keys() {
                            let d = std::fs::metadata(abs.join(k)).is_ok_and(|m| m.is_dir());
                            if seen.get(k) != Some(&(1, d)) {
                                viol("list", ctx(&format!("read_dir({}): {} is listed {:?} (times, directory), should be once, {d}", p.display(), k.display(), seen.get(k))));
                            }
                        }
                        for k in seen.keys() {
                            if !inside.contains_key(k) {
                                viol("list", ctx(&format!("read_dir({}) lists {}, which does not exist", p.display(), k.display())));
                            }
                        }
                        // the streams of the entries belong to the right files
                        for e in &v {
                            if !e.is_dir() {
                                use std::io::Read;
                                let mut b = vec![];
                                let ok = e.try_reader().is_ok_and(|s| s.borrow_mut().read_to_end(&mut b).is_ok());
                                if !ok || std::fs::read(e.path()).ok() != Some(b) {
                                    viol("list", ctx(&format!("the entry {} has another content", e.path().display())));
                                }
                            }
                        }
                    }
                    Err(e) => {
                        if !bad {
                            viol("list", ctx(&format!("read_dir({}) fails: {e:?}", p.display())));
                        }
                    }
                }
                unchanged(&format!("read_dir({})", p.display()));
            }
            _ => {
                *counts.entry("create_temp_file").or_default() += 1;
                match stor.create_temp_file() {
                    Ok(e) => {
                        let q = e.path().to_path_buf();
                        if !temps.insert(q.clone()) {
                            viol("temp", ctx(&format!("the temporary name {} comes up again", q.display())));
                        }
                        let m = std::fs::symlink_metadata(&q);
                        let was = q.strip_prefix(&w).is_ok_and(|k| before.contains_key(k));
                        if !m.as_ref().is_ok_and(|m| m.is_file() && m.len() == 0 && m.permissions().mode() & 0o077 == 0) || !q.starts_with(&tmp) || was {
                            viol("temp", ctx(&format!("the temporary file {}: {m:?}, existed before: {was}", q.display())));
                        }
                        if r.chance(1, 2) {
                            if stor.remove_file(e).is_err() || q.exists() {
                                viol("temp", ctx("a temporary file cannot be removed"));
                            }
                            unchanged("create_temp_file and remove_file");
                        } else {
                            drop(e);
                            let _ = std::fs::remove_file(q);
                        }
                    }
                    Err(e) => viol("temp", ctx(&format!("create_temp_file fails: {e:?}"))),
                }
            }
        }
    }
    // many at once
    let names: Vec<PathBuf> = std::thread::scope(|s| {
        let h: Vec<_> = (0..6)
            .map(|_| {
                s.spawn(|| {
                    (0..30)
                        .map(|_| match FileStorage.create_temp_file() {
                            Ok(e) => e.path().to_path_buf(),
                            Err(e) => {
                                println!("V temp create_temp_file in a thread fails: {e:?}");
                                PathBuf::new()
                            }
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        h.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for n in names {
        if !n.as_os_str().is_empty() && !temps.insert(n.clone()) {
            viol("temp", format!("the temporary name {} comes up twice", n.display()));
        }
        let _ = std::fs::remove_file(n);
    }
    let stale = temps.iter().filter(|t| t.file_name().map_or(0, |n| n.len()) < 8).count();
    if stale > 0 {
        viol("temp", format!("{stale} temporary names are short"));
    }
    counts.insert("temporary_names", temps.len() as u64);
    for (k, v) in counts {
        println!("C {k} {v}");
    }
}

pub fn c32(ctx: &mut Ctx) {
    ctx.rule = "Each case is one storage call on a tree of files, links, hidden and read-only entries, judged by comparing the whole tree before and after with a \
        model of the call; walks are seeded. Non-trivial: distinct (walk, step)."
        .into();
    ctx.min_evals = 2000;
    for k in ["create_file", "create_dir_all", "read_file", "write_file", "remove_file", "remove_dir_all", "read_dir", "create_temp_file"] {
        ctx.need(k, 100);
    }
    ctx.need("entries_listed", 1000);
    ctx.need("temporary_names", 1000);
    ctx.need("long_lengths", 100);
    ctx.par(1, ctx.pick(7, 240), |o| {
        let sc = Scratch::new();
        while o.time_left() {
            sc.reset();
            let seed = o.rng.below(1 << 40) as u64;
            let steps = 400;
            let c = Cmd::drive(&["storage", &seed.to_string(), &steps.to_string()]);
            let res = match c.run(&sc) {
                Ok(r) => r,
                Err(e) => return o.inconclusive(e),
            };
            let t = String::from_utf8_lossy(&res.stdout).to_string();
            if !res.ok() {
                o.viol("crash", format!("{}: {}", c.text(), res.text()));
            }
            for l in t.lines() {
                if let Some(l) = l.strip_prefix("V ") {
                    let (s, d) = l.split_once(' ').unwrap_or((l, ""));
                    o.viol(s, d);
                } else if let Some(l) = l.strip_prefix("C ") {
                    let (k, n) = l.split_once(' ').unwrap_or((l, "0"));
                    o.count(k, n.parse().unwrap_or(0));
                }
            }
            for i in 0..steps {
                o.eval(&(seed, i), true);
            }
            o.sample(|| format!("a walk of {steps} calls with seed {seed}"));
        }
    });
}
