//! C28: operations that run at the same time do not interfere.
use crate::arch;
use crate::gen;
use crate::io::FileJob;
use crate::ops::*;
use crate::refimpl;
use crate::trace::{self, Cmd, Scratch, Tree};
use crate::util::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::{File, OpenOptions};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use tools::storage::{FileStorage, Storage};

// ---------------------------------------------------------------------------------------------
// the workload: threads of one process, each with jobs of its own, run in a child

/// Things all threads read.
struct Shared {
    stor: Arc<FileStorage>,
    tree: Tree,
    key: Vec<u8>,
    pt: Vec<u8>,
    values: Mutex<BTreeMap<Vec<u8>, &'static str>>,
    bad: Mutex<Vec<String>>,
    active: AtomicU64,
    max_active: AtomicU64,
    started: AtomicU64,
    overlaps: Mutex<BTreeSet<(String, String)>>,
    running: Mutex<BTreeMap<usize, String>>,
}

fn file(p: &Path) -> RefCell<File> {
    RefCell::new(File::open(p).unwrap_or_else(|e| panic!("{}: {e}", p.display())))
}
fn made(p: &Path) -> RefCell<File> {
    RefCell::new(OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap())
}
fn both(p: &Path) -> RefCell<File> {
    RefCell::new(OpenOptions::new().read(true).write(true).open(p).unwrap())
}

const KINDS: [&str; 16] = [
    "encrypt",
    "decrypt",
    "decrypt, wrong password",
    "pack",
    "unpack",
    "unpack, wrong password",
    "unpack, not an archive",
    "erase",
    "erase directory",
    "hash",
    "keys",
    "header",
    "unpack of a shared file",
    "pack of a shared tree",
    "decrypt of a shared file",
    "secrets",
];

fn small_alg(r: &mut Rng) -> (Alg, Kdf) {
    (gen::alg(r), gen::kdf(r))
}

fn job(sh: &Shared, r: &mut Rng, kind: usize, d: &Path, max: usize) -> Result<(), String> {
    use tools as t;
    let key = gen::password(r);
    let (alg, kdf) = small_alg(r);
    let len = if r.chance(1, 6) { gen::length(r, 2).min(max) } else { r.below(5000) };
    let pt = gen::content(r, len);
    let spec = Spec::new(alg, kdf);
    let seal = |r: &mut Rng, pt: &[u8]| {
        let m = refimpl::make(r, 5, alg, false, &[(0, kdf, key.clone())], pt);
        [m.header, m.body].concat()
    };
    let p = |n: &str| d.join(n);
    let put = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).unwrap();
    let get = |n: &str| std::fs::read(d.join(n)).unwrap_or_default();
    let want = |o: Out<()>| match o {
        Out::Ok(()) => Ok(()),
        x => Err(x.name()),
    };
    let refuse = |o: Out<()>| match o {
        Out::Err(_) => Ok(()),
        x => Err(format!("expected an error, got {}", x.name())),
    };
    let same = |a: &[u8], b: &[u8], what: &str| if a == b { Ok(()) } else { Err(format!("{what}: {} instead of {}", brief(a), brief(b))) };
    let pack = |files: Vec<&Path>, out: &Path| {
        let w = made(out);
        let mut v = vec![];
        for f in files {
            let e = sh.stor.read_file(f).map_err(|e| format!("{e:?}"))?;
            v.extend(sh.stor.read_dir(&e).map_err(|e| format!("{e:?}"))?);
        }
        want(guard(|| {
            t::pack::execute(
                sh.stor.clone(),
                t::pack::Request {
                    compress_files: v,
                    compression_method: if len % 2 == 0 { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Zstd },
                    writer: &w,
                    header_writer: None,
                    raw_key: prot(&key),
                    header_type: spec.header_type(),
                    hashing_algorithm: kdf.real(),
                },
            )
        }))
    };
    let unpack = |from: &Path, key: &[u8], out: &Path| {
        let r = file(from);
        guard(|| {
            t::unpack::execute(
                sh.stor.clone(),
                t::unpack::Request {
                    reader: &r,
                    header_reader: None,
                    raw_key: prot(key),
                    output_dir_path: out.to_path_buf(),
                    on_decrypted_header: None,
                    on_archive_info: None,
                    on_zip_file: None,
                },
            )
        })
    };
    match kind {
        0 => {
            put("in", &pt);
            let (i, o) = (file(&p("in")), made(&p("out")));
            want(guard(|| {
                t::encrypt::execute(t::encrypt::Request {
                    reader: &i,
                    writer: &o,
                    header_writer: None,
                    raw_key: prot(&key),
                    header_type: spec.header_type(),
                    hashing_algorithm: kdf.real(),
                })
            }))?;
            same(&refimpl::decode(None, &get("out"), &key)?, &pt, "content")
        }
        1 | 2 => {
            put("in", &seal(r, &pt));
            let (i, o) = (file(&p("in")), made(&p("out")));
            let k = if kind == 1 { key.clone() } else { [&key[..], b"x"].concat() };
            let res = guard(|| {
                t::decrypt::execute(t::decrypt::Request {
                    header_reader: None,
                    reader: &i,
                    writer: &o,
                    raw_key: prot(&k),
                    on_decrypted_header: None,
                })
            });
            if kind == 2 {
                return refuse(res);
            }
            want(res)?;
            same(&get("out"), &pt, "content")
        }
        3 => {
            let tree = arch::small_tree(r);
            arch::write_tree(&p("dir"), &tree);
            pack(vec![&p("dir")], &p("out"))?;
            let z = refimpl::decode(None, &get("out"), &key)?;
            arch::zip_equals(&z, &tree, p("dir").to_str().unwrap())
        }
        4 => {
            let tree = if r.chance(1, 3) { arch::tree(r, 60, 500, arch::name) } else { arch::small_tree(r) };
            put("in", &seal(r, &arch::zip_of(&tree, len % 2 == 0)));
            want(unpack(&p("in"), &key, &p("res")))?;
            arch::tree_equals(&p("res"), &tree)
        }
        5 => {
            let tree = arch::small_tree(r);
            put("in", &seal(r, &arch::zip_of(&tree, false)));
            refuse(unpack(&p("in"), b"another", &p("res")))
        }
        6 => {
            put("in", &seal(r, &pt));
            refuse(unpack(&p("in"), &key, &p("res")))
        }
        7 => {
            put("in", &pt);
            want(guard(|| {
                t::erase::execute(
                    sh.stor.clone(),
                    t::erase::Request {
                        path: p("in"),
                        passes: 1 + (len % 2) as i32,
                    },
                )
            }))?;
            if p("in").exists() {
                return Err("the file is still there".into());
            }
            Ok(())
        }
        8 => {
            let tree = if r.chance(1, 2) { arch::tree(r, 40, 3000, arch::name) } else { arch::small_tree(r) };
            arch::write_tree(&p("dir"), &tree);
            let entry = sh.stor.read_file(p("dir")).map_err(|e| format!("{e:?}"))?;
            want(guard(|| t::erase_dir::execute(sh.stor.clone(), t::erase_dir::Request { entry, passes: 1 })))?;
            if p("dir").exists() {
                return Err("the directory is still there".into());
            }
            Ok(())
        }
        9 => {
            put("in", &pt);
            let h = |f: &Path| {
                guard(|| {
                    t::hash::execute(
                        t::hasher::Blake3Hasher::default(),
                        t::hash::Request {
                            reader: RefCell::new(File::open(f).unwrap()),
                        },
                    )
                })
            };
            for (f, c) in [(p("in"), &pt), (PathBuf::from("shared/plain"), &sh.pt)] {
                match h(&f) {
                    Out::Ok(x) => same(x.as_bytes(), blake3::hash(c).to_hex().as_bytes(), "digest")?,
                    x => return Err(x.name()),
                }
            }
            Ok(())
        }
        10 => {
            put("in", &seal(r, &pt));
            let k2 = [&key[..], b"2"].concat();
            let k3 = [&key[..], b"3"].concat();
            let verify = |k: &[u8]| {
                let h = both(&p("in"));
                guard(|| t::key::verify::execute(t::key::verify::Request { handle: &h, raw_key: prot(k) }))
            };
            let h = both(&p("in"));
            want(guard(|| {
                t::key::add::execute(t::key::add::Request {
                    handle: &h,
                    raw_key_old: prot(&key),
                    raw_key_new: prot(&k2),
                    hash_algorithm: Kdf::Balloon(5).real(),
                })
            }))?;
            want(verify(&key))?;
            want(verify(&k2))?;
            let h = both(&p("in"));
            want(guard(|| {
                t::key::change::execute(t::key::change::Request {
                    handle: &h,
                    raw_key_old: prot(&key),
                    raw_key_new: prot(&k3),
                    hash_algorithm: Kdf::Argon(3).real(),
                })
            }))?;
            refuse(verify(&key))?;
            want(verify(&k2))?;
            let h = both(&p("in"));
            want(guard(|| t::key::delete::execute(t::key::delete::Request { handle: &h, raw_key_old: prot(&k2) })))?;
            refuse(verify(&k2))?;
            same(&refimpl::decode(None, &get("in"), &k3)?, &pt, "content")
        }
        11 => {
            let whole = seal(r, &pt);
            put("in", &whole);
            let (a, b) = (file(&p("in")), made(&p("hdr")));
            want(guard(|| t::header::dump::execute(t::header::dump::Request { reader: &a, writer: &b })))?;
            let a = both(&p("in"));
            want(guard(|| t::header::strip::execute(t::header::strip::Request { handle: &a })))?;
            same(&get("in")[..416], &[0; 416], "stripped header")?;
            let (a, b) = (file(&p("hdr")), both(&p("in")));
            want(guard(|| t::header::restore::execute(t::header::restore::Request { reader: &a, writer: &b })))?;
            same(&get("in"), &whole, "restored file")
        }
        12 => {
            want(unpack(Path::new("shared/packed"), &sh.key, &p("res")))?;
            arch::tree_equals(&p("res"), &sh.tree)
        }
        13 => {
            pack(vec![Path::new("shared/dir")], &p("out"))?;
            let z = refimpl::decode(None, &get("out"), &key)?;
            arch::zip_equals(&z, &sh.tree, "shared/dir")
        }
        14 => {
            // the same file and keys in several threads, right and wrong ones mixed
            for i in 0..8 {
                let k = match r.below(3) {
                    0 => sh.key.clone(),
                    1 => [&sh.key[..], b"2"].concat(),
                    _ => [&sh.key[..], b"3"].concat(),
                };
                let right = k.last() != Some(&b'3') || k == sh.key;
                let name = format!("out{i}");
                let (x, w) = (file(Path::new("shared/sealed")), made(&p(&name)));
                let res = guard(|| {
                    t::decrypt::execute(t::decrypt::Request {
                        header_reader: None,
                        reader: &x,
                        writer: &w,
                        raw_key: prot(&k),
                        on_decrypted_header: None,
                    })
                });
                if right {
                    want(res)?;
                    same(&get(&name), &sh.pt, "content")?;
                } else {
                    refuse(res)?;
                    same(&get(&name), b"", "content")?;
                }
            }
            Ok(())
        }
        _ => {
            let salt = corecrypto::primitives::gen_salt().to_vec();
            let nonce = corecrypto::primitives::gen_nonce(&alg.real(), &corecrypto::primitives::Mode::MemoryMode);
            let mk = corecrypto::primitives::gen_master_key().expose().to_vec();
            let words = corecrypto::key::generate_passphrase(&8).expose().clone().into_bytes();
            let mut v = sh.values.lock().unwrap();
            for (x, n) in [(salt, "salt"), (nonce, "nonce"), (mk, "master key"), (words, "passphrase")] {
                if let Some(o) = v.insert(x.clone(), n) {
                    return Err(format!("{n} {} was drawn twice (before as {o})", hex(&x)));
                }
            }
            Ok(())
        }
    }
}

/// vmon drive conc <seed> <threads> <rounds> <max length>; works in the current directory
pub fn child(a: &[&str]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, threads, rounds, max) = (n(0), n(1) as usize, n(2), n(3) as usize);
    let mut r = Rng::new(seed);
    let key = gen::password(&mut r);
    let tree = arch::small_tree(&mut r);
    let pt = r.bytes(70_000);
    std::fs::create_dir_all("shared").unwrap();
    arch::write_tree(Path::new("shared/dir"), &tree);
    std::fs::write("shared/plain", &pt).unwrap();
    let m = refimpl::make(&mut r, 5, Alg::X, false, &[(0, Kdf::Balloon(5), key.clone())], &arch::zip_of(&tree, true));
    std::fs::write("shared/packed", [m.header, m.body].concat()).unwrap();
    let two = [(0, Kdf::Argon(3), key.clone()), (2, Kdf::Balloon(5), [&key[..], b"2"].concat())];
    let m = refimpl::make(&mut r, 5, Alg::A, false, &two, &pt);
    std::fs::write("shared/sealed", [m.header, m.body].concat()).unwrap();
    let before = trace::snapshot(Path::new("shared"));
    let sh = Shared {
        stor: Arc::new(FileStorage),
        tree,
        key,
        pt,
        values: Mutex::new(BTreeMap::new()),
        bad: Mutex::new(vec![]),
        active: AtomicU64::new(0),
        max_active: AtomicU64::new(0),
        started: AtomicU64::new(0),
        overlaps: Mutex::new(BTreeSet::new()),
        running: Mutex::new(BTreeMap::new()),
    };
    let barrier = Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let mut r = r.fork();
            let (sh, barrier) = (&sh, &barrier);
            s.spawn(move || {
                for round in 0..rounds {
                    // some rounds all do the same, most do not
                    let same = (round % 3 == 0).then_some((round / 3) as usize % KINDS.len());
                    barrier.wait();
                    for j in 0..2 {
                        let kind = same.unwrap_or_else(|| r.below(KINDS.len()));
                        let d = PathBuf::from(format!("t{t}/{round}-{j}"));
                        std::fs::create_dir_all(&d).unwrap();
                        let now = sh.active.fetch_add(1, Ordering::SeqCst) + 1;
                        sh.max_active.fetch_max(now, Ordering::SeqCst);
                        sh.started.fetch_add(1, Ordering::SeqCst);
                        {
                            let mut run = sh.running.lock().unwrap();
                            let mut o = sh.overlaps.lock().unwrap();
                            for k in run.values() {
                                let (a, b) = (k.clone(), KINDS[kind].to_string());
                                o.insert(if a < b { (a, b) } else { (b, a) });
                            }
                            run.insert(t, KINDS[kind].to_string());
                        }
                        if let Err(e) = job(sh, &mut r, kind, &d, max) {
                            let run: Vec<String> = sh.running.lock().unwrap().values().cloned().collect();
                            sh.bad.lock().unwrap().push(format!("{}: {e} (at the same time: {})", KINDS[kind], run.join(", ")));
                        }
                        sh.running.lock().unwrap().remove(&t);
                        sh.active.fetch_sub(1, Ordering::SeqCst);
                        let _ = std::fs::remove_dir_all(&d);
                    }
                }
            });
        }
    });
    let x = trace::diff(&before, &trace::snapshot(Path::new("shared")));
    let mut bad = sh.bad.into_inner().unwrap();
    if !x.is_empty() {
        bad.push(format!("what all read was changed: {}", x.join("; ")));
    }
    if let Ok(d) = std::fs::read_dir(std::env::temp_dir()) {
        let left: Vec<String> = d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| n != "precious").collect();
        if !left.is_empty() {
            bad.push(format!("left in the temporary directory: {}", left.join(", ")));
        }
    }
    if std::fs::read(std::env::temp_dir().join("precious")).ok().as_deref() != Some(b"precious") {
        bad.push("another file of the temporary directory was touched".into());
    }
    println!("JOBS {}", sh.started.load(Ordering::SeqCst));
    println!("MAX {}", sh.max_active.load(Ordering::SeqCst));
    println!("PAIRS {}", sh.overlaps.into_inner().unwrap().len());
    for b in bad.iter().take(20) {
        println!("BAD {}", b.replace('\n', " "));
    }
    println!("END");
    0
}

fn threads_run(o: &mut Obs, sc: &Scratch, tsan: bool, threads: usize, rounds: u64, max: usize) {
    sc.reset();
    sc.put("tmp/precious", b"precious");
    sc.own();
    let seed = o.rng.u64() >> 16;
    let args = ["conc".to_string(), seed.to_string(), threads.to_string(), rounds.to_string(), max.to_string()];
    let mut c = Cmd::drive(&args);
    if tsan {
        c.prog = trace::bins().dir.join("vmon-tsan");
        c = c.env("TSAN_OPTIONS", "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0");
    } else if o.rng.chance(2, 3) {
        // uneven speed: every file operation waits a little
        c = c.traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").env("VT_DELAY", format!("{}:{}", o.rng.below(100_000), *o.rng.pick(&[50, 300, 1500])));
    }
    c.timeout = 400;
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    let text = String::from_utf8_lossy(&res.stdout).into_owned();
    let err = String::from_utf8_lossy(&res.stderr).into_owned();
    let num = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(0);
    let pre = if tsan { "race_detector_" } else { "threaded_" };
    o.eval(&(seed, tsan), true);
    o.evals += num("JOBS ").saturating_sub(1);
    o.count(&format!("{pre}jobs"), num("JOBS "));
    o.count(&format!("{pre}processes"), 1);
    o.max("max_active", num("MAX "));
    o.max(&format!("max_{pre}kinds_overlapping"), num("PAIRS "));
    o.distinct.extend((0..num("JOBS ")).map(|i| hash_of(&(seed, i))));
    let d = |s: &str| format!("{}: {s}", c.text());
    let mut failed = false;
    for l in text.lines().filter_map(|l| l.strip_prefix("BAD ")) {
        failed = true;
        o.viol("interference", d(l));
    }
    if tsan && err.contains("WARNING: ThreadSanitizer") {
        failed = true;
        let at = err.find("WARNING: ThreadSanitizer").unwrap();
        o.viol("data-race", d(&err[at..].chars().take(3000).collect::<String>()));
    }
    if !failed && !text.contains("\nEND") {
        if res.signal == Some(libc::SIGKILL) && !res.timed_out {
            o.inconclusive(format!("the workload was killed: {}", res.text()));
        } else {
            o.viol(if res.timed_out { "hang" } else { "crash" }, d(&res.text()));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// several processes at once, with one directory for temporary files

fn processes(o: &mut Obs, sc: &Scratch, js: &[FileJob], pick: &[usize]) {
    // `sc` holds the shared directory; each job has a place of its own
    let shared = sc.path("tmp");
    sc.reset();
    sc.put("tmp/precious", b"precious");
    sc.own();
    std::fs::set_permissions(&shared, std::os::unix::fs::PermissionsExt::from_mode(0o777)).unwrap();
    let own: Vec<Scratch> = pick.iter().map(|_| Scratch::new()).collect();
    let delay = *o.rng.pick(&[0, 100, 800, 3000]);
    let seed = o.rng.below(1 << 20);
    let cmds: Vec<Cmd> = pick
        .iter()
        .enumerate()
        .map(|(i, j)| {
            let c = js[*j].cmd.clone().traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").env("VT_ROOT", "/tmp").env("TMPDIR", &shared);
            if delay > 0 {
                c.env("VT_DELAY", format!("{}:{delay}", seed + i))
            } else {
                c
            }
        })
        .collect();
    for (s, j) in own.iter().zip(pick) {
        (js[*j].setup)(s);
        s.own();
    }
    let barrier = Barrier::new(pick.len());
    let results: Vec<Result<trace::Res, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = cmds
            .iter()
            .zip(&own)
            .map(|(c, sc)| {
                let b = &barrier;
                s.spawn(move || {
                    b.wait();
                    c.run(sc)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let names: Vec<&str> = pick.iter().map(|j| js[*j].name.as_str()).collect();
    o.eval(&(names.clone(), delay, seed), true);
    o.count("process_groups", 1);
    let mut temps: BTreeMap<PathBuf, usize> = BTreeMap::new();
    for (i, (r, j)) in results.iter().zip(pick).enumerate() {
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                o.inconclusive(e.clone());
                continue;
            }
        };
        o.count("processes", 1);
        let d = |s: &str| format!("{} at the same time as {names:?}, {}: {s}; {}", js[*j].name, cmds[i].text(), r.text());
        if r.crashed() {
            o.viol("crash", d("crashed"));
        } else if !r.ok() {
            o.viol("interference", d("fails"));
        } else if let Err(e) = (js[*j].complete)(&own[i], r) {
            o.viol("interference", d(&e));
        }
        for x in &r.trace {
            if !x.modifies() || x.ret < 0 || x.injected() {
                continue;
            }
            if x.path.starts_with(&shared) {
                if x.created() {
                    o.count("temporary_files", 1);
                    if let Some(k) = temps.insert(x.path.clone(), i) {
                        if k != i {
                            o.viol("temp-shared", d(&format!("two processes use {}", x.path.display())));
                        }
                    }
                } else if temps.get(&x.path) != Some(&i) {
                    o.viol("temp-of-another", d(&x.brief()));
                }
            } else if x.path.starts_with("/tmp") && !x.path.starts_with(&own[i].w) {
                o.viol("elsewhere", d(&x.brief()));
            }
        }
    }
    let left: Vec<String> = trace::snapshot(&shared).keys().map(|p| p.display().to_string()).filter(|n| n != "precious").collect();
    if !left.is_empty() {
        o.viol("temp-left", format!("{names:?} left {left:?} in the temporary directory"));
    }
    if sc.get("tmp/precious").as_deref() != Some(b"precious") {
        o.viol("temp-of-another", format!("{names:?} touched another file of the temporary directory"));
    }
}

pub fn c28(ctx: &mut Ctx) {
    ctx.rule = "Threads of one process run generated jobs of all kinds at the same time, each judged by the oracle for its kind (so that it must give what it gives \
        alone), with injected delays, and under ThreadSanitizer with an instrumented standard library; erasing a directory and unpacking run under Miri with several schedules; groups of processes with one temporary directory are monitored \
        likewise. Non-trivial: every job that ran beside others."
        .into();
    ctx.assumptions.push("ThreadSanitizer sees the accesses of the schedules that ran; native zstd is instrumented too.".into());
    ctx.min_evals = 500;
    ctx.need("threaded_jobs", 300);
    ctx.need("race_detector_jobs", 150);
    ctx.need("processes", 60);
    ctx.need("miri_runs", 4);
    ctx.need("temporary_files", 20);
    ctx.need("max_active", 4);
    ctx.need("max_threaded_kinds_overlapping", 60);
    let tsan = root().join("target/tsan/x86_64-unknown-linux-gnu/release/vmon");
    let to = trace::bins().dir.join("vmon-tsan");
    if std::fs::copy(&tsan, &to).is_err() {
        ctx.single(9, 1, |o| o.inconclusive("there is no build for the race detector"));
        return;
    }
    let quick = !ctx.thorough;
    ctx.par_n(3, 1, ctx.pick(7, 300), |o| {
        let sc = Scratch::new();
        loop {
            let th = *o.rng.pick(&[2, 4, 8, 12]);
            threads_run(o, &sc, false, th, if quick { 46 } else { 90 }, 3 << 20);
            if !o.time_left() {
                break;
            }
        }
    });
    ctx.par_n(3, 2, ctx.pick(8, 400), |o| {
        let sc = Scratch::new();
        loop {
            let th = *o.rng.pick(&[3, 4, 6]);
            threads_run(o, &sc, true, th, if quick { 15 } else { 90 }, 1100 << 10);
            if !o.time_left() {
                break;
            }
        }
    });
    // other schedules than the machine gives, and memory as weak as the language allows
    let (base, each) = (ctx.seed, ctx.pick(1u64, 12));
    ctx.par_n(8, 4, ctx.pick(1, 300), |o| {
        for i in 0..each {
            let part = if o.worker % 2 == 0 { "threads" } else { "unpack" };
            crate::ub::miri(o, part, i, base * 1009 + i * 8 + o.worker as u64, 300);
            if !o.time_left() {
                break;
            }
        }
    });
    ctx.par_n(3, 3, ctx.pick(5, 250), |o| {
        let sc = Scratch::new();
        let mut n = 0usize;
        while o.time_left() || n < 4 {
            let js = crate::io::jobs(&mut o.rng);
            let count = o.rng.range(3, 7);
            // those with temporary files more often
            let temp: Vec<usize> = (0..js.len()).filter(|i| js[*i].name.contains("pack")).collect();
            let pick: Vec<usize> = (0..count).map(|_| if n % 2 == 0 || o.rng.chance(1, 2) { *o.rng.pick(&temp) } else { o.rng.below(js.len()) }).collect();
            o.sample(|| format!("processes at once: {:?}", pick.iter().map(|i| js[*i].name.as_str()).collect::<Vec<_>>()));
            processes(o, &sc, &js, &pick);
            n += 1;
        }
    });
}
