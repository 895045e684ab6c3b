//! C11: no memory error and no undefined behaviour.
use crate::api::Api;
use crate::arch;
use crate::gen;
use crate::io::FileJob;
use crate::monio::*;
use crate::ops::*;
use crate::refimpl;
use crate::robust;
use crate::trace::{self, Cmd, Res, Scratch};
use crate::util::*;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// the instrumented child: vmon drive ub <seed> <cases> <round trips> <max length>

/// Lets everything that was produced leave the process, where memcheck looks at it.
fn leave(b: &[u8]) {
    use std::io::Write;
    if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        let _ = f.write_all(b);
    }
}

fn round_trip(r: &mut Rng, max: usize) -> usize {
    let key = gen::password(r);
    let len = match r.below(4) {
        0 => gen::length(r, 2).min(max),
        1 => *r.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]),
        _ => r.below(6000.min(max)),
    };
    let pt = gen::content(r, len);
    let mut spec = Spec::new(gen::alg(r), gen::kdf(r));
    spec.detached = r.chance(1, 3);
    let (file, out) = (MonIo::new(pt.clone()).plan(gen::chunk(r, len), gen::chunk(r, len)), MonIo::empty());
    let head = MonIo::empty();
    let _ = encrypt_io(spec, &key, &file, &out, spec.detached.then_some(&head));
    let (body, head) = (out.data(), head.data());
    leave(&body);
    leave(&head);
    let back = MonIo::empty();
    let h = MonIo::new(head.clone());
    let _ = decrypt_io(spec.detached.then_some(&h), &MonIo::new(body.clone()), &back, &key);
    leave(&back.data());
    let _ = hash(&MonIo::new(pt));
    let all = MonIo::new([&head[..], &body].concat());
    for k in 0..r.below(3) {
        let _ = key_add(&all, &key, &[k as u8 + 1], gen::kdf(r));
    }
    let _ = key_change(&all, &key, b"changed", gen::kdf(r));
    let _ = key_verify(&all, b"changed");
    let _ = key_delete(&all, b"changed");
    let d = MonIo::empty();
    let _ = dump(&all, &d);
    let _ = strip(&all);
    let _ = restore(&d, &all);
    leave(&all.data());
    leave(&d.data());
    let w = MonIo::new(vec![7; r.below(3000)]);
    let _ = overwrite(&w, r.below(3000), r.range(0, 2) as i32);
    leave(&w.data());
    let words = r.range(0, 12) as i32;
    leave(corecrypto::key::generate_passphrase(&words).expose().as_bytes());
    leave(&corecrypto::primitives::gen_salt());
    leave(&corecrypto::primitives::gen_nonce(&spec.alg.real(), &corecrypto::primitives::Mode::StreamMode));
    leave(corecrypto::primitives::gen_master_key().expose());
    len
}

pub fn child(a: &[&str]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, cases, trips, max) = (n(0), n(1), n(2), n(3) as usize);
    let mut o = Ctx::new("C11").obs(3600, 0);
    o.rng = Rng::new(seed);
    let mut bytes = 0;
    for _ in 0..cases {
        robust::fuzz(&mut o);
    }
    for _ in 0..trips {
        bytes += round_trip(&mut o.rng, max);
    }
    let mut calls = 0;
    for _ in 0..1 + cases / 4 {
        let r = &mut o.rng;
        let mut api = Api {
            below: &mut |n| r.below(n),
            run: &|f| {
                let _ = guard(|| {
                    f();
                    Ok::<(), ()>(())
                });
            },
            leave: &leave,
            calls: 0,
        };
        api.exercise(6, true);
        calls += api.calls;
    }
    println!("API {calls}");
    println!("OPS {}", o.counts.get("operations").copied().unwrap_or(0) + trips * 10);
    println!("BYTES {bytes}");
    println!("END");
    0
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Tool {
    Asan,
    Memcheck,
}

fn under(tool: Tool, mut c: Cmd) -> Cmd {
    let is_cli = c.prog.ends_with("volaris-cli");
    let dir = &trace::bins().dir;
    c.trace = false;
    c.timeout = 300;
    match tool {
        Tool::Asan => {
            c.prog = dir.join(if is_cli { "volaris-cli-asan" } else { "vmon-asan" });
            c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1")
        }
        Tool::Memcheck => {
            let prog = std::mem::replace(&mut c.prog, "/usr/bin/valgrind".into());
            let args = std::mem::take(&mut c.args);
            c.args = ["-q", "--tool=memcheck", "--leak-check=no", "--error-exitcode=67", "--main-stacksize=33554432"].iter().map(Into::into).collect();
            c.args.push(prog.into_os_string());
            c.args.extend(args);
            c
        }
    }
}

/// What the instrumentation or the processor says about a finished run.
fn verdict(r: &Res) -> Option<String> {
    let err = String::from_utf8_lossy(&r.stderr);
    for m in ["ERROR: AddressSanitizer", "unsafe precondition(s) violated", "== Conditional jump", "== Use of uninit", "== Invalid ", "== Syscall param", "== Source and destination overlap", "== Mismatched free", "== Process terminating with default action of signal 11"] {
        if let Some(at) = err.find(m) {
            return Some(err[at..].chars().take(2500).collect());
        }
    }
    if matches!(r.signal, Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP)) || matches!(r.code, Some(66 | 67)) {
        return Some(r.text());
    }
    None
}

fn judge(o: &mut Obs, tool: Tool, what: &str, c: &Cmd, sc: &Scratch) -> Option<Res> {
    let name = if tool == Tool::Asan { "asan" } else { "memcheck" };
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => {
            o.inconclusive(e);
            return None;
        }
    };
    o.count(&format!("{name}_processes"), 1);
    if let Some(v) = verdict(&r) {
        o.viol(if tool == Tool::Asan { "asan" } else { "memcheck" }, format!("{what}: {}: {v}", c.text()));
    } else if r.timed_out || (r.signal == Some(libc::SIGKILL)) {
        o.inconclusive(format!("{what} under {name} did not come to an end: {}", r.text()));
    }
    Some(r)
}

fn inner(o: &mut Obs, sc: &Scratch, tool: Tool, cases: u64, trips: u64, max: usize) {
    let seed = o.rng.u64() >> 16;
    let args = ["ub".to_string(), seed.to_string(), cases.to_string(), trips.to_string(), max.to_string()];
    let c = under(tool, Cmd::drive(&args));
    if let Some(r) = judge(o, tool, "generated operations", &c, sc) {
        let t = String::from_utf8_lossy(&r.stdout).into_owned();
        let num = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(0);
        let name = if tool == Tool::Asan { "asan" } else { "memcheck" };
        o.count(&format!("{name}_operations"), num("OPS "));
        o.count(&format!("{name}_bytes_encrypted"), num("BYTES "));
        o.count(&format!("{name}_direct_calls"), num("API "));
        for i in 0..cases + trips {
            o.eval(&(seed, i, name), true);
        }
    }
}

fn files(o: &mut Obs, sc: &Scratch, tool: Tool, j: &FileJob) {
    sc.reset();
    (j.setup)(sc);
    sc.own();
    let c = under(tool, j.cmd.clone());
    let tag = o.rng.u64();
    o.eval(&(j.name.clone(), tool == Tool::Asan, tag), true);
    o.sample(|| format!("{}: {}", j.name, c.text()));
    if let Some(r) = judge(o, tool, &j.name, &c, sc) {
        if r.ok() {
            o.count("file_jobs_successful", 1);
        }
    }
}

/// Unpacking of hostile archives, most of all hostile compressed data.
fn archives(o: &mut Obs, sc: &Scratch, tool: Tool, n: usize) {
    sc.reset();
    let mut args: Vec<String> = vec!["unpack_many".into(), hex(b"key")];
    let sys = robust::systematic(&mut o.rng);
    for i in 0..n {
        let zip = match o.rng.below(4) {
            0 => sys[o.rng.below(sys.len())].zip.clone(),
            1 => robust::random_archive(&mut o.rng).zip,
            _ => {
                // damage within the compressed data
                let len = match o.rng.below(4) {
                    0 => o.rng.below(200_000),
                    _ => o.rng.below(4000),
                };
                let d = match o.rng.below(3) {
                    0 => gen::content(&mut o.rng, len),
                    1 => (0..len).map(|i| b"the quick brown fox jumps"[(i * 7 + i / 90) % 25]).collect(),
                    _ => (0..len).map(|_| (o.rng.below(4) * o.rng.below(9)) as u8).collect(),
                };
                let mut t = trace::Tree::new();
                t.insert("z".into(), trace::Node::File(d));
                let mut z = arch::zip_of(&t, true);
                let at = 30 + u16::from_le_bytes([z[26], z[27]]) as usize + u16::from_le_bytes([z[28], z[29]]) as usize;
                let size = z.len().saturating_sub(at + 60).max(1);
                for _ in 0..o.rng.range(1, 6) {
                    let p = at + if o.rng.chance(1, 2) { o.rng.below(size.min(24)) } else { o.rng.below(size) };
                    let p = p.min(z.len() - 1);
                    match o.rng.below(3) {
                        0 => z[p] ^= 1 << o.rng.below(8),
                        1 => z[p] = o.rng.u64() as u8,
                        _ => z[p] = *o.rng.pick(&[0, 0xFF, 0x7F, 0x80]),
                    }
                }
                o.count("damaged_compressed_streams", 1);
                z
            }
        };
        let zip = if zip.len() > 300_000 { zip[..300_000].to_vec() } else { zip };
        o.eval(&zip, true);
        let m = refimpl::make(&mut o.rng, 5, Alg::X, false, &[(0, Kdf::Argon(3), b"key".to_vec())], &zip);
        sc.put(&format!("in{i}"), &[m.header, m.body].concat());
        args.push(i.to_string());
    }
    sc.own();
    let c = under(tool, Cmd::drive(&args).env("VMON_LIMIT", "files"));
    let before = o.viols.len();
    if let Some(r) = judge(o, tool, "unpacking", &c, sc) {
        let done = String::from_utf8_lossy(&r.stdout).lines().filter(|l| l.starts_with(|c: char| c.is_ascii_digit())).count();
        o.count(if tool == Tool::Asan { "asan_archives" } else { "memcheck_archives" }, done as u64);
        if o.viols.len() > before {
            // the archive it happened on
            if let Some(b) = sc.get(&format!("in{done}")) {
                let l = o.viols.len() - 1;
                let extra = format!(" (the packed file, password \"key\": {})", hex(&b[..b.len().min(3000)]));
                o.viols[l].detail.push_str(&extra);
            }
        }
    }
}

/// Runs a part of the Miri program; returns whether it came to its end.
pub fn miri(o: &mut Obs, part: &str, seed: u64, mseed: u64, limit: u64) -> bool {
    let sc = Scratch::new();
    let dir = sc.w.join("a/b/c");
    std::fs::create_dir_all(&dir).unwrap();
    let out = sc.top.join("miri.out");
    let err = sc.top.join("miri.err");
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "-q", "--offline", "--target-dir"])
        .arg(root().join("target/miri"))
        .args(["--", part, &seed.to_string()])
        .arg(&dir)
        .current_dir(root().join("mirix"))
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-preemption-rate=0.05 -Zmiri-seed={mseed}"))
        .env("MIRI_SYSROOT", root().join("target/miri-sysroot"))
        .env("TMPDIR", &dir)
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUSTFLAGS")
        .stdin(std::process::Stdio::null())
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(std::fs::File::create(&err).unwrap());
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            o.inconclusive(format!("cannot start Miri: {e}"));
            return false;
        }
    };
    let start = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break Some(st),
            Ok(None) if start.elapsed() > Duration::from_secs(limit) => {
                unsafe {
                    libc::kill(-(ch.id() as i32), libc::SIGKILL);
                }
                let _ = ch.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(50)),
            Err(_) => break None,
        }
    };
    let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let (t, e) = (read(&out), read(&err));
    o.eval(&("miri", part, seed, mseed), true);
    o.max(&format!("max_miri_{part}_seconds"), start.elapsed().as_secs());
    let d = || format!("Miri, {part} {seed}, schedule {mseed}: {}", e.lines().filter(|l| !l.starts_with("warning")).collect::<Vec<_>>().join("\n").chars().take(2500).collect::<String>());
    if e.contains("Data race detected") {
        o.viol("data-race", d());
    } else if e.contains("Undefined Behavior") {
        o.viol("undefined-behaviour", d());
    } else if t.contains(&format!("DONE {part}")) {
        o.count("miri_runs", 1);
        o.count(&format!("miri_{part}"), 1);
        return true;
    } else if e.contains("the evaluated program deadlocked") {
        o.viol("deadlock", d());
    } else if e.contains("panicked at") || e.contains("unsupported operation") {
        // wrong results and crashes are for other checks to judge
        o.count("miri_runs_cut_short", 1);
        o.sample(|| d().chars().take(400).collect());
    } else {
        o.inconclusive(format!("Miri gave no answer ({st:?}): {}", d()));
    }
    false
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "Hostile inputs and ordinary work (block boundary sizes, split transfers, key and header operations, packing and unpacking with damaged compressed data) run in \
        children built with AddressSanitizer, with the standard library and the native code instrumented (the native code also for undefined behaviour), and in children under Valgrind's memcheck, which \
        follows uninitialised memory to branches and system calls; the library's own logic runs under Miri. A case is one hostile input, round trip, archive, job on files or Miri run."
        .into();
    ctx.assumptions.push("The optimised build that users run has the memory behaviour of the instrumented builds of the same source.".into());
    ctx.min_evals = 1000;
    for (k, n) in [
        ("asan_operations", 800),
        ("asan_archives", 60),
        ("asan_bytes_encrypted", 1 << 20),
        ("memcheck_operations", 80),
        ("asan_direct_calls", 5000),
        ("memcheck_direct_calls", 200),
        ("memcheck_archives", 6),
        ("memcheck_bytes_encrypted", 5000),
        ("damaged_compressed_streams", 30),
        ("file_jobs_successful", 20),
    ] {
        ctx.need(k, n);
    }
    let dir = trace::bins().dir.clone();
    let from = root().join("target/asan/x86_64-unknown-linux-gnu/release");
    for n in ["vmon", "volaris-cli"] {
        if std::fs::copy(from.join(n), dir.join(format!("{n}-asan"))).is_err() {
            ctx.single(9, 1, |o| o.inconclusive("there is no build for AddressSanitizer"));
            return;
        }
    }
    if !PathBuf::from("/usr/bin/valgrind").exists() {
        ctx.single(9, 1, |o| o.inconclusive("there is no Valgrind"));
        return;
    }
    let th = ctx.thorough;
    // Miri takes long and runs beside the rest
    let parts: Vec<(&str, u64)> = if th {
        (0..12u64).flat_map(|s| [("keys", s), ("headers", s), ("streams", s), ("api", s), ("unpack", s), ("threads", s)]).collect()
    } else {
        vec![("headers", 0), ("streams", 0), ("api", 0), ("keys", 0), ("unpack", 0), ("threads", 0)]
    };
    let next = std::sync::atomic::AtomicUsize::new(0);
    let workers = 8;
    let base = ctx.seed;
    ctx.par_n(workers, 1, ctx.pick(28, 1500), |o| {
        let sc = Scratch::new();
        if o.worker < 3 {
            loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((p, s)) = parts.get(i) else { break };
                if th && !o.time_left() {
                    break;
                }
                miri(o, p, base * 1000 + s, base * 77 + s, 400);
            }
        }
        let tool = if o.worker % 2 == 0 { Tool::Asan } else { Tool::Memcheck };
        let mut at = o.worker;
        let mut n = 0;
        let asan = tool == Tool::Asan;
        loop {
            match n % 3 {
                0 if asan => inner(o, &sc, tool, 60, 8, 3 << 20),
                0 => inner(o, &sc, tool, 4, 2, if n == 0 { 3 << 20 } else { 1 << 16 }),
                1 => archives(o, &sc, tool, if asan { 40 } else { 6 }),
                _ => {
                    for _ in 0..if asan { 8 } else { 3 } {
                        let all = crate::io::jobs(&mut o.rng);
                        files(o, &sc, tool, &all[at % all.len()]);
                        at += 5;
                    }
                }
            }
            n += 1;
            if !o.time_left() && n >= 3 {
                break;
            }
        }
    });
}
