//! The check runs in a child process. Before each operation on hostile input a worker leaves a note
//! in a shared file; when the child dies of a fatal signal or an operation does not come to an end,
//! the parent reports that with the note.
use crate::util::{hex, root};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::Command;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const SLOT: usize = 1 << 16;
const SLOTS: usize = 8;
/// An operation on an input of less than a few MiB is taken to hang after this long.
const LIMIT: u64 = 150;

static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs())
}

fn map(path: &std::path::Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path) else {
        return std::ptr::null_mut();
    };
    if f.set_len((SLOT * SLOTS) as u64).is_err() {
        return std::ptr::null_mut();
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            SLOT * SLOTS,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        std::ptr::null_mut()
    } else {
        p.cast()
    }
}

/// Notes what this worker is about to do with `input`; `done` takes the note back.
pub fn note(worker: usize, what: &str, input: &[u8]) {
    let m = MAP.load(Ordering::Relaxed);
    if m.is_null() || worker >= SLOTS {
        return;
    }
    unsafe {
        let s = m.add(worker * SLOT);
        let w = what.as_bytes();
        let wl = w.len().min(1000);
        let il = input.len().min(SLOT - 2048);
        std::ptr::copy_nonoverlapping(w.as_ptr(), s.add(64), wl);
        std::ptr::copy_nonoverlapping(input.as_ptr(), s.add(2048), il);
        let h = s.cast::<u64>();
        h.add(1).write_volatile(wl as u64);
        h.add(2).write_volatile(il as u64);
        h.add(3).write_volatile(input.len() as u64);
        AtomicU64::from_ptr(h).store(now(), Ordering::SeqCst);
    }
}
pub fn done(worker: usize) {
    let m = MAP.load(Ordering::Relaxed);
    if m.is_null() || worker >= SLOTS {
        return;
    }
    unsafe {
        AtomicU64::from_ptr(m.add(worker * SLOT).cast()).store(0, Ordering::SeqCst);
    }
}

struct Note {
    at: u64,
    text: String,
}
unsafe fn notes(m: *mut u8) -> Vec<Note> {
    let mut v = vec![];
    for i in 0..SLOTS {
        let s = m.add(i * SLOT);
        let h = s.cast::<u64>();
        let at = AtomicU64::from_ptr(h).load(Ordering::SeqCst);
        if at == 0 {
            continue;
        }
        let wl = (h.add(1).read_volatile() as usize).min(1000);
        let il = (h.add(2).read_volatile() as usize).min(SLOT - 2048);
        let what = String::from_utf8_lossy(std::slice::from_raw_parts(s.add(64), wl)).into_owned();
        let input = std::slice::from_raw_parts(s.add(2048), il);
        v.push(Note {
            at,
            text: format!("{what}; input of {} bytes: {}", h.add(3).read_volatile(), hex(&input[..il.min(4096)])),
        });
    }
    v
}

pub fn child() {
    if let Some(p) = std::env::var_os("VMON_NOTES") {
        MAP.store(map(std::path::Path::new(&p)), Ordering::SeqCst);
    }
}

fn report(id: &str, why: &str, notes: &[String]) -> i32 {
    let rp = root().join("evidence").join(format!("replay-{id}.txt"));
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let seed = std::env::var("VERIF_SEED").unwrap_or_default();
    let text = format!("property {id} tier {tier} seed {seed}\nre-run: VERIF_SEED={seed} VERIF_TIER={tier} /verif/check.sh {id}\n\n{why}\n{}\n", notes.join("\n"));
    let _ = std::fs::write(&rp, text);
    // the run of the child left no evidence of its own
    let ev = root().join("evidence").join(format!("{id}.json"));
    let _ = std::fs::write(
        &ev,
        format!(
            "{{\n \"property\": \"{id}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"the run was ended by what it observed\", \"samples\": [{}]}},\n \"assumptions\": [], \"wall_s\": 0, \"violations\": 1\n}}\n",
            if tier == "thorough" { "thorough" } else { "quick" },
            seed.trim().parse::<u64>().unwrap_or(1),
            crate::util::json_str(why)
        ),
    );
    println!("  {why}");
    for n in notes.iter().take(4) {
        println!("  during: {}", n.chars().take(300).collect::<String>());
    }
    println!("VIOLATION property={id} replay={}", rp.display());
    1
}

/// Runs the check in a child and passes on its verdict.
pub fn parent(id: &str) -> i32 {
    let path = std::env::temp_dir().join(format!("vmon-notes-{}", std::process::id()));
    let m = map(&path);
    let me = std::env::current_exe().expect("own path");
    let mut c = Command::new(me);
    c.args(["check-inner", id]).env("VMON_NOTES", &path);
    let ppid = std::process::id() as i32;
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != ppid {
                libc::_exit(2);
            }
            Ok(())
        });
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the check: {e}");
            let _ = std::fs::remove_file(&path);
            return 2;
        }
    };
    let pid = ch.id();
    let list = |m: *mut u8| -> Vec<Note> {
        if m.is_null() {
            vec![]
        } else {
            unsafe { notes(m) }
        }
    };
    let mut n = 0u32;
    let r = loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                break match st.signal() {
                    Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGILL | libc::SIGBUS | libc::SIGFPE | libc::SIGTRAP)) => report(
                        id,
                        &format!("crash: the process running the library was ended by signal {s}"),
                        &list(m).into_iter().map(|n| n.text).collect::<Vec<_>>(),
                    ),
                    Some(s) => {
                        println!("INCONCLUSIVE property={id} the process running the workload was ended by signal {s}");
                        2
                    }
                    None => st.code().unwrap_or(2),
                }
            }
            Ok(None) => {}
            Err(_) => break 2,
        }
        std::thread::sleep(Duration::from_millis(if n < 100 { 10 } else { 50 }));
        n = n.wrapping_add(1);
        if n % 20 == 0 {
            let t = now();
            if let Some(x) = list(m).into_iter().find(|x| t > x.at + LIMIT) {
                let _ = ch.kill();
                let _ = ch.wait();
                break report(id, &format!("hang: an operation did not end within {LIMIT} s"), &[x.text]);
            }
        }
    };
    let _ = std::fs::remove_file(&path);
    crate::trace::cleanup_of(pid);
    r
}
