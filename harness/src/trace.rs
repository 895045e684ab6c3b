//! Running the real program or a library driver in a child process, as an unprivileged user and
//! inside a scratch directory, with the file operation monitor (shim/vtrace.c) preloaded.
use crate::util::root;
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::io::{Read, Write};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Open = 1,
    Read,
    Write,
    Lseek,
    Trunc,
    Unlink,
    Mkdir,
    Rmdir,
    Rename,
    Stat,
    Fsync,
    Close,
    Opendir,
    Readdir,
    Link,
    Chmod,
    Copy,
    Kill,
}
const KINDS: [K; 18] = [
    K::Open,
    K::Read,
    K::Write,
    K::Lseek,
    K::Trunc,
    K::Unlink,
    K::Mkdir,
    K::Rmdir,
    K::Rename,
    K::Stat,
    K::Fsync,
    K::Close,
    K::Opendir,
    K::Readdir,
    K::Link,
    K::Chmod,
    K::Copy,
    K::Kill,
];
pub const INSIDE: u32 = 1;
pub const MUT: u32 = 2;
pub const INJECTED: u32 = 4;
pub const JAILED: u32 = 8;
pub const CREATED: u32 = 16;

#[derive(Clone, Debug)]
pub struct Rec {
    pub kind: K,
    pub flags: u32,
    pub seq: u64,
    pub tid: u64,
    pub a: i64,
    pub b: i64,
    pub ret: i64,
    pub err: i32,
    pub fd: i32,
    pub mode: u32,
    pub path: PathBuf,
    pub path2: PathBuf,
    pub data: Vec<u8>,
}
impl Rec {
    pub fn inside(&self) -> bool {
        self.flags & INSIDE != 0
    }
    pub fn modifies(&self) -> bool {
        self.flags & MUT != 0
    }
    pub fn injected(&self) -> bool {
        self.flags & INJECTED != 0
    }
    pub fn jailed(&self) -> bool {
        self.flags & JAILED != 0
    }
    pub fn created(&self) -> bool {
        self.flags & CREATED != 0
    }
    /// opened with O_TRUNC
    pub fn truncating_open(&self) -> bool {
        self.kind == K::Open && self.a & i64::from(libc::O_TRUNC) != 0
    }
    pub fn brief(&self) -> String {
        format!(
            "{:?}({}{}) a={} b={} -> {}{}{}",
            self.kind,
            self.path.display(),
            if self.path2.as_os_str().is_empty() { String::new() } else { format!(", {}", self.path2.display()) },
            self.a,
            self.b,
            self.ret,
            if self.err != 0 { format!(" errno {}", self.err) } else { String::new() },
            if self.injected() { " (injected)" } else { "" }
        )
    }
}

pub fn parse_log(b: &[u8]) -> Result<Vec<Rec>, String> {
    use std::os::unix::ffi::OsStrExt;
    let mut v = vec![];
    let mut o = 0;
    while o + 80 <= b.len() {
        let u4 = |i: usize| u32::from_le_bytes(b[o + i..o + i + 4].try_into().unwrap());
        let u8_ = |i: usize| u64::from_le_bytes(b[o + i..o + i + 8].try_into().unwrap());
        if u4(0) != 0x5654_5243 {
            return Err(format!("bad record at {o}"));
        }
        let len = u4(4) as usize;
        if o + len > b.len() {
            break; // the process was killed while writing it
        }
        let (pl, p2, dl) = (u4(64) as usize, u4(68) as usize, u4(72) as usize);
        if 80 + pl + p2 + dl != len {
            return Err(format!("bad lengths at {o}"));
        }
        let s = o + 80;
        let p = |a: usize, n: usize| PathBuf::from(OsStr::from_bytes(&b[a..a + n]));
        v.push(Rec {
            kind: *KINDS.get(u4(8) as usize - 1).ok_or("bad kind")?,
            flags: u4(12),
            seq: u8_(16),
            tid: u8_(24),
            a: u8_(32) as i64,
            b: u8_(40) as i64,
            ret: u8_(48) as i64,
            err: u4(56) as i32,
            fd: u4(60) as i32,
            mode: u4(76),
            path: p(s, pl),
            path2: p(s + pl, p2),
            data: b[s + pl + p2..o + len].to_vec(),
        });
        o += len;
    }
    v.sort_by_key(|r| r.seq);
    Ok(v)
}

const NOBODY: u32 = 65534;

/// Can children be run as another user?
pub fn can_drop() -> bool {
    static C: OnceLock<bool> = OnceLock::new();
    *C.get_or_init(|| {
        if unsafe { libc::geteuid() } != 0 {
            return false;
        }
        let mut c = Command::new("/bin/true");
        c.uid(NOBODY).gid(NOBODY);
        c.status().is_ok_and(|s| s.success())
    })
}

static NEXT: AtomicU64 = AtomicU64::new(0);

/// Copies of the binaries where the unprivileged user can run them; removed at the end of the check.
pub struct Bins {
    pub dir: PathBuf,
}
static BINS: OnceLock<Bins> = OnceLock::new();
pub fn bins() -> &'static Bins {
    BINS.get_or_init(|| {
        let dir = PathBuf::from(format!("/tmp/vmon-bin-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir(&dir).expect("scratch");
        let me = std::env::current_exe().unwrap();
        let cli = me.with_file_name("volaris-cli");
        std::fs::copy(&me, dir.join("vmon")).expect("copy vmon");
        std::fs::copy(cli, dir.join("volaris-cli")).expect("copy volaris-cli");
        std::fs::copy(root().join("target/vtrace.so"), dir.join("vtrace.so")).expect("copy vtrace.so");
        for f in ["", "vmon", "volaris-cli", "vtrace.so"] {
            std::fs::set_permissions(dir.join(f), std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Bins { dir }
    })
}
pub fn cleanup() {
    if let Some(b) = BINS.get() {
        let _ = std::fs::remove_dir_all(&b.dir);
    }
}

/// Removes what a check that was ended early left behind.
pub fn cleanup_of(pid: u32) {
    let tags = [format!("vmon-{pid}-"), format!("vmon-bin-{pid}")];
    if let Ok(d) = std::fs::read_dir("/tmp") {
        for e in d.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if tags.iter().any(|t| n.starts_with(t.as_str())) && (n.starts_with(&tags[0]) || n == tags[1]) {
                force_remove(&e.path());
            }
        }
    }
}

/// A scratch area: `w` is the watched directory in which children work (with `w/tmp` as TMPDIR).
pub struct Scratch {
    pub top: PathBuf,
    pub w: PathBuf,
    pub keep: bool,
}
impl Scratch {
    pub fn new() -> Scratch {
        let top = PathBuf::from(format!("/tmp/vmon-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        let _ = std::fs::remove_dir_all(&top);
        std::fs::create_dir(&top).expect("scratch");
        let s = Scratch {
            w: top.join("w"),
            top,
            keep: false,
        };
        std::fs::create_dir(s.top.join("log")).unwrap();
        std::fs::create_dir_all(s.w.join("tmp")).unwrap();
        s.own();
        s
    }
    /// Gives everything to the user the children run as.
    pub fn own(&self) {
        fn walk(p: &Path) {
            let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
            if let (Ok(m), Ok(d)) = (std::fs::symlink_metadata(p), std::fs::read_dir(p)) {
                if m.is_dir() {
                    d.flatten().for_each(|e| walk(&e.path()));
                }
            }
        }
        if can_drop() {
            walk(&self.top);
        }
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.w.join(n)
    }
    pub fn put(&self, n: &str, data: &[u8]) -> PathBuf {
        let p = self.w.join(n);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(&p, data).unwrap();
        p
    }
    pub fn get(&self, n: &str) -> Option<Vec<u8>> {
        std::fs::read(self.w.join(n)).ok()
    }
    /// Empties the working directory.
    pub fn reset(&self) {
        force_remove(&self.w);
        std::fs::create_dir_all(self.w.join("tmp")).unwrap();
        self.own();
    }
}
pub fn force_remove(p: &Path) {
    fn open_up(p: &Path) {
        if let Ok(m) = std::fs::symlink_metadata(p) {
            if m.is_dir() {
                let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700));
                if let Ok(d) = std::fs::read_dir(p) {
                    d.flatten().for_each(|e| open_up(&e.path()));
                }
            }
        }
    }
    if std::fs::remove_dir_all(p).is_err() && p.exists() {
        open_up(p);
        let _ = std::fs::remove_dir_all(p);
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if !self.keep {
            force_remove(&self.top);
        }
    }
}

/// A snapshot of a tree: relative path -> what is there. The content of files and links included.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
    Other,
}
pub type Tree = BTreeMap<PathBuf, Node>;
pub fn snapshot(dir: &Path) -> Tree {
    fn walk(base: &Path, p: &Path, t: &mut Tree) {
        let Ok(d) = std::fs::read_dir(p) else { return };
        for e in d.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_path_buf();
            let m = match std::fs::symlink_metadata(&p) {
                Ok(m) => m,
                Err(_) => continue,
            };
            let n = if m.is_dir() {
                Node::Dir
            } else if m.file_type().is_symlink() {
                Node::Link(std::fs::read_link(&p).unwrap_or_default())
            } else if m.is_file() {
                Node::File(std::fs::read(&p).unwrap_or_default())
            } else {
                Node::Other
            };
            let rec = n == Node::Dir;
            t.insert(rel, n);
            if rec {
                walk(base, &p, t);
            }
        }
    }
    let mut t = Tree::new();
    walk(dir, dir, &mut t);
    t
}
pub fn diff(a: &Tree, b: &Tree) -> Vec<String> {
    let d = |n: &Node| match n {
        Node::File(v) => format!("file of {} bytes {}", v.len(), crate::util::brief(v)),
        x => format!("{x:?}"),
    };
    let mut v = vec![];
    for (p, n) in a {
        match b.get(p) {
            None => v.push(format!("{} is gone (was {})", p.display(), d(n))),
            Some(m) if m != n => v.push(format!("{} changed: {} -> {}", p.display(), d(n), d(m))),
            _ => {}
        }
    }
    for (p, n) in b {
        if !a.contains_key(p) {
            v.push(format!("{} is new ({})", p.display(), d(n)));
        }
    }
    v
}
pub fn inode(p: &Path) -> Option<(u64, u64)> {
    std::fs::symlink_metadata(p).ok().map(|m| (m.dev(), m.ino()))
}

#[derive(Clone)]
pub struct Cmd {
    pub prog: PathBuf,
    pub args: Vec<std::ffi::OsString>,
    pub env: Vec<(String, std::ffi::OsString)>,
    pub cwd: Option<PathBuf>,
    pub stdin: Vec<u8>,
    pub trace: bool,
    pub timeout: u64,
    /// run with a terminal as controlling terminal and feed it this
    pub tty: Option<Vec<u8>>,
    /// the most memory the process may have (RLIMIT_DATA)
    pub data_limit: Option<u64>,
}

#[derive(Debug)]
pub struct Res {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub tty: Vec<u8>,
    pub trace: Vec<Rec>,
    pub timed_out: bool,
}
impl Res {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn text(&self) -> String {
        let t = |v: &[u8]| String::from_utf8_lossy(v).chars().take(400).collect::<String>();
        format!(
            "exit {:?} signal {:?}{} stdout {:?} stderr {:?}{}",
            self.code,
            self.signal,
            if self.timed_out { " (did not end)" } else { "" },
            t(&self.stdout),
            t(&self.stderr),
            if self.tty.is_empty() { String::new() } else { format!(" tty {:?}", t(&self.tty)) }
        )
    }
    /// A crash of the program: a panic or a fatal signal other than the injected kill.
    pub fn crashed(&self) -> bool {
        self.code == Some(101) || self.signal.is_some_and(|s| s != libc::SIGKILL) || self.timed_out
    }
    pub fn injected(&self) -> usize {
        self.trace.iter().filter(|r| r.injected()).count()
    }
}

/// Variables that must not matter.
const AROUND: [(&str, &[&str]); 16] = [
    ("TERM", &["dumb", "xterm-256color", "linux", ""]),
    ("CI", &["true", "1"]),
    ("NO_COLOR", &["1"]),
    ("CLICOLOR_FORCE", &["0"]),
    ("DEBIAN_FRONTEND", &["noninteractive"]),
    ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP"]),
    ("LC_ALL", &["C", "POSIX", "en_US.UTF-8"]),
    ("COLUMNS", &["1", "40", "x"]),
    ("USER", &["root", "nobody", ""]),
    ("SHELL", &["/bin/sh"]),
    ("EDITOR", &["vi"]),
    ("SSH_TTY", &["/dev/pts/0"]),
    ("RUST_LOG", &["trace"]),
    ("TZ", &["UTC", "Asia/Kathmandu"]),
    ("FORCE", &["1"]),
    ("VOLARIS_FORCE", &["1"]),
];

impl Cmd {
    pub fn cli<S: AsRef<OsStr>>(args: &[S]) -> Cmd {
        Cmd {
            prog: bins().dir.join("volaris-cli"),
            args: args.iter().map(|a| a.as_ref().to_os_string()).collect(),
            env: vec![],
            cwd: None,
            stdin: vec![],
            trace: false,
            timeout: 120,
            tty: None,
            data_limit: None,
        }
    }
    pub fn drive<S: AsRef<OsStr>>(args: &[S]) -> Cmd {
        let mut c = Cmd::cli(args);
        c.prog = bins().dir.join("vmon");
        c.args.insert(0, "drive".into());
        c
    }
    pub fn env(mut self, k: &str, v: impl AsRef<OsStr>) -> Cmd {
        self.env.push((k.to_string(), v.as_ref().to_os_string()));
        self
    }
    pub fn traced(mut self) -> Cmd {
        self.trace = true;
        self
    }
    pub fn stdin(mut self, s: &[u8]) -> Cmd {
        self.stdin = s.to_vec();
        self
    }
    pub fn cwd(mut self, p: &Path) -> Cmd {
        self.cwd = Some(p.to_path_buf());
        self
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.env {
            s += &format!("{k}={} ", v.to_string_lossy());
        }
        s += &self.prog.file_name().unwrap_or_default().to_string_lossy();
        for a in &self.args {
            s += &format!(" {:?}", a.to_string_lossy());
        }
        s
    }
    pub fn run(&self, sc: &Scratch) -> Result<Res, String> {
        let mut c = Command::new(&self.prog);
        c.args(&self.args).env_clear();
        c.env("PATH", "/usr/bin:/bin").env("HOME", &sc.w).env("TMPDIR", sc.w.join("tmp")).env("RUST_BACKTRACE", "0");
        c.current_dir(self.cwd.as_ref().unwrap_or(&sc.w));
        let log = sc.top.join("log").join(format!("{}.bin", NEXT.fetch_add(1, Ordering::SeqCst)));
        if self.trace {
            c.env("LD_PRELOAD", bins().dir.join("vtrace.so")).env("VT_ROOT", &sc.w).env("VT_LOG", &log);
        }
        // what else an environment may hold, for every third run
        let mut r = crate::util::Rng::new(NEXT.fetch_add(1, Ordering::SeqCst) as u64);
        if r.chance(1, 3) {
            for (k, v) in AROUND {
                if r.chance(1, 4) {
                    c.env(k, r.pick(v));
                }
            }
        }
        for (k, v) in &self.env {
            c.env(k, v);
        }
        if can_drop() {
            c.uid(NOBODY).gid(NOBODY);
        }
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if let Some(n) = self.data_limit {
            unsafe {
                c.pre_exec(move || {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    if libc::setrlimit(libc::RLIMIT_DATA, &l) == 0 {
                        Ok(())
                    } else {
                        Err(std::io::Error::last_os_error())
                    }
                });
            }
        }
        let mut pty = None;
        if self.tty.is_some() {
            let (m, s) = crate::pty::open().map_err(|e| format!("pty: {e}"))?;
            pty = Some(m);
            unsafe {
                use std::os::fd::AsRawFd;
                let fd = s.as_raw_fd();
                c.pre_exec(move || {
                    let _keep = &s;
                    if libc::setsid() < 0 || libc::ioctl(fd, libc::TIOCSCTTY as _, 0) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
        } else {
            // no terminal to ask for passwords at
            unsafe {
                c.pre_exec(|| {
                    libc::setsid();
                    Ok(())
                });
            }
        }
        let mut ch = c.spawn().map_err(|e| format!("cannot start {}: {e}", self.text()))?;
        drop(c);
        let mut si = ch.stdin.take().unwrap();
        let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        let input = self.stdin.clone();
        let limit = Duration::from_secs(self.timeout);
        let start = Instant::now();
        let mut out = Res {
            code: None,
            signal: None,
            stdout: vec![],
            stderr: vec![],
            tty: vec![],
            trace: vec![],
            timed_out: false,
        };
        let status = std::thread::scope(|s| {
            s.spawn(move || {
                let _ = si.write_all(&input);
            });
            let (o, e, t) = (&mut out.stdout, &mut out.stderr, &mut out.tty);
            s.spawn(move || so.read_to_end(o));
            s.spawn(move || se.read_to_end(e));
            let done = std::sync::atomic::AtomicBool::new(false);
            let done = &*Box::leak(Box::new(done));
            if let Some(m) = &pty {
                let feed = self.tty.clone().unwrap();
                s.spawn(move || crate::pty::converse(m, &feed, done, t));
            }
            let mut nap = 300;
            let st = loop {
                match ch.try_wait() {
                    Ok(Some(st)) => break Some(st),
                    Ok(None) if start.elapsed() > limit => {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break None;
                    }
                    Ok(None) => {
                        std::thread::sleep(Duration::from_micros(nap));
                        nap = (nap * 3 / 2).min(5000);
                    }
                    Err(_) => break None,
                }
            };
            done.store(true, Ordering::SeqCst);
            st
        });
        match status {
            Some(st) => {
                out.code = st.code();
                out.signal = st.signal();
            }
            None => out.timed_out = true,
        }
        if self.trace {
            let b = std::fs::read(&log).unwrap_or_default();
            let _ = std::fs::remove_file(&log);
            out.trace = parse_log(&b)?;
        }
        Ok(out)
    }
}
