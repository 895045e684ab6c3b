//! C34: the memory an operation takes does not grow with the length of the data.
use crate::big::{self, Compare, Endless};
use crate::mem;
use crate::ops::*;
use crate::trace::{Cmd, Scratch};
use crate::util::*;
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::path::Path;

/// Takes whatever is written.
#[derive(Default)]
struct Sink {
    pos: u64,
    len: u64,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.pos = match to {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(d) => self.pos.saturating_add_signed(d),
            SeekFrom::End(d) => self.len.saturating_add_signed(d),
        };
        Ok(self.pos)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Way {
    Encrypt,
    Decrypt,
    Hash,
    Overwrite,
}

const KEY: &[u8] = b"some password";

fn seal<R: Read + Seek, W: Write + Seek>(spec: Spec, r: R, w: W) -> Out<W> {
    let (r, w) = (RefCell::new(r), RefCell::new(w));
    let o = guard(|| {
        tools::encrypt::execute(tools::encrypt::Request {
            reader: &r,
            writer: &w,
            header_writer: None,
            raw_key: prot(KEY),
            header_type: spec.header_type(),
            hashing_algorithm: spec.kdf.real(),
        })
    });
    match o {
        Out::Ok(()) => Out::Ok(w.into_inner()),
        Out::Err(e) => Out::Err(e),
        Out::Panic(p) => Out::Panic(p),
    }
}

/// The memory taken, or what went wrong.
fn measure(way: Way, spec: Spec, len: u64) -> Result<u64, String> {
    let src = || Endless { len, pos: 0 };
    let (r, peak) = match way {
        Way::Encrypt => {
            let (r, peak) = mem::peak(|| seal(spec, src(), Sink::default()));
            (r.get().map(|s| s.len > len), peak)
        }
        Way::Decrypt => {
            let sealed = seal(spec, src(), Cursor::new(Vec::with_capacity(len as usize + (1 << 20)))).get().ok_or("encryption fails")?.into_inner();
            let (rd, w) = (RefCell::new(Cursor::new(&sealed[..])), RefCell::new(Compare::default()));
            let (r, peak) = mem::peak(|| {
                guard(|| {
                    tools::decrypt::execute(tools::decrypt::Request {
                        header_reader: None,
                        reader: &rd,
                        writer: &w,
                        raw_key: prot(KEY),
                        on_decrypted_header: None,
                    })
                })
            });
            let w = w.into_inner();
            (r.get().map(|()| w.wrong.is_none() && w.in_order == len && w.len == len), peak)
        }
        Way::Hash => {
            let (r, peak) = mem::peak(|| guard(|| tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(src()) })));
            (r.get().map(|h| h.len() == 64), peak)
        }
        Way::Overwrite => {
            let w = RefCell::new(Sink::default());
            let (r, peak) = mem::peak(|| {
                guard(|| {
                    tools::overwrite::execute(tools::overwrite::Request {
                        writer: &w,
                        buf_capacity: len as usize,
                        passes: 1,
                    })
                })
            });
            (r.get().map(|()| w.borrow().len == len), peak)
        }
    };
    match r {
        Some(true) => Ok(peak),
        Some(false) => Err("the result is wrong".into()),
        None => Err("the operation fails".into()),
    }
}

const MIB: u64 = 1 << 20;

fn c34_lib(o: &mut Obs, way: Way, spec: Spec, small: u64, large: u64) {
    let d = |s: String| format!("{way:?} ({:?}, version {}): {s}", spec.alg, spec.ver);
    let (a, b) = match (measure(way, spec, small), measure(way, spec, large)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => return o.viol("fails", d(format!("{small} bytes: {e}"))),
        (_, Err(e)) => return o.viol("fails", d(format!("{large} bytes: {e}, although {small} bytes work"))),
    };
    o.eval(&(way, spec, large), true);
    o.count("streams_measured", 1);
    o.max("max_memory_of_a_stream", b);
    o.max("max_length", large);
    o.sample(|| d(format!("{a} bytes of memory for {small} bytes, {b} for {large}")));
    if b > a + (large - small) / 64 {
        o.viol("grows", d(format!("takes {a} bytes of memory for {small} bytes of content, but {b} for {large}")));
    }
}

fn write_content(p: &Path, len: u64, salt: u64) {
    let mut f = std::fs::File::create(p).unwrap();
    let mut buf = vec![0; 1 << 20];
    let mut pos = 0;
    while pos < len {
        let n = (len - pos).min(buf.len() as u64) as usize;
        big::fill(&mut buf[..n], pos + salt);
        f.write_all(&buf[..n]).unwrap();
        pos += n as u64;
    }
}

fn same_content(p: &Path, len: u64, salt: u64) -> Result<(), String> {
    let mut f = std::fs::File::open(p).map_err(|e| format!("{}: {e}", p.display()))?;
    if f.metadata().map_or(0, |m| m.len()) != len {
        return Err(format!("{} has another length", p.display()));
    }
    let (mut buf, mut want) = (vec![0; 1 << 20], vec![0; 1 << 20]);
    let mut pos = 0;
    while pos < len {
        let n = (len - pos).min(buf.len() as u64) as usize;
        f.read_exact(&mut buf[..n]).map_err(|e| e.to_string())?;
        big::fill(&mut want[..n], pos + salt);
        if buf[..n] != want[..n] {
            return Err(format!("{} has another content in the block at {pos}", p.display()));
        }
        pos += n as u64;
    }
    Ok(())
}

/// One chain of commands on a file that is longer than the memory they may take.
fn c34_program(o: &mut Obs, sc: &Scratch, kind: usize, len: u64, limit: u64) {
    // the command with the limit on a short and on the long file
    let step = |o: &mut Obs, args: &[&str], what: &str, long: bool| -> bool {
        let mut c = Cmd::cli(args).env("VOLARIS_KEY", "key");
        c.timeout = 600;
        c.data_limit = Some(limit);
        let r = match c.run(sc) {
            Ok(r) => r,
            Err(e) => {
                o.inconclusive(e);
                return false;
            }
        };
        if long {
            o.eval(&(kind, hash_of(&args), len), true);
            o.count("limited_runs", 1);
        }
        if r.ok() {
            return true;
        }
        let n = if long { len } else { 1000 };
        if long {
            o.viol("needs-memory", format!("{what} of {n} bytes with {limit} bytes of memory: {}; {}", c.text(), r.text()));
        } else {
            o.inconclusive(format!("{what} of {n} bytes with {limit} bytes of memory: {}; {}", c.text(), r.text()));
        }
        false
    };
    for long in [false, true] {
        let n = if long { len } else { 1000 };
        let salt = o.rng.below(1 << 30) as u64;
        sc.reset();
        let file = |s: &str| sc.path(s);
        let good = match kind {
            0 | 1 | 2 => {
                write_content(&file("in"), n, salt);
                sc.own();
                let enc: &[&str] = match kind {
                    0 => &["encrypt", "in", "enc", "--erase"],
                    1 => &["encrypt", "in", "enc", "--aes", "--argon", "--header", "h", "--hash"],
                    _ => &["encrypt", "in", "enc", "--hash", "--erase=1"],
                };
                let dec: &[&str] = match kind {
                    0 => &["decrypt", "enc", "out", "--hash"],
                    1 => &["decrypt", "enc", "out", "--header", "h"],
                    _ => &["decrypt", "enc", "out", "--erase", "--hash"],
                };
                step(o, enc, "encryption", long) && step(o, dec, "decryption", long) && {
                    match same_content(&file("out"), n, salt) {
                        Ok(()) => true,
                        Err(e) => {
                            o.viol("wrong", format!("{enc:?}, {dec:?} of {n} bytes: {e}"));
                            false
                        }
                    }
                }
            }
            3 | 4 => {
                std::fs::create_dir_all(file("dir/sub")).unwrap();
                write_content(&file("dir/a"), n, salt);
                write_content(&file("dir/sub/b"), n / 50 + 1, salt + 1);
                sc.own();
                let pack: &[&str] = if kind == 3 { &["pack", "-r", "dir", "enc", "--zstd"] } else { &["pack", "-r", "dir", "enc", "--header", "h"] };
                let unpack: &[&str] = if kind == 3 { &["unpack", "enc", "res"] } else { &["unpack", "enc", "res", "--header", "h"] };
                step(o, pack, "packing", long) && step(o, unpack, "unpacking", long) && {
                    let r = same_content(&file("res/dir/a"), n, salt).and_then(|()| same_content(&file("res/dir/sub/b"), n / 50 + 1, salt + 1));
                    if let Err(e) = &r {
                        o.viol("wrong", format!("{pack:?}, {unpack:?} of {n} bytes: {e}"));
                    }
                    r.is_ok()
                }
            }
            5 => {
                write_content(&file("in"), n, salt);
                sc.own();
                step(o, &["hash", "in"], "hashing", long) && step(o, &["erase", "in", "--passes=1"], "erasing", long)
            }
            _ => {
                std::fs::create_dir_all(file("dir/sub")).unwrap();
                write_content(&file("dir/a"), n, salt);
                write_content(&file("dir/sub/b"), n / 2, salt);
                sc.own();
                step(o, &["erase", "-f", "dir"], "erasing a directory", long)
            }
        };
        if !good {
            break;
        }
        if long {
            o.count("chains_completed", 1);
        }
    }
    sc.reset();
}

pub fn c34(ctx: &mut Ctx) {
    ctx.rule = "Each case is one operation on a stream measured at two lengths by the counting allocator, or one run of the program on a file that is longer than \
        the memory it may take (RLIMIT_DATA), with the result compared; non-trivial: distinct (operation, algorithm, length) and (command line, length)."
        .into();
    ctx.assumptions = vec![
        "The password hashing crates are replaced by cheap functions with the same interface; what they take by design is checked by C30.".into(),
        "Single-message mode, which only old files use, takes the whole content by design; the list of an archive's entries is held in memory.".into(),
    ];
    ctx.min_evals = 15;
    ctx.need("streams_measured", 9);
    ctx.need("limited_runs", 12);
    ctx.need("chains_completed", 7);
    let (small, large) = ctx.pick((16 * MIB, 80 * MIB), (64 * MIB, 1024 * MIB));
    ctx.par(1, ctx.pick(8, 60), |o| {
        let mut cases = vec![(Way::Hash, Spec::new(Alg::X, Kdf::Balloon(5))), (Way::Overwrite, Spec::new(Alg::X, Kdf::Balloon(5)))];
        for alg in ALGS {
            for way in [Way::Encrypt, Way::Decrypt] {
                for ver in [5, 4] {
                    // (new files of version 4 take other password hashing parameters)
                    let mut s = Spec::new(alg, if ver == 4 { Kdf::Balloon(4) } else { Kdf::Balloon(5) });
                    s.ver = ver;
                    cases.push((way, s));
                }
            }
        }
        for (i, (way, spec)) in cases.into_iter().enumerate() {
            if o.mine(i) {
                c34_lib(o, way, spec, small + 77, large + 12_345);
            }
        }
    });
    let (len, limit) = ctx.pick((160 * MIB, 64 * MIB), (2048 * MIB, 64 * MIB));
    ctx.par(2, ctx.pick(8, 60), |o| {
        let sc = Scratch::new();
        for k in 0..7 {
            if o.mine(k) {
                c34_program(o, &sc, k, len + 4_321, limit);
            }
        }
    });
}
