//! Library operations on real files, run in a child process.
use crate::ops::*;
use corecrypto::protected::Protected;
use std::cell::RefCell;
use std::fs::{File, OpenOptions};
use std::io::Write;
use std::path::PathBuf;
use std::sync::Arc;
use tools::storage::{FileStorage, Storage};

pub const OK: i32 = 0;
pub const ERR: i32 = 10;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn alg_of(s: &str) -> Alg {
    match s {
        "X" => Alg::X,
        "A" => Alg::A,
        _ => Alg::D,
    }
}
pub fn kdf_of(s: &str) -> Kdf {
    let n: i32 = s[1..].parse().unwrap();
    if s.starts_with('a') {
        Kdf::Argon(n)
    } else {
        Kdf::Balloon(n)
    }
}
pub fn kdf_name(k: Kdf) -> String {
    match k {
        Kdf::Argon(i) => format!("a{i}"),
        Kdf::Balloon(i) => format!("b{i}"),
    }
}
pub fn alg_name(a: Alg) -> String {
    format!("{a:?}")
}

fn rd(p: &str) -> File {
    File::open(p).unwrap_or_else(|e| fail("open", e))
}
fn rw(p: &str) -> File {
    OpenOptions::new().read(true).write(true).open(p).unwrap_or_else(|e| fail("open", e))
}
fn wr(p: &str) -> File {
    OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(p)
        .unwrap_or_else(|e| fail("create", e))
}
fn fail<T>(what: &str, e: impl std::fmt::Debug) -> T {
    println!("SETUP {what} {e:?}");
    std::process::exit(11);
}
fn end<E: std::fmt::Debug>(r: Result<(), E>) -> i32 {
    match r {
        Ok(()) => {
            println!("OK");
            OK
        }
        Err(e) => {
            println!("ERR {e:?}");
            ERR
        }
    }
}

/// vmon drive <op> <args>; exit 0: the operation reported success, 10: an error
pub fn main(a: &[String]) -> i32 {
    // a planted runaway must not take the sandbox along
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 8 << 30,
            rlim_max: 8 << 30,
        };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
    let stor = Arc::new(FileStorage);
    let key = |s: &str| Protected::new(unhex(s));
    let s: Vec<&str> = a.iter().map(String::as_str).collect();
    match s[0] {
        // in out alg kdf key header|-
        "encrypt" => {
            let (r, w) = (RefCell::new(rd(s[1])), RefCell::new(wr(s[2])));
            let h = (s[6] != "-").then(|| RefCell::new(wr(s[6])));
            let mut spec = Spec::new(alg_of(s[3]), kdf_of(s[4]));
            spec.detached = h.is_some();
            end(tools::encrypt::execute(tools::encrypt::Request {
                reader: &r,
                writer: &w,
                header_writer: h.as_ref(),
                raw_key: key(s[5]),
                header_type: spec.header_type(),
                hashing_algorithm: spec.kdf.real(),
            }))
        }
        // in out key header|-
        "decrypt" => {
            let (r, w) = (RefCell::new(rd(s[1])), RefCell::new(wr(s[2])));
            let h = (s[4] != "-").then(|| RefCell::new(rd(s[4])));
            end(tools::decrypt::execute(tools::decrypt::Request {
                header_reader: h.as_ref(),
                reader: &r,
                writer: &w,
                raw_key: key(s[3]),
                on_decrypted_header: None,
            }))
        }
        // out alg kdf key zstd|stored header|- [reps] inputs..
        "pack" => {
            let w = RefCell::new(wr(s[1]));
            let h = (s[6] != "-").then(|| RefCell::new(wr(s[6])));
            let spec = Spec::new(alg_of(s[2]), kdf_of(s[3]));
            let mut files = vec![];
            for i in &s[7..] {
                let e = stor.read_file(i).unwrap_or_else(|e| fail("input", e));
                if e.is_dir() {
                    match stor.read_dir(&e) {
                        Ok(v) => files.extend(v),
                        Err(e) => return end(Err::<(), _>(e)),
                    }
                } else {
                    files.push(e);
                }
            }
            end(tools::pack::execute(
                stor,
                tools::pack::Request {
                    compress_files: files,
                    compression_method: if s[5] == "zstd" { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored },
                    writer: &w,
                    header_writer: h.as_ref(),
                    raw_key: key(s[4]),
                    header_type: spec.header_type(),
                    hashing_algorithm: spec.kdf.real(),
                },
            ))
        }
        // in outdir key header|- [skip substring]
        "unpack" => {
            let r = RefCell::new(rd(s[1]));
            let h = (s[4] != "-").then(|| RefCell::new(rd(s[4])));
            let skip = s.get(5).map(|x| (*x).to_string());
            end(tools::unpack::execute(
                stor,
                tools::unpack::Request {
                    reader: &r,
                    header_reader: h.as_ref(),
                    raw_key: key(s[3]),
                    output_dir_path: PathBuf::from(s[2]),
                    on_decrypted_header: None,
                    on_archive_info: None,
                    on_zip_file: skip.map(|k| Box::new(move |p: PathBuf| !p.to_string_lossy().contains(&k)) as Box<dyn Fn(PathBuf) -> bool>),
                },
            ))
        }
        "erase" => end(tools::erase::execute(
            stor,
            tools::erase::Request {
                path: s[1],
                passes: s[2].parse().unwrap(),
            },
        )),
        "erase_dir" => {
            let entry = stor.read_file(s[1]).unwrap_or_else(|e| fail("input", e));
            end(tools::erase_dir::execute(
                stor,
                tools::erase_dir::Request {
                    entry,
                    passes: s[2].parse().unwrap(),
                },
            ))
        }
        "hash" => match tools::hash::execute(
            tools::hasher::Blake3Hasher::default(),
            tools::hash::Request {
                reader: RefCell::new(rd(s[1])),
            },
        ) {
            Ok(h) => {
                println!("{h}");
                OK
            }
            Err(e) => end(Err::<(), _>(e)),
        },
        "key_verify" => {
            let h = RefCell::new(rw(s[1]));
            end(tools::key::verify::execute(tools::key::verify::Request {
                handle: &h,
                raw_key: key(s[2]),
            }))
        }
        "key_add" => {
            let h = RefCell::new(rw(s[1]));
            end(tools::key::add::execute(tools::key::add::Request {
                handle: &h,
                raw_key_old: key(s[2]),
                raw_key_new: key(s[3]),
                hash_algorithm: kdf_of(s[4]).real(),
            }))
        }
        "key_change" => {
            let h = RefCell::new(rw(s[1]));
            end(tools::key::change::execute(tools::key::change::Request {
                handle: &h,
                raw_key_old: key(s[2]),
                raw_key_new: key(s[3]),
                hash_algorithm: kdf_of(s[4]).real(),
            }))
        }
        "key_delete" => {
            let h = RefCell::new(rw(s[1]));
            end(tools::key::delete::execute(tools::key::delete::Request {
                handle: &h,
                raw_key_old: key(s[2]),
            }))
        }
        "dump" => {
            let (r, w) = (RefCell::new(rd(s[1])), RefCell::new(wr(s[2])));
            end(tools::header::dump::execute(tools::header::dump::Request { reader: &r, writer: &w }))
        }
        "strip" => {
            let h = RefCell::new(rw(s[1]));
            end(tools::header::strip::execute(tools::header::strip::Request { handle: &h }))
        }
        "restore" => {
            let (r, w) = (RefCell::new(rd(s[1])), RefCell::new(rw(s[2])));
            end(tools::header::restore::execute(tools::header::restore::Request { reader: &r, writer: &w }))
        }
        "passphrase" => {
            for _ in 0..s[2].parse().unwrap() {
                println!("{}", corecrypto::key::generate_passphrase(&s[1].parse().unwrap()).expose());
            }
            OK
        }
        "ub" => crate::ub::child(&s[1..]),
        "conc" => crate::conc::child(&s[1..]),
        // key ids..
        "unpack_many" => crate::robust::unpack_many(&unhex(s[1]), &s[2..]),
        // a script of storage calls, one per line on standard input; one line of answer each
        "storage" => {
            crate::fsmon::storage_script(s[1].parse().unwrap(), s[2].parse().unwrap());
            let _ = std::io::stdout().flush();
            OK
        }
        x => fail("operation", x),
    }
}
