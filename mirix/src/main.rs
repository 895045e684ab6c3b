//! Small workloads for Miri: undefined behaviour and data races in the library's own logic.
//! `mirix <part> <seed>`; results are checked as well, so that a silently wrong run is noticed.
use corecrypto::cipher::Ciphers;
use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
use corecrypto::key::vec_to_arr;
use corecrypto::primitives::{gen_master_key, gen_nonce, gen_salt, Algorithm, Mode};
use corecrypto::protected::Protected;
use corecrypto::stream::{DecryptionStreams, EncryptionStreams};
use corecrypto::Payload;
use std::cell::RefCell;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tools::storage::{FileStorage, Storage};

#[path = "../../harness/src/api.rs"]
mod api;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 8) as usize % n
    }
}

const ALGS: [Algorithm; 3] = [Algorithm::XChaCha20Poly1305, Algorithm::Aes256Gcm, Algorithm::DeoxysII256];

fn key(b: &[u8]) -> Protected<Vec<u8>> {
    Protected::new(b.to_vec())
}

/// A file in single-message mode, made with the library's own parts.
fn file(alg: Algorithm, password: &[u8], content: &[u8]) -> Vec<u8> {
    let hash = HashingAlgorithm::Argon2id(3);
    let salt = gen_salt();
    let master = gen_master_key();
    let wrap = gen_nonce(&alg, &Mode::MemoryMode);
    let c = Ciphers::initialize(hash.hash(key(password), &salt).unwrap(), &alg).unwrap();
    let enc = c.encrypt(&wrap, &master.expose()[..]).unwrap();
    let header = Header {
        header_type: HeaderType {
            version: HeaderVersion::V5,
            algorithm: alg,
            mode: Mode::MemoryMode,
        },
        nonce: gen_nonce(&alg, &Mode::MemoryMode),
        salt: None,
        keyslots: Some(vec![Keyslot {
            hash_algorithm: hash,
            encrypted_key: vec_to_arr(enc),
            nonce: wrap,
            salt,
        }]),
    };
    let aad = header.create_aad().unwrap();
    let body = Ciphers::initialize(master, &alg).unwrap().encrypt(&header.nonce, Payload { msg: content, aad: &aad }).unwrap();
    let mut out = header.serialize().unwrap();
    out.extend(body);
    out
}

type Io = RefCell<Cursor<Vec<u8>>>;
fn io(b: &[u8]) -> Io {
    RefCell::new(Cursor::new(b.to_vec()))
}

fn decrypt(file: &[u8], password: &[u8]) -> Result<Vec<u8>, String> {
    let (r, w) = (io(file), io(&[]));
    tools::decrypt::execute(tools::decrypt::Request {
        header_reader: None,
        reader: &r,
        writer: &w,
        raw_key: key(password),
        on_decrypted_header: None,
    })
    .map_err(|e| format!("{e:?}"))?;
    Ok(w.into_inner().into_inner())
}

fn keys(r: &mut Rng) {
    let alg = ALGS[r.below(3)];
    let f = file(alg, b"one", b"content");
    assert_eq!(decrypt(&f, b"one").unwrap(), b"content");
    assert!(decrypt(&f, b"two").is_err());
    let h = io(&f);
    tools::key::add::execute(tools::key::add::Request {
        handle: &h,
        raw_key_old: key(b"one"),
        raw_key_new: key(b"two"),
        hash_algorithm: HashingAlgorithm::Blake3Balloon(5),
    })
    .unwrap();
    let again = |h: &Io| io(h.borrow().get_ref());
    let h = again(&h);
    tools::key::verify::execute(tools::key::verify::Request { handle: &h, raw_key: key(b"two") }).unwrap();
    let h = again(&h);
    tools::key::change::execute(tools::key::change::Request {
        handle: &h,
        raw_key_old: key(b"one"),
        raw_key_new: key(b"three"),
        hash_algorithm: HashingAlgorithm::Argon2id(3),
    })
    .unwrap();
    let h = again(&h);
    tools::key::delete::execute(tools::key::delete::Request { handle: &h, raw_key_old: key(b"two") }).unwrap();
    let f = h.into_inner().into_inner();
    assert_eq!(decrypt(&f, b"three").unwrap(), b"content");
    assert!(decrypt(&f, b"two").is_err());
}

fn headers(r: &mut Rng) {
    let f = file(ALGS[r.below(3)], b"one", b"content");
    let (a, b) = (io(&f), io(&[]));
    tools::header::dump::execute(tools::header::dump::Request { reader: &a, writer: &b }).unwrap();
    let a = io(&f);
    tools::header::strip::execute(tools::header::strip::Request { handle: &a }).unwrap();
    let (b, a) = (io(b.borrow().get_ref()), io(a.borrow().get_ref()));
    tools::header::restore::execute(tools::header::restore::Request { reader: &b, writer: &a }).unwrap();
    assert_eq!(a.into_inner().into_inner(), f);
    for _ in 0..12 {
        let mut m = f.clone();
        for _ in 0..1 + r.below(3) {
            let at = if r.below(2) == 0 { r.below(6) } else { 32 + 96 * r.below(4) + r.below(2) };
            m[at] = [0, 1, 2, 3, 4, 5, 0x0C, 0x0E, 0xDE, 0xDF, 0xA3, 0xB5][r.below(12)];
        }
        m.truncate(r.below(500));
        if let Ok((h, _)) = Header::deserialize(&mut Cursor::new(m.clone())) {
            let _ = h.serialize();
            let _ = h.create_aad();
        }
        let (a, b) = (io(&m), io(&[]));
        let _ = tools::header::dump::execute(tools::header::dump::Request { reader: &a, writer: &b });
        let a = io(&m);
        let _ = tools::header::strip::execute(tools::header::strip::Request { handle: &a });
        let (a, b) = (io(&m), io(&[0; 450]));
        let _ = tools::header::restore::execute(tools::header::restore::Request { reader: &a, writer: &b });
    }
}

fn streams(r: &mut Rng) {
    for alg in ALGS {
        let k: [u8; 32] = std::array::from_fn(|_| r.next() as u8);
        let nonce = gen_nonce(&alg, &Mode::StreamMode);
        let mut e = EncryptionStreams::initialize(Protected::new(k), &nonce, &alg).unwrap();
        let mut d = DecryptionStreams::initialize(Protected::new(k), &nonce, &alg).unwrap();
        for i in 0..3 {
            let m: Vec<u8> = (0..r.below(50)).map(|x| x as u8 + i).collect();
            let c = e.encrypt_next(Payload { msg: &m, aad: b"aad" }).unwrap();
            assert_eq!(d.decrypt_next(Payload { msg: &c, aad: b"aad" }).unwrap(), m);
        }
        let mut c = e.encrypt_last(Payload { msg: b"last", aad: b"aad" }).unwrap();
        c[0] ^= 1;
        assert!(d.decrypt_last(Payload { msg: &c, aad: b"aad" }).is_err());
    }
    for b in [&b""[..], b"some bytes"] {
        let h = tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: io(b) });
        assert_eq!(h.unwrap(), blake3::hash(b).to_hex().to_string());
    }
    let w = io(&[9; 200]);
    tools::overwrite::execute(tools::overwrite::Request {
        writer: &w,
        buf_capacity: 200,
        passes: 1,
    })
    .unwrap();
    assert_eq!(w.into_inner().into_inner(), [0; 200]);
}

fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}
fn zip(entries: &[(String, Vec<u8>)]) -> Vec<u8> {
    let (mut out, mut central) = (vec![], vec![]);
    for (n, d) in entries {
        let mut common = vec![20, 0, 0, 8, 0, 0, 0, 0, 0x21, 0];
        for x in [crc(d), d.len() as u32, d.len() as u32] {
            common.extend(x.to_le_bytes());
        }
        common.extend((n.len() as u16).to_le_bytes());
        common.extend([0, 0]);
        central.extend(b"PK\x01\x02\x14\x03");
        central.extend(&common);
        central.extend([0; 6]);
        central.extend(0o100_644_0000u32.to_le_bytes());
        central.extend((out.len() as u32).to_le_bytes());
        central.extend(n.as_bytes());
        out.extend(b"PK\x03\x04");
        out.extend(&common);
        out.extend(n.as_bytes());
        out.extend(d);
    }
    let at = out.len() as u32;
    out.extend(&central);
    out.extend(b"PK\x05\x06\0\0\0\0");
    out.extend((entries.len() as u16).to_le_bytes());
    out.extend((entries.len() as u16).to_le_bytes());
    out.extend((central.len() as u32).to_le_bytes());
    out.extend(at.to_le_bytes());
    out.extend([0, 0]);
    out
}

fn unpack(stor: &Arc<FileStorage>, dir: &Path, tag: &str) -> PathBuf {
    let mut es = vec![];
    for i in 0..4 {
        es.push((format!("d{}/e{i}/", i % 2), vec![]));
    }
    es.push(("d0/e0/f".into(), b"inside".to_vec()));
    es.push(("top".into(), b"top".to_vec()));
    let packed = dir.join(format!("{tag}.packed"));
    std::fs::write(&packed, file(Algorithm::XChaCha20Poly1305, b"k", &zip(&es))).unwrap();
    let out = dir.join(format!("{tag}.res"));
    let r = RefCell::new(std::fs::File::open(&packed).unwrap());
    tools::unpack::execute(
        stor.clone(),
        tools::unpack::Request {
            reader: &r,
            header_reader: None,
            raw_key: key(b"k"),
            output_dir_path: out.clone(),
            on_decrypted_header: None,
            on_archive_info: None,
            on_zip_file: None,
        },
    )
    .unwrap();
    assert_eq!(std::fs::read(out.join("d0/e0/f")).unwrap(), b"inside");
    assert!(out.join("d1/e3").is_dir());
    out
}

fn tree(dir: &Path) {
    std::fs::create_dir_all(dir.join("sub/subsub")).unwrap();
    for i in 0..4 {
        std::fs::write(dir.join(format!("f{i}")), vec![7; 20 * i]).unwrap();
    }
    std::fs::write(dir.join("sub/subsub/deep"), b"deep").unwrap();
}
fn erase_dir(stor: &Arc<FileStorage>, dir: &Path) {
    let entry = stor.read_file(dir).unwrap();
    tools::erase_dir::execute(stor.clone(), tools::erase_dir::Request { entry, passes: 1 }).unwrap();
    assert!(!dir.exists());
}

fn threads(base: &Path) {
    let stor = Arc::new(FileStorage);
    std::thread::scope(|s| {
        let (a, b) = (stor.clone(), stor.clone());
        s.spawn(move || {
            let d = base.join("a");
            tree(&d);
            erase_dir(&a, &d);
        });
        s.spawn(move || {
            let p = base.join("b");
            std::fs::write(&p, b"some bytes").unwrap();
            tools::erase::execute(b, tools::erase::Request { path: p.clone(), passes: 2 }).unwrap();
            assert!(!p.exists());
        });
    });
}

fn unpacks(base: &Path) {
    let stor = Arc::new(FileStorage);
    let out = unpack(&stor, base, "x");
    erase_dir(&stor, &out);
}

fn apis(r: &mut Rng) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut a = api::Api {
        below: &mut |n| r.below(n),
        run: &|f| {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        },
        leave: &|b| {
            std::hint::black_box(b.iter().fold(0u8, |a, b| a ^ b));
        },
        calls: 0,
    };
    a.exercise(3, false);
    let _ = std::panic::take_hook();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let base = PathBuf::from(a.get(3).cloned().unwrap_or_default());
    match a[1].as_str() {
        "api" => apis(&mut r),
        "keys" => keys(&mut r),
        "headers" => headers(&mut r),
        "streams" => streams(&mut r),
        "threads" => threads(&base),
        "unpack" => unpacks(&base),
        "nothing" => {}
        x => panic!("{x}"),
    }
    println!("DONE {}", a[1]);
}
