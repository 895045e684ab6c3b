//! The library's operations, called the way a user calls them, with panics caught.
use crate::monio::MonIo;
use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion};
use corecrypto::primitives::{Algorithm, Mode};
use corecrypto::protected::Protected;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST.try_with(|l| *l.borrow_mut() = loc);
        if !QUIET.try_with(Cell::get).unwrap_or(true) {
            default(i);
        }
    }));
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    let loc = LAST.with(|l| l.borrow().clone());
    let msg = e
        .downcast_ref::<&str>()
        .map(|s| (*s).to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into());
    format!("{msg} at {loc}")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}

impl<T> Out<T> {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
    pub fn panicked(&self) -> Option<&str> {
        match self {
            Out::Panic(p) => Some(p),
            _ => None,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Out::Ok(_) => "success".into(),
            Out::Err(e) => format!("error {e}"),
            Out::Panic(p) => format!("PANIC {p}"),
        }
    }
    /// for results that cannot be shown
    pub fn name_only(&self) -> String {
        self.name()
    }
    pub fn get(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
}

pub fn guard<T, E: Debug>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    match r {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(format!("{e:?}")),
        Err(e) => Out::Panic(panic_text(&*e)),
    }
}

pub fn prot(k: &[u8]) -> Protected<Vec<u8>> {
    Protected::new(k.to_vec())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg {
    X,
    A,
    D,
}
pub const ALGS: [Alg; 3] = [Alg::X, Alg::A, Alg::D];
impl Alg {
    pub fn real(self) -> Algorithm {
        match self {
            Alg::X => Algorithm::XChaCha20Poly1305,
            Alg::A => Algorithm::Aes256Gcm,
            Alg::D => Algorithm::DeoxysII256,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kdf {
    Argon(i32),
    Balloon(i32),
}
impl Kdf {
    pub fn real(self) -> HashingAlgorithm {
        match self {
            Kdf::Argon(i) => HashingAlgorithm::Argon2id(i),
            Kdf::Balloon(i) => HashingAlgorithm::Blake3Balloon(i),
        }
    }
}
pub const KDFS: [Kdf; 5] = [Kdf::Balloon(5), Kdf::Argon(3), Kdf::Balloon(4), Kdf::Argon(1), Kdf::Argon(2)];

pub fn version(v: u8) -> HeaderVersion {
    match v {
        1 => HeaderVersion::V1,
        2 => HeaderVersion::V2,
        3 => HeaderVersion::V3,
        4 => HeaderVersion::V4,
        _ => HeaderVersion::V5,
    }
}
pub fn version_no(v: HeaderVersion) -> u8 {
    match v {
        HeaderVersion::V1 => 1,
        HeaderVersion::V2 => 2,
        HeaderVersion::V3 => 3,
        HeaderVersion::V4 => 4,
        HeaderVersion::V5 => 5,
    }
}
pub fn header_len(v: u8) -> usize {
    match v {
        1..=3 => 64,
        4 => 128,
        _ => 416,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Spec {
    pub alg: Alg,
    pub ver: u8,
    pub memory: bool,
    pub kdf: Kdf,
    pub detached: bool,
}

impl Spec {
    pub fn new(alg: Alg, kdf: Kdf) -> Self {
        Spec {
            alg,
            ver: 5,
            memory: false,
            kdf,
            detached: false,
        }
    }
    pub fn header_type(&self) -> HeaderType {
        HeaderType {
            version: version(self.ver),
            algorithm: self.alg.real(),
            mode: if self.memory { Mode::MemoryMode } else { Mode::StreamMode },
        }
    }
}

pub fn encrypt_io(spec: Spec, key: &[u8], reader: &MonIo, writer: &MonIo, header: Option<&MonIo>) -> Out<()> {
    let r = RefCell::new(reader.clone());
    let w = RefCell::new(writer.clone());
    let h = header.map(|h| RefCell::new(h.clone()));
    guard(|| {
        tools::encrypt::execute(tools::encrypt::Request {
            reader: &r,
            writer: &w,
            header_writer: h.as_ref(),
            raw_key: prot(key),
            header_type: spec.header_type(),
            hashing_algorithm: spec.kdf.real(),
        })
    })
}

#[derive(Clone, Debug)]
pub struct Enc {
    pub body: Vec<u8>,
    pub header: Option<Vec<u8>>,
}

impl Enc {
    /// header and body as one file
    pub fn whole(&self) -> Vec<u8> {
        let mut v = self.header.clone().unwrap_or_default();
        v.extend_from_slice(&self.body);
        v
    }
}

pub fn encrypt(spec: Spec, key: &[u8], pt: &[u8]) -> Out<Enc> {
    encrypt_at(spec, key, pt, [0; 3])
}

/// With the input, the output and the header stream standing at these positions.
pub fn encrypt_at(spec: Spec, key: &[u8], pt: &[u8], starts: [u64; 3]) -> Out<Enc> {
    let r = MonIo::new(pt.to_vec()).at(starts[0]);
    let w = MonIo::empty().at(starts[1]);
    let h = spec.detached.then(|| MonIo::empty().at(starts[2]));
    match encrypt_io(spec, key, &r, &w, h.as_ref()) {
        Out::Ok(()) => Out::Ok(Enc {
            body: w.take(),
            header: h.map(|h| h.take()),
        }),
        Out::Err(e) => Out::Err(e),
        Out::Panic(p) => Out::Panic(p),
    }
}

pub fn decrypt_io(header: Option<&MonIo>, reader: &MonIo, writer: &MonIo, key: &[u8]) -> Out<()> {
    let r = RefCell::new(reader.clone());
    let w = RefCell::new(writer.clone());
    let h = header.map(|h| RefCell::new(h.clone()));
    guard(|| {
        tools::decrypt::execute(tools::decrypt::Request {
            header_reader: h.as_ref(),
            reader: &r,
            writer: &w,
            raw_key: prot(key),
            on_decrypted_header: None,
        })
    })
}

/// The verdict and everything that was written to the output.
pub fn decrypt(header: Option<&[u8]>, body: &[u8], key: &[u8]) -> (Out<()>, Vec<u8>) {
    let r = MonIo::new(body.to_vec());
    let w = MonIo::empty();
    let h = header.map(|h| MonIo::new(h.to_vec()));
    let o = decrypt_io(h.as_ref(), &r, &w, key);
    (o, w.take())
}

pub fn key_verify(file: &MonIo, key: &[u8]) -> Out<()> {
    let h = RefCell::new(file.clone());
    guard(|| {
        tools::key::verify::execute(tools::key::verify::Request {
            handle: &h,
            raw_key: prot(key),
        })
    })
}
pub fn key_add(file: &MonIo, old: &[u8], new: &[u8], kdf: Kdf) -> Out<()> {
    let h = RefCell::new(file.clone());
    guard(|| {
        tools::key::add::execute(tools::key::add::Request {
            handle: &h,
            raw_key_old: prot(old),
            raw_key_new: prot(new),
            hash_algorithm: kdf.real(),
        })
    })
}
pub fn key_change(file: &MonIo, old: &[u8], new: &[u8], kdf: Kdf) -> Out<()> {
    let h = RefCell::new(file.clone());
    guard(|| {
        tools::key::change::execute(tools::key::change::Request {
            handle: &h,
            raw_key_old: prot(old),
            raw_key_new: prot(new),
            hash_algorithm: kdf.real(),
        })
    })
}
pub fn key_delete(file: &MonIo, old: &[u8]) -> Out<()> {
    let h = RefCell::new(file.clone());
    guard(|| {
        tools::key::delete::execute(tools::key::delete::Request {
            handle: &h,
            raw_key_old: prot(old),
        })
    })
}
pub fn dump(file: &MonIo, out: &MonIo) -> Out<()> {
    let (r, w) = (RefCell::new(file.clone()), RefCell::new(out.clone()));
    guard(|| tools::header::dump::execute(tools::header::dump::Request { reader: &r, writer: &w }))
}
pub fn strip(file: &MonIo) -> Out<()> {
    let h = RefCell::new(file.clone());
    guard(|| tools::header::strip::execute(tools::header::strip::Request { handle: &h }))
}
pub fn restore(header: &MonIo, target: &MonIo) -> Out<()> {
    let (r, w) = (RefCell::new(header.clone()), RefCell::new(target.clone()));
    guard(|| tools::header::restore::execute(tools::header::restore::Request { reader: &r, writer: &w }))
}
pub fn hash(io: &MonIo) -> Out<String> {
    let io = io.clone();
    guard(|| {
        tools::hash::execute(
            tools::hasher::Blake3Hasher::default(),
            tools::hash::Request { reader: RefCell::new(io) },
        )
    })
}
pub fn overwrite(io: &MonIo, n: usize, passes: i32) -> Out<()> {
    let w = RefCell::new(io.clone());
    guard(|| {
        tools::overwrite::execute(tools::overwrite::Request {
            writer: &w,
            buf_capacity: n,
            passes,
        })
    })
}
pub fn deserialize(io: &MonIo) -> Out<(Header, Vec<u8>)> {
    let mut io = io.clone();
    guard(|| Header::deserialize(&mut io))
}
