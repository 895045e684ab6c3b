//! The allocator of the harness: it can look for secrets in every block that is released, and it
//! accounts for the memory a thread has allocated. C16 is decided with it.
use crate::arch;
use crate::gen;
use crate::monio::{Chunk, Fault, Kind, MonIo};
use crate::ops::*;
use crate::refimpl::{self, RefHeader, BLOCK};
use crate::trace::Scratch;
use crate::util::*;
use corecrypto::protected::Protected;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};

pub struct Mon;

const MAXN: usize = 6;
const NLEN: usize = 16;

#[derive(Clone, Copy)]
pub struct Watch {
    needles: [[u8; NLEN]; MAXN],
    n: usize,
    /// needles that were found in a released block, with its size
    hits: [(usize, usize); 8],
    nhits: usize,
    blocks: u64,
    bytes: u64,
    /// the same for what other threads release
    others: *mut Watch,
}

thread_local! {
    static WATCH: Cell<*mut Watch> = const { Cell::new(std::ptr::null_mut()) };
    /// threads of the harness; what others release is looked at for every watcher
    static KNOWN: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

static WATCHERS: [AtomicPtr<Watch>; 16] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 16];
static WATCHING: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static ELSEWHERE: AtomicU64 = AtomicU64::new(0);

fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let t = f();
    LOCK.store(false, Ordering::Release);
    t
}

fn account(d: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + d;
        l.set(n);
        let _ = PEAK.try_with(|p| {
            if n > p.get() {
                p.set(n);
            }
            // a runaway must not take the sandbox along
            if n > 6 << 30 {
                unsafe { libc::abort() }
            }
        });
    });
}

unsafe fn look(w: &mut Watch, p: *const u8, n: usize) {
    w.blocks += 1;
    w.bytes += n as u64;
    for i in 0..w.n {
        let f = libc::memmem(p.cast(), n, w.needles[i].as_ptr().cast(), NLEN);
        if !f.is_null() && w.nhits < w.hits.len() {
            w.hits[w.nhits] = (i, n);
            w.nhits += 1;
        }
    }
}

unsafe fn scan(p: *const u8, n: usize) {
    if n < NLEN {
        return;
    }
    let mine = WATCH.try_with(Cell::get).unwrap_or(std::ptr::null_mut());
    if !mine.is_null() {
        look(&mut *mine, p, n);
    } else if WATCHING.load(Ordering::Relaxed) > 0 && !KNOWN.try_with(Cell::get).unwrap_or(false) {
        // a thread that an operation started
        ELSEWHERE.fetch_add(1, Ordering::Relaxed);
        locked(|| {
            for w in &WATCHERS {
                let w = w.load(Ordering::Relaxed);
                if !w.is_null() {
                    // (what the watching thread itself does not touch)
                    look(&mut *(*w).others, p, n);
                }
            }
        });
    }
}

/// New blocks do not show what was in them before, such as the copies of a password that the
/// harness itself made: a block may be released before it was filled.
static CLEAN: AtomicBool = AtomicBool::new(false);

unsafe fn clean(p: *mut u8, from: usize, to: usize) {
    if CLEAN.load(Ordering::Relaxed) && from < to {
        std::ptr::write_bytes(p.add(from), 0xA7, to - from);
    }
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            account(l.size() as i64);
            clean(p, 0, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            account(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        scan(p, l.size());
        account(-(l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let watched = WATCH.try_with(|w| !w.get().is_null()).unwrap_or(false);
        if !watched {
            account(n as i64 - l.size() as i64);
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                clean(q, l.size(), n);
            }
            return q;
        }
        // a block that grows may always move: let it, and look at what stays behind
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            clean(q, l.size(), n);
            account(n as i64);
            self.dealloc(p, l);
        }
        q
    }
}

/// The most memory this thread held during `f` beyond what it held before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let t = f();
    let p = PEAK.with(Cell::get);
    (t, (p - base).max(0) as u64)
}

pub struct Seen {
    pub hits: Vec<(usize, usize)>,
    pub blocks: u64,
    pub bytes: u64,
}

/// Runs `f` and looks for the needles in every heap block this thread releases meanwhile.
pub fn watch<T>(needles: &[[u8; NLEN]], f: impl FnOnce() -> T) -> (T, Seen) {
    assert!(needles.len() <= MAXN);
    let mut w = Watch {
        needles: [[0; NLEN]; MAXN],
        n: needles.len(),
        hits: [(0, 0); 8],
        nhits: 0,
        blocks: 0,
        bytes: 0,
        others: std::ptr::null_mut(),
    };
    w.needles[..needles.len()].copy_from_slice(needles);
    let mut others = w;
    w.others = &mut others;
    let pw: *mut Watch = &mut w;
    KNOWN.with(|k| k.set(true));
    let slot = locked(|| {
        let i = WATCHERS.iter().position(|w| w.load(Ordering::Relaxed).is_null());
        if let Some(i) = i {
            WATCHERS[i].store(pw, Ordering::Relaxed);
        }
        i
    });
    WATCHING.fetch_add(1, Ordering::Relaxed);
    WATCH.with(|c| c.set(pw));
    scrub_stack();
    let t = f();
    WATCH.with(|c| c.set(std::ptr::null_mut()));
    WATCHING.fetch_sub(1, Ordering::Relaxed);
    if let Some(i) = slot {
        locked(|| WATCHERS[i].store(std::ptr::null_mut(), Ordering::Relaxed));
    }
    let w = unsafe { std::ptr::read_volatile(pw) };
    let x = unsafe { std::ptr::read_volatile(&others) };
    (
        t,
        Seen {
            hits: [&w.hits[..w.nhits], &x.hits[..x.nhits]].concat(),
            blocks: w.blocks + x.blocks,
            bytes: w.bytes + x.bytes,
        },
    )
}

/// Overwrites what the harness has left below its own frames: values that are moved to the heap carry
/// along whatever was in their padding.
#[inline(never)]
fn scrub_stack() {
    let mut a = [0u64; 16 * 1024];
    for x in &mut a {
        unsafe { std::ptr::write_volatile(x, 0xA7A7_A7A7_A7A7_A7A7) };
    }
    std::hint::black_box(&a);
}

thread_local! {
    /// makes the secrets of a repeated case others
    static TWIST: Cell<u64> = const { Cell::new(0) };
}

fn twisted(mut b: Vec<u8>) -> Vec<u8> {
    let t = TWIST.with(Cell::get).to_le_bytes();
    for (i, b) in b.iter_mut().enumerate() {
        *b ^= t[i % 8];
    }
    b
}

/// Runs a case; a secret that was found in released memory counts if repeating the case with other
/// secrets shows it again. (The padding of a value that is moved from the stack to the heap holds whatever
/// was on the stack before; that is found now and then, depends on the addresses, and does not repeat.)
fn confirmed(o: &mut Obs, case: impl Fn(&mut Obs)) {
    let start = o.rng.clone();
    let had = o.viols.len();
    case(o);
    let found = |o: &Obs| o.viols[had..].iter().any(|v| v.sig.ends_with("-in-freed-memory"));
    if !found(o) {
        return;
    }
    let (first, end) = (o.viols.split_off(had), o.rng.clone());
    let mut again = false;
    for i in 1..=8u64 {
        TWIST.with(|t| t.set(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        o.rng = start.clone();
        case(o);
        again |= found(o);
        o.viols.truncate(had);
    }
    TWIST.with(|t| t.set(0));
    o.rng = end;
    if !again {
        o.count("found_once_but_not_again", 1);
    }
    o.viols.extend(first.into_iter().filter(|v| again || !v.sig.ends_with("-in-freed-memory")));
}

fn first16(b: &[u8]) -> [u8; NLEN] {
    b[..NLEN].try_into().unwrap()
}
fn last16(b: &[u8]) -> [u8; NLEN] {
    b[b.len() - NLEN..].try_into().unwrap()
}

fn roomy(data: &[u8], cap: usize) -> MonIo {
    let mut v = Vec::with_capacity(cap.max(data.len()) + 64);
    v.extend_from_slice(data);
    MonIo::new(v)
}

/// Plaintext in which every 16 bytes are the same marker, so that any piece of 32 bytes shows it.
fn marked(r: &mut Rng, len: usize) -> (Vec<u8>, [u8; NLEN]) {
    let m = first16(&twisted(r.bytes(16)));
    ((0..len).map(|i| m[i % NLEN]).collect(), m)
}

fn judge(o: &mut Obs, s: &Seen, names: &[&str], what: &str, detail: &str) {
    o.count("blocks_released", s.blocks);
    o.count("bytes_scanned", s.bytes);
    o.count(what, 1);
    for (i, n) in &s.hits {
        if names[*i] == "master key" && *n > 48 {
            // the state of a cipher, which holds its key by design; only bare copies are judged
            o.count("cipher_states_released", 1);
            continue;
        }
        o.viol(
            &format!("{}-in-freed-memory", names[*i].replace(' ', "-")),
            format!("{what}: a released block of {n} bytes holds the {}; {detail}", names[*i]),
        );
    }
}

fn secret_key(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 128, 129, 300, 1000]);
    twisted(r.bytes(n))
}

fn library_case(o: &mut Obs) {
    let alg = gen::alg(&mut o.rng);
    let kdf = gen::kdf(&mut o.rng);
    let key = secret_key(&mut o.rng);
    let key2 = secret_key(&mut o.rng);
    let bad = secret_key(&mut o.rng);
    let len = match o.rng.below(6) {
        0 => o.rng.range(0, 64),
        1 => BLOCK + o.rng.range(0, 100),
        2 => 2 * BLOCK - 1,
        _ => o.rng.range(64, 20_000),
    };
    let (pt, mark) = marked(&mut o.rng, len);
    let mut spec = Spec::new(alg, kdf);
    spec.detached = o.rng.chance(1, 3);
    if o.rng.chance(1, 6) {
        spec.ver = 4;
        spec.kdf = Kdf::Balloon(4);
    }
    let d = format!("{spec:?}, password of {} bytes, content of {len} bytes", key.len());
    o.sample(|| format!("every library operation: {d}"));
    o.eval(&(&d, hash_of(&key)), true);
    let names = ["password", "password", "plaintext", "master key", "master key", "new password"];
    let need = |extra: &[[u8; NLEN]]| [&[first16(&key), last16(&key), mark][..], extra].concat();
    let cap = len + 16 * (len / BLOCK + 1) + 1000;

    // encryption, successful
    let (r, w, h) = (roomy(&pt, 0), roomy(&[], cap), roomy(&[], 1000));
    let (e, s) = watch(&need(&[]), || encrypt_io(spec, &key, &r, &w, spec.detached.then_some(&h)));
    judge(o, &s, &names, "encryption", &format!("{}; {d}", e.name()));
    if !e.ok() {
        return o.viol("encrypt", format!("{}; {d}", e.name()));
    }
    let (body, hd) = (w.data(), h.data());
    let hdr = if spec.detached { &hd[..] } else { &body[..header_len(spec.ver)] };
    let master = RefHeader::parse(hdr).ok().and_then(|(h, _)| h.body_key(&key));
    let Some(m) = master else { return };
    let keys = [first16(&m), last16(&m)];

    // decryption, successful
    let (r, w, h) = (roomy(&body, 0), roomy(&[], cap), roomy(&hd, 0));
    let (e, s) = watch(&need(&keys), || decrypt_io(spec.detached.then_some(&h), &r, &w, &key));
    judge(o, &s, &names, "decryption", &format!("{}; {d}", e.name()));
    if !e.ok() || w.data() != pt {
        return o.viol("decrypt", format!("{}; {d}", e.name()));
    }
    // failing: wrong key, damaged body, failing streams; passwords must not remain
    let (r, w, h) = (roomy(&body, 0), roomy(&[], cap), roomy(&hd, 0));
    let nb = [first16(&bad), last16(&bad)];
    let (_, s) = watch(&nb, || decrypt_io(spec.detached.then_some(&h), &r, &w, &bad));
    judge(o, &s, &["password"; 6], "failed decryption", &format!("wrong key; {d}"));
    let mut dam = body.clone();
    let i = o.rng.below(dam.len());
    dam[i] ^= 4;
    let (r, w, h) = (roomy(&dam, 0), roomy(&[], cap), roomy(&hd, 0));
    let nk = [first16(&key), last16(&key)];
    let (_, s) = watch(&nk, || decrypt_io(spec.detached.then_some(&h), &r, &w, &key));
    judge(o, &s, &["password"; 6], "failed decryption", &format!("byte {i} damaged; {d}"));
    let at = o.rng.below(6) as u64;
    let fault = |k| Fault {
        at,
        kind: Some(k),
        err: std::io::ErrorKind::Other,
        sticky: true,
        partial: 0,
        zero: false,
    };
    let (rf, wf) = if o.rng.chance(1, 2) { (true, false) } else { (false, true) };
    let (r, w) = (roomy(&pt, 0), roomy(&[], cap));
    let (r, w) = (if rf { r.fault(fault(Kind::Read)) } else { r }, if wf { w.fault(fault(Kind::Write)) } else { w });
    let h = roomy(&[], 1000);
    let (_, s) = watch(&nk, || encrypt_io(spec, &key, &r, &w, spec.detached.then_some(&h)));
    judge(o, &s, &["password"; 6], "failed encryption", &d);
    // refused combinations
    let mut odd = spec;
    odd.ver = *o.rng.pick(&[1, 2, 3, 4, 5]);
    odd.memory = o.rng.chance(1, 2);
    odd.kdf = *o.rng.pick(&[Kdf::Argon(0), Kdf::Argon(4), Kdf::Balloon(3), Kdf::Balloon(9), Kdf::Argon(3)]);
    let (r, w) = (roomy(&pt, 0), roomy(&[], cap + 70_000));
    let h = roomy(&[], 1000);
    let (_, s) = watch(&nk, || encrypt_io(odd, &key, &r, &w, odd.detached.then_some(&h)));
    judge(o, &s, &["password"; 6], "refused encryption", &format!("{odd:?}"));

    // key operations
    if spec.ver == 5 && !spec.detached {
        let small = body[..body.len().min(1000)].to_vec();
        let nk = [first16(&key), last16(&key), first16(&key2), last16(&key2), keys[0], keys[1]];
        let kn = ["password", "password", "new password", "new password", "master key", "master key"];
        let f = roomy(&small, 2000);
        let (e, s) = watch(&nk, || key_add(&f, &key, &key2, kdf));
        judge(o, &s, &kn, "key addition", &format!("{}; {d}", e.name()));
        let f = roomy(&f.data(), 2000);
        let (e, s) = watch(&nk, || key_verify(&f, &key2));
        judge(o, &s, &kn, "key verification", &format!("{}; {d}", e.name()));
        let f = roomy(&f.data(), 2000);
        let (e, s) = watch(&nk, || key_change(&f, &key2, &key, kdf));
        judge(o, &s, &kn, "key change", &format!("{}; {d}", e.name()));
        let f = roomy(&f.data(), 2000);
        let (e, s) = watch(&nk, || key_delete(&f, &key));
        judge(o, &s, &kn, "key deletion", &format!("{}; {d}", e.name()));
        let f = roomy(&small, 2000);
        for which in 0..4 {
            let nb = [first16(&bad), last16(&bad), first16(&key2), last16(&key2)];
            f.lock().pos = 0;
            let (e, s) = watch(&nb, || match which {
                0 => key_add(&f, &bad, &key2, kdf),
                1 => key_change(&f, &bad, &key2, kdf),
                2 => key_delete(&f, &bad),
                _ => key_verify(&f, &bad),
            });
            judge(o, &s, &kn, "failed key operation", &format!("{}; {d}", e.name()));
        }
        let short = roomy(&small[..o.rng.below(416)], 2000);
        let (_, s) = watch(&nk[..4], || key_add(&short, &key, &key2, kdf));
        judge(o, &s, &kn, "failed key operation", "short file");
    }

    // old versions and single-message mode: the password
    let ver = o.rng.range(1, 5) as u8;
    let mem = o.rng.chance(1, 2);
    let m = refimpl::make(&mut o.rng, ver, alg, mem, &[(0, kdf, key.clone())], &pt[..len.min(5000)]);
    let whole = [m.header, m.body].concat();
    let (r, w) = (roomy(&whole, 0), roomy(&[], 6000));
    let mut nk = vec![first16(&key), last16(&key), first16(&m.master), last16(&m.master)];
    if !mem {
        nk.push(mark);
    }
    let (e, s) = watch(&nk, || decrypt_io(None, &r, &w, &key));
    judge(o, &s, &["password", "password", "master key", "master key", "plaintext"], "decryption of other versions", &format!("{}; version {ver} memory {mem}", e.name()));
    if !e.ok() {
        o.viol("decrypt", format!("version {ver}: {}", e.name()));
    }
}

/// Packing and unpacking, with whatever threads they start.
fn archive_case(o: &mut Obs, sc: &Scratch) {
    use std::sync::Arc;
    use tools::storage::{FileStorage, Storage};
    sc.reset();
    let stor = Arc::new(FileStorage);
    let (alg, kdf) = (gen::alg(&mut o.rng), gen::kdf(&mut o.rng));
    let (key, bad) = (secret_key(&mut o.rng), secret_key(&mut o.rng));
    let tree = arch::small_tree(&mut o.rng);
    arch::write_tree(&sc.path("dir"), &tree);
    let zstd = o.rng.chance(1, 2);
    let fault = o.rng.chance(1, 3);
    let d = format!("{alg:?} {kdf:?} zstd {zstd}, password of {} bytes, {} entries", key.len(), tree.len());
    o.eval(&("archive", &d, hash_of(&key)), true);
    let entry = stor.read_file(sc.path("dir")).and_then(|e| stor.read_dir(&e));
    let Ok(files) = entry else { return o.inconclusive("the tree cannot be listed") };
    let names = ["password"; 6];
    let out = if fault { "/dev/full".into() } else { sc.path("packed") };
    let Ok(w) = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&out) else { return };
    let w = RefCell::new(w);
    let (e, s) = watch(&[first16(&key), last16(&key)], || {
        guard(|| {
            tools::pack::execute(
                stor.clone(),
                tools::pack::Request {
                    compress_files: files,
                    compression_method: if zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored },
                    writer: &w,
                    header_writer: None,
                    raw_key: prot(&key),
                    header_type: Spec::new(alg, kdf).header_type(),
                    hashing_algorithm: kdf.real(),
                },
            )
        })
    });
    judge(o, &s, &names, if e.ok() { "packing" } else { "failed packing" }, &format!("{}; {d}", e.name()));
    if e.ok() == fault {
        return o.viol("pack", format!("{}; {d}", e.name()));
    }
    let m = refimpl::make(&mut o.rng, 5, alg, false, &[(1, kdf, key.clone())], &arch::zip_of(&tree, zstd));
    let whole = [m.header, m.body].concat();
    let f = sc.put("whole", &whole);
    for (k, res) in [(&bad, "a"), (&key, "b")] {
        let Ok(r) = std::fs::File::open(&f) else { return };
        let r = RefCell::new(r);
        let mut nk = vec![first16(k), last16(k)];
        if k == &key {
            nk.extend([first16(&m.master), last16(&m.master)]);
        }
        let (e, s) = watch(&nk, || {
            guard(|| {
                tools::unpack::execute(
                    stor.clone(),
                    tools::unpack::Request {
                        reader: &r,
                        header_reader: None,
                        raw_key: prot(k),
                        output_dir_path: sc.path(res),
                        on_decrypted_header: None,
                        on_archive_info: None,
                        on_zip_file: None,
                    },
                )
            })
        });
        let names = ["password", "password", "master key", "master key"];
        judge(o, &s, &names, if k == &key { "unpacking" } else { "failed unpacking" }, &format!("{}; {d}", e.name()));
        if e.ok() != (k == &key) {
            o.viol("unpack", format!("{}; {d}", e.name()));
        }
    }
    o.sample(|| format!("packing and unpacking: {d}"));
}

/// Protected values of many types, in places where their memory can be looked at afterwards.
fn protected_case(o: &mut Obs) {
    let secret = twisted(o.rng.bytes(64));
    let nd = [first16(&secret), last16(&secret), first16(&secret[20..])];
    let n = ["protected value"; 6];
    macro_rules! case {
        ($what:expr, $make:expr) => {{
            let v = $make;
            let ((), s) = watch(&nd, move || drop(v));
            judge(o, &s, &n, $what, "dropped");
            o.eval(&($what, hash_of(&secret)), true);
        }};
    }
    case!("protected array in a box", Box::new(Protected::new(<[u8; 64]>::try_from(&secret[..]).unwrap())));
    case!("protected vector", Protected::new(secret.clone()));
    case!("boxed protected vector", Box::new(Protected::new(secret.clone())));
    let text: String = secret.iter().map(|b| (b % 94 + 33) as char).collect();
    let tn = [first16(text.as_bytes()), last16(text.as_bytes())];
    {
        let v = Protected::new(text.clone());
        let ((), s) = watch(&tn, move || drop(v));
        judge(o, &s, &n, "protected string", "dropped");
    }
    case!("protected vector with spare capacity", {
        let mut v = Vec::with_capacity(4096);
        v.extend_from_slice(&secret);
        v.truncate(3);
        Protected::new(v)
    });
    case!("cleared protected vector", {
        let mut v = secret.clone();
        v.clear();
        Protected::new(v)
    });
    case!("protected boxed slice", Protected::new(secret.clone().into_boxed_slice()));
    case!("vector of protected arrays", {
        let a: [u8; 64] = secret[..].try_into().unwrap();
        let mut v = Vec::with_capacity(5);
        for _ in 0..5 {
            v.push(Protected::new(a));
        }
        v
    });
    case!("protected vector of words", {
        let w: Vec<u64> = secret.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        Protected::new(w)
    });
    case!("protected option", Protected::new(Some(secret.clone())));
    case!("boxed protected number", {
        let b: Box<[Protected<u128>]> = secret
            .chunks(16)
            .map(|c| Protected::new(u128::from_le_bytes(c.try_into().unwrap())))
            .collect();
        b
    });
    case!("large protected vector", {
        let k = o.rng.range(1, 4000);
        Protected::new(secret.iter().copied().cycle().take(64 * k).collect::<Vec<u8>>())
    });
    case!("clone of a protected vector", {
        let p = Protected::new(secret.clone());
        let q = p.clone();
        drop(p);
        q
    });
    case!("protected value dropped while unwinding", UnwindDrop(Some(Protected::new(secret.clone()))));
    // debug formatting
    let p = Protected::new(secret.clone());
    let q = Protected::new(text.clone());
    let all = [
        format!("{p:?}"),
        format!("{p:#?}"),
        format!("{q:?}"),
        format!("{q:#?}"),
        format!("{:?}", Protected::new(<[u8; 32]>::try_from(&secret[..32]).unwrap())),
        format!("{:20?}", Protected::new(0xDEAD_BEEFu32)),
        format!("{:?}", Protected::new(true)),
    ];
    let norm = all[0].trim().to_string();
    for a in &all {
        // the marker says nothing about the value: it is the same for every value and type
        if a.trim() != norm || a.contains(&text[..6]) {
            o.viol("debug", format!("{a} (and {norm} for another value)"));
        }
    }
    if norm.is_empty() || norm.bytes().any(|b| b.is_ascii_digit()) {
        o.viol("debug", norm.clone());
    }
    let nested = format!("{:?} {:?}", Some(&p), vec![&q]);
    if nested.contains(&text[..4]) || nested.contains(&format!("{}, {}", secret[0], secret[1])) || !nested.contains(&norm) {
        o.viol("debug", nested);
    }
    o.count("debug_formatted", 9);
}

struct UnwindDrop(Option<Protected<Vec<u8>>>);
impl Drop for UnwindDrop {
    fn drop(&mut self) {
        let p = self.0.take();
        let r = crate::ops::guard(move || -> Result<(), ()> {
            let _p = p;
            std::panic::panic_any(0u8);
        });
        assert!(matches!(r, Out::Panic(_)));
    }
}

pub fn c16(ctx: &mut Ctx) {
    CLEAN.store(true, Ordering::SeqCst);
    ctx.rule = "Every library operation is run, successfully and failing in several ways, while an allocator looks for the first and last 16 bytes of each \
        password and master key, and a marker that fills the plaintext, in every heap block released by the thread (blocks that grow are always moved); \
        protected values of many types and sizes are dropped likewise, and debug-formatted. non-trivial: distinct (configuration, password)."
        .into();
    ctx.assumptions = vec![
        "stack memory and registers are not looked at".into(),
        "the crates cached for this build are what their versions say; their heap use is observed as well".into(),
    ];
    ctx.min_evals = 300;
    ctx.need("blocks_released", 10_000);
    for k in ["encryption", "decryption", "failed decryption", "failed encryption", "key addition", "key change", "key deletion", "failed key operation"] {
        ctx.need(k, 30);
    }
    for k in ["packing", "unpacking", "failed unpacking"] {
        ctx.need(k, 10);
    }
    ctx.single(1, 20, |o| {
        // the monitor sees what it has to see
        let secret = o.rng.bytes(64);
        let v = secret.clone();
        let ((), s) = watch(&[first16(&secret)], move || drop(v));
        if s.hits.is_empty() {
            o.inconclusive("the allocator monitor does not see a plain vector");
        }
        let mut v = secret.clone();
        let (v, s) = watch(&[first16(&secret)], move || {
            v.reserve(1 << 16);
            v
        });
        if s.hits.is_empty() {
            o.inconclusive("the allocator monitor does not see a growing vector");
        }
        drop(v);
        let v = secret.clone();
        let ((), s) = watch(&[first16(&secret)], move || std::thread::spawn(move || drop(v)).join().unwrap());
        if s.hits.is_empty() {
            o.inconclusive("the allocator monitor does not see what another thread releases");
        }
        let _ = Chunk::Full;
    });
    ctx.par(16, ctx.pick(9, 200), |o| {
        let sc = Scratch::new();
        let mut i = 0;
        while o.time_left() {
            confirmed(o, library_case);
            confirmed(o, protected_case);
            i += 1;
            if i % 4 == 0 {
                confirmed(o, |o| archive_case(o, &sc));
            }
        }
    });
    let n = ELSEWHERE.load(Ordering::Relaxed);
    ctx.single(17, 1, |o| o.count("blocks_released_by_other_threads", n));
}
