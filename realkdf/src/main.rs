//! C30: the password hashing with its real cost, against the published algorithms.
#![allow(dead_code)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/monio.rs"]
mod monio;
#[path = "../../harness/src/ops.rs"]
mod ops;
#[path = "../../harness/src/refimpl.rs"]
mod refimpl;
#[path = "../../harness/src/util.rs"]
mod util;

use corecrypto::header::{HashingAlgorithm, HeaderVersion};
use corecrypto::key::{argon2id_hash, balloon_hash};
use ops::*;
use std::sync::Mutex;
use util::*;

/// The balloon function, written from the paper (Boneh, Corrigan-Gibbs, Schechter 2016, section 3.1)
/// with three dependencies per block, for BLAKE3 and one lane.
fn balloon(pwd: &[u8], salt: &[u8], space: usize, rounds: u64) -> [u8; 32] {
    let mut cnt = 0u64;
    let mut hash = |parts: &[&[u8]]| -> [u8; 32] {
        let mut h = blake3::Hasher::new();
        h.update(&cnt.to_le_bytes());
        cnt += 1;
        for p in parts {
            h.update(p);
        }
        *h.finalize().as_bytes()
    };
    let mut buf = Vec::with_capacity(space);
    buf.push(hash(&[pwd, salt]));
    for m in 1..space {
        let b = hash(&[&buf[m - 1]]);
        buf.push(b);
    }
    for t in 0..rounds {
        for m in 0..space {
            let prev = buf[(m + space - 1) % space];
            buf[m] = hash(&[&prev, &buf[m]]);
            for i in 0..3u64 {
                let mut ints = blake3::Hasher::new();
                ints.update(&t.to_le_bytes());
                ints.update(&(m as u64).to_le_bytes());
                ints.update(&i.to_le_bytes());
                let h = hash(&[salt, ints.finalize().as_bytes()]);
                // the hash as a little-endian number modulo the number of blocks
                let other = h.iter().rev().fold(0u64, |a, b| ((a << 8) | u64::from(*b)) % space as u64) as usize;
                let o = buf[other];
                buf[m] = hash(&[&buf[m], &o]);
            }
        }
    }
    buf[space - 1]
}

/// What the documentation promises, from algorithms that are checked here themselves.
fn expected(k: Kdf, pwd: &[u8], salt: &[u8; 16]) -> [u8; 32] {
    match k {
        Kdf::Balloon(4) => balloon(pwd, salt, 262_144, 1),
        Kdf::Balloon(5) => balloon(pwd, salt, 278_528, 1),
        k => refimpl::derive(k, pwd, salt),
    }
}

/// The test vector of RFC 9106, section 5.3 (argon2id).
fn argon_vector(o: &mut Obs) {
    let mut b = argon2::ParamsBuilder::new();
    b.m_cost(32).unwrap().t_cost(3).unwrap().p_cost(4).unwrap().data(&[4; 12]).unwrap();
    let params = b.params().unwrap();
    let a = argon2::Argon2::new_with_secret(&[3; 8], argon2::Algorithm::Argon2id, argon2::Version::V0x13, params).unwrap();
    let mut out = [0u8; 32];
    a.hash_password_into(&[1; 32], &[2; 16], &mut out).unwrap();
    let ok = hex(&out) == "0d640df58d78766c08c037a34a8b53c9d01ef0452d75b65eb52520e96b01e659";
    o.count("vectors", 1);
    if !ok {
        o.inconclusive("the argon2 crate does not reproduce the published vector");
    }
}

fn show(k: Kdf) -> String {
    format!("{k:?}")
}

/// One derivation compared with the oracle.
fn kat(o: &mut Obs, k: Kdf, pwd: &[u8], salt: [u8; 16], keys: &Mutex<Vec<(String, [u8; 32])>>) {
    let got = guard(|| k.real().hash(prot(pwd), &salt));
    o.eval(&(show(k), pwd.to_vec(), salt), true);
    o.count(&format!("derivations_{}", show(k)), 1);
    let what = format!("{} of password {} with salt {}", show(k), brief(pwd), hex(&salt));
    o.sample(|| what.clone());
    match got {
        Out::Ok(key) => {
            let key = *key.expose();
            let want = expected(k, pwd, &salt);
            if key != want {
                o.viol("wrong-key", format!("{what} gives {}, the published algorithm {}", hex(&key), hex(&want)));
            }
            let mut g = keys.lock().unwrap();
            if let Some((other, _)) = g.iter().find(|(w, x)| *x == key && *w != what) {
                o.viol("same-key", format!("{what} gives the same key as {other}"));
            }
            g.push((what, key));
        }
        x => o.viol("refused", format!("{what}: {}", x.name_only_())),
    }
}

trait NameOnly {
    fn name_only_(&self) -> String;
}
impl<T> NameOnly for Out<T> {
    fn name_only_(&self) -> String {
        self.name()
    }
}

fn refusals(o: &mut Obs) {
    let salt = [7u8; 16];
    for i in (-300..=300).chain([i32::MIN, i32::MAX, 1 << 8 | 1, 1 << 16 | 3, 1 << 8 | 5]) {
        for (k, ok) in [(HashingAlgorithm::Argon2id(i), (1..=3).contains(&i)), (HashingAlgorithm::Blake3Balloon(i), (4..=5).contains(&i))] {
            if ok {
                continue;
            }
            let name = format!("{k}");
            let r = guard(|| k.hash(prot(b"password"), &salt));
            o.eval(&(&name, i), true);
            o.count("unsupported", 1);
            match r {
                Out::Err(_) => {}
                Out::Ok(_) => o.viol("unsupported-accepted", format!("{name} ({i}) gives a key")),
                Out::Panic(p) => o.viol("panic", format!("{name} ({i}) panics: {p}")),
            }
        }
    }
    for v in 1..=5u8 {
        let (a, b) = (
            guard(|| argon2id_hash(prot(b"password"), &salt, &version(v))),
            guard(|| balloon_hash(prot(b"password"), &salt, &version(v))),
        );
        o.eval(&("direct", v), true);
        o.count("unsupported", 1);
        let want = |k: Kdf| expected(k, b"password", &salt);
        let mut judge = |name: &str, got: Out<corecrypto::protected::Protected<[u8; 32]>>, k: Option<Kdf>| match (got, k) {
            (Out::Ok(x), Some(k)) if *x.expose() == want(k) => {}
            (Out::Err(_), None) => {}
            (Out::Ok(_), Some(k)) => o.viol("wrong-key", format!("{name} of version {v} does not give {}", show(k))),
            (Out::Ok(_), None) => o.viol("unsupported-accepted", format!("{name} of version {v} gives a key")),
            (x, _) => o.viol("refused", format!("{name} of version {v}: {}", x.name())),
        };
        judge("argon2id_hash", a, (v <= 3).then_some(Kdf::Argon(i32::from(v))));
        judge("balloon_hash", b, (v >= 4).then_some(Kdf::Balloon(i32::from(v))));
    }
    let _ = HeaderVersion::V1;
}

/// A file written by the library opens with keys from the oracle, and the reverse.
fn files(o: &mut Obs, k: Kdf, ver: u8) {
    let r = &mut o.rng;
    let key = gen::password(r);
    let n = r.below(3000);
    let pt = r.bytes(n);
    let alg = gen::alg(r);
    let mut spec = Spec::new(alg, k);
    spec.ver = ver;
    o.eval(&("file", show(k), ver, key.clone(), pt.clone()), true);
    o.count("files", 1);
    let what = format!("V{ver} file with {} and password {}", show(k), brief(&key));
    // (files of version 3 are read, not written)
    let written = if ver >= 4 { Some(encrypt(spec, &key, &pt)) } else { None };
    match written {
        None => {}
        Some(Out::Ok(e)) => match refimpl::decode(None, &e.whole(), &key) {
            Ok(x) if x == pt => {}
            Ok(_) => o.viol("file", format!("{what}: another content")),
            Err(x) => o.viol("file", format!("{what} does not open with the published algorithm: {x}")),
        },
        Some(x) => o.viol("file", format!("{what}: {}", x.name_only_())),
    }
    let m = refimpl::make(&mut o.rng, ver, alg, false, &[(0, k, key.clone())], &pt);
    let (res, out) = decrypt(None, &[m.header, m.body].concat(), &key);
    if !res.ok() || out != pt {
        o.viol("file", format!("{what}, made with the published algorithm, does not open: {}", res.name()));
    }
}

fn main() {
    install_hook();
    let mut ctx = Ctx::new("C30");
    ctx.rule = "Derived keys are compared with argon2id (crate checked with the RFC 9106 vector) and an own implementation of the balloon function, at the documented cost; \
        unsupported choices must be refused; files written and read with real cost. Non-trivial: distinct (choice, password, salt)."
        .into();
    ctx.need("unsupported", 1000);
    for k in KDFS {
        ctx.need(&format!("derivations_{}", show(k)), 3);
    }
    ctx.need("files", 6);
    ctx.min_evals = 1200;
    let keys = Mutex::new(vec![]);
    ctx.par(1, 300, |o| {
        let mut jobs: Vec<Box<dyn Fn(&mut Obs) + '_>> = vec![];
        jobs.push(Box::new(|o| {
            argon_vector(o);
        }));
        jobs.push(Box::new(refusals));
        // (passwords chosen so that dropping, cutting or re-encoding any part of them shows)
        let long: Vec<u8> = (0..70_001u32).map(|i| (i * 7 % 251) as u8).collect();
        let mut long2 = long.clone();
        *long2.last_mut().unwrap() ^= 1;
        let mut long3 = long.clone();
        long3[35_000] ^= 0x80;
        let huge: Vec<u8> = (0..1_200_000u32).map(|i| (i * 7 % 251) as u8).collect();
        let salt: [u8; 16] = *b"0123456789abcdef";
        let mut salt2 = salt;
        salt2[15] ^= 1;
        let mut salt3 = salt;
        salt3[0] ^= 0x80;
        let mut cases: Vec<(Kdf, Vec<u8>, [u8; 16])> = vec![];
        for k in KDFS {
            let v: Vec<(Vec<u8>, [u8; 16])> = vec![
                (long.clone(), salt),
                (long2.clone(), salt),
                (b"password".to_vec(), salt),
                (b"password".to_vec(), salt2),
                (b"password".to_vec(), salt3),
                (huge.clone(), salt),
                (b"p\0\xFF\xC3\n ".to_vec(), [0xFF; 16]),
                (vec![], salt),
                (long3.clone(), salt),
                (b"Password".to_vec(), salt),
                (b"password\n".to_vec(), salt),
                (b"password\0".to_vec(), [0; 16]),
            ];
            let n = if o.thorough || k == Kdf::Argon(1) { v.len() } else { 6 };
            cases.extend(v.into_iter().take(n).map(|(p, s)| (k, p, s)));
        }
        // spread the choices over the workers
        cases.sort_by_key(|c| hash_of(&(c.1.clone(), c.2)));
        for (k, p, s) in cases {
            let keys = &keys;
            jobs.push(Box::new(move |o| kat(o, k, &p, s, keys)));
        }
        for (k, ver) in [
            (Kdf::Balloon(5), 5),
            (Kdf::Argon(3), 5),
            (Kdf::Argon(1), 5),
            (Kdf::Argon(2), 5),
            (Kdf::Balloon(4), 5),
            (Kdf::Balloon(4), 4),
            (Kdf::Argon(3), 3),
        ] {
            jobs.push(Box::new(move |o| files(o, k, ver)));
        }
        for (i, j) in jobs.iter().enumerate() {
            if o.mine(i) {
                j(o);
            }
        }
    });
    // every bit of password and salt counts: the cheapest choice, with many more inputs
    let secs = ctx.pick(3, 60);
    ctx.par(2, secs, |o| {
        let base = gen::password(&mut o.rng);
        let salt: [u8; 16] = o.rng.bytes(16).try_into().unwrap();
        kat(o, Kdf::Argon(1), &base, salt, &keys);
        let mut i = 0;
        while o.time_left() {
            let (mut p, mut s) = (base.clone(), salt);
            if i % 2 == 0 {
                s[(i / 2) % 16] ^= 1 << o.rng.below(8);
            } else {
                let at = (i / 2) % p.len();
                p[at] ^= 1 << o.rng.below(8);
            }
            i += 1;
            kat(o, Kdf::Argon(1), &p, s, &keys);
        }
    });
    let secs = ctx.pick(0, 600);
    ctx.par(3, secs, |o| {
        while o.time_left() {
            let k = gen::kdf(&mut o.rng);
            let p = gen::password(&mut o.rng);
            let s: [u8; 16] = o.rng.bytes(16).try_into().unwrap();
            kat(o, k, &p, s, &keys);
        }
    });
    std::process::exit(ctx.finish());
}
