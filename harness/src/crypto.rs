//! C01 round trip, C02 chunked I/O, C03 format, C04 tampering, C05 released plaintext, C06 keys,
//! C29 ciphertext contents, C31 primitives.
use crate::big;
use crate::gen;
use crate::monio::{Chunk, MonIo, Op};
use crate::ops::*;
use crate::trace::Scratch;
use crate::refimpl::{self, RefHeader, BLOCK, TAG};
use crate::util::*;
use std::cell::RefCell;

fn all_kdfs() -> Vec<Kdf> {
    let mut v = KDFS.to_vec();
    for i in [-1, 0, 4, 5, i32::MAX] {
        v.push(Kdf::Argon(i));
    }
    for i in [i32::MIN, 0, 1, 3, 6] {
        v.push(Kdf::Balloon(i));
    }
    v
}
fn valid(k: Kdf) -> bool {
    KDFS.contains(&k)
}

fn roundtrip(o: &mut Obs, spec: Spec, key: &[u8], pt: &[u8], what: &str) {
    let ctx = |d: &str| {
        format!(
            "{what}: {spec:?}, key {}, content of {} bytes {}: {d}",
            brief(key),
            pt.len(),
            brief(pt)
        )
    };
    let must = spec.ver == 5 && !spec.memory && valid(spec.kdf);
    o.eval(&(spec, pt.len(), hash_of(&key), hash_of(&pt)), true);
    // encryption takes and makes whole files wherever the streams stand
    let starts = if o.rng.chance(1, 3) {
        o.count("streams_not_at_their_start", 1);
        [o.rng.below(pt.len() + 2) as u64, o.rng.range(1, 900) as u64, o.rng.range(1, 900) as u64]
    } else {
        [0; 3]
    };
    let ctx = |what: &str| format!("streams at {starts:?}: {}", ctx(what));
    match encrypt_at(spec, key, pt, starts) {
        Out::Panic(p) => o.viol("encrypt-panics", ctx(&p)),
        Out::Err(e) => {
            o.count("refused", 1);
            if must {
                o.viol("encrypt-refuses", ctx(&e));
            }
        }
        Out::Ok(e) => {
            o.count("encrypted", 1);
            o.max("max_bytes", pt.len() as u64);
            if spec.detached != e.header.is_some() {
                o.viol("detached-header", ctx("header was not written where asked"));
            }
            let (r, out) = decrypt(e.header.as_deref(), &e.body, key);
            if !r.ok() {
                o.viol("roundtrip-fails", ctx(&format!("decryption gives {}", r.name())));
            } else if out != pt {
                let at = out.iter().zip(pt).position(|(a, b)| a != b);
                o.viol(
                    "roundtrip-differs",
                    ctx(&format!("got {} bytes, first difference at {at:?}", out.len())),
                );
            }
            // the same header in front of the body, and separately with a blank place for it
            if let Some(h) = &e.header {
                let (r, out) = decrypt(None, &e.whole(), key);
                if !r.ok() || out != pt {
                    o.viol("roundtrip-joined", ctx(&format!("header put in front of the body: {}", r.name())));
                }
                let blank = [vec![0; h.len()], e.body.clone()].concat();
                let (r, out) = decrypt(Some(h), &blank, key);
                if !r.ok() || out != pt {
                    o.viol("roundtrip-blank", ctx(&format!("stripped file with separate header: {}", r.name())));
                }
                o.count("header_forms", 2);
            }
        }
    }
}

/// More than 4 GiB there and back.
fn roundtrip_long(o: &mut Obs, alg: Alg) {
    use std::io::{Cursor, Seek};
    let len = big::LONG;
    let spec = Spec::new(alg, gen::kdf(&mut o.rng));
    let key = gen::password(&mut o.rng);
    let size = 416 + len + TAG as u64 * (len / BLOCK as u64 + 1);
    let reader = RefCell::new(big::Endless { len, pos: 0 });
    let body = RefCell::new(Cursor::new(Vec::with_capacity(size as usize + 100)));
    let r = guard(|| {
        tools::encrypt::execute(tools::encrypt::Request {
            reader: &reader,
            writer: &body,
            header_writer: None,
            raw_key: prot(&key),
            header_type: spec.header_type(),
            hashing_algorithm: spec.kdf.real(),
        })
    });
    o.eval(&("long", spec, hash_of(&key)), true);
    o.max("max_bytes", len);
    o.count("of_more_than_4_GiB", 1);
    let d = |m: String| format!("{spec:?}, key {}, {len} bytes: {m}", brief(&key));
    if !r.ok() {
        return o.viol("encrypt-refuses", d(r.name()));
    }
    let _ = body.borrow_mut().rewind();
    let n = body.borrow().get_ref().len() as u64;
    if n != size {
        o.viol("roundtrip-size", d(format!("{n} bytes of output instead of {size}")));
    }
    let out = RefCell::new(big::Compare::default());
    let r = guard(|| {
        tools::decrypt::execute(tools::decrypt::Request { header_reader: None, reader: &body, writer: &out, raw_key: prot(&key), on_decrypted_header: None })
    });
    let out = out.into_inner();
    if !r.ok() {
        o.viol("roundtrip-fails", d(format!("decryption gives {}", r.name())));
    } else if out.len != len || out.in_order != len || out.wrong.is_some() {
        o.viol("roundtrip-differs", d(format!("got {} bytes, {} of them in order, first difference at {:?}", out.len, out.in_order, out.wrong)));
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "Each case encrypts one content under one configuration with the library and decrypts the result; \
        non-trivial: distinct (configuration, key, content). Systematic: every algorithm x password hashing (valid and not) x header \
        version x mode x header placement, and every length around block boundaries; then random cases."
        .into();
    ctx.min_evals = 400;
    ctx.need("encrypted", 300);
    ctx.need("refused", 50);
    ctx.need("of_many_blocks", 3);
    ctx.need("of_more_than_4_GiB", 1);
    ctx.need("streams_not_at_their_start", 100);
    let mut combos = vec![];
    for alg in ALGS {
        for kdf in all_kdfs() {
            for ver in 1..=5 {
                for memory in [false, true] {
                    for detached in [false, true] {
                        combos.push(Spec { alg, ver, memory, kdf, detached });
                    }
                }
            }
        }
    }
    let mut lens = vec![];
    for base in [0usize, BLOCK, 2 * BLOCK] {
        for d in -34i64..=34 {
            let n = base as i64 + d;
            if n >= 0 && (ctx.thorough || d.abs() <= 2 || (15..=18).contains(&d.abs())) {
                lens.push(n as usize);
            }
        }
    }
    lens.extend([416, 415, 417, BLOCK + 416, BLOCK / 2, 3 * BLOCK, 4 * BLOCK + 1, 8 * BLOCK]);
    let max = ctx.pick(3, 40);
    ctx.par(1, ctx.pick(10, 400), |o| {
        for (i, s) in combos.iter().enumerate() {
            if !o.mine(i) {
                continue;
            }
            for len in [0usize, 1, 777] {
                let pt = o.rng.bytes(len);
                let key = gen::password(&mut o.rng);
                roundtrip(o, *s, &key, &pt, "configuration");
            }
        }
        let mut i = 0;
        for &len in &lens {
            for alg in ALGS {
                for detached in [false, true] {
                    i += 1;
                    if !o.mine(i) || (alg == Alg::D && len > 2 * BLOCK && !o.thorough) {
                        continue;
                    }
                    let mut s = Spec::new(alg, gen::kdf(&mut o.rng));
                    s.detached = detached;
                    let pt = gen::content(&mut o.rng, len);
                    let key = gen::password(&mut o.rng);
                    roundtrip(o, s, &key, &pt, "boundary");
                }
            }
        }
        if o.worker == 0 {
            // (one after the other, each takes some gigabytes of memory)
            for alg in if o.thorough { &ALGS[..] } else { &ALGS[..1] } {
                roundtrip_long(o, *alg);
            }
        }
        // more blocks than one byte counts
        if (3..6).contains(&o.worker) {
            let len = 257 * BLOCK + o.rng.range(1, BLOCK - 1);
            let mut s = Spec::new(ALGS[o.worker - 3], gen::kdf(&mut o.rng));
            s.detached = o.thorough;
            let pt = o.rng.bytes(len);
            roundtrip(o, s, &gen::password(&mut o.rng.clone()), &pt, "many blocks");
            o.count("of_many_blocks", 1);
        }
        while o.time_left() {
            let mut s = Spec::new(gen::alg(&mut o.rng), gen::kdf(&mut o.rng));
            s.detached = o.rng.chance(1, 2);
            if o.rng.chance(1, 6) {
                s.ver = 4;
            }
            let blocks = if o.rng.chance(1, 20) { max } else { 2 };
            let len = gen::length(&mut o.rng, blocks);
            let pt = gen::content(&mut o.rng, len);
            let mut key = gen::password(&mut o.rng);
            if o.rng.chance(1, 40) {
                key.clear();
            }
            o.sample(|| format!("{s:?} length {len} key {}", brief(&key)));
            roundtrip(o, s, &key, &pt, "random");
        }
    });
}

// ---------------------------------------------------------------------------------------------

fn io(data: &[u8], c: &Chunk, d: &Chunk) -> MonIo {
    MonIo::new(data.to_vec()).plan(c.clone(), d.clone()).budget(200_000 + 40 * data.len() as u64)
}

fn chunked_case(o: &mut Obs, len: usize, rp: &Chunk, wp: &Chunk) {
    let alg = gen::alg(&mut o.rng);
    let kdf = gen::kdf(&mut o.rng);
    let pt = gen::content(&mut o.rng, len);
    let key = gen::password(&mut o.rng);
    let key2 = [&key[..], b"2"].concat();
    let mut spec = Spec::new(alg, kdf);
    spec.detached = o.rng.chance(1, 2);
    let d = |what: &str, r: &str| format!("{what} with reads {rp:?} and writes {wp:?}, content of {len} bytes, {spec:?}: {r}");
    o.eval(&(format!("{rp:?}{wp:?}"), len, hash_of(&pt)), true);

    // encrypt
    let (r, w, h) = (io(&pt, rp, wp), io(&[], rp, wp).budget(400_000 + 60 * len as u64), io(&[], rp, wp));
    let e = encrypt_io(spec, &key, &r, &w, spec.detached.then_some(&h));
    o.count("short_reads", r.ops());
    o.count("short_writes", w.ops());
    let (whole, hd) = if spec.detached {
        (w.data(), Some(h.data()))
    } else {
        (w.data(), None)
    };
    match (&e, refimpl::decode(hd.as_deref(), &whole, &key)) {
        (Out::Ok(()), Ok(x)) if x == pt => {}
        (Out::Ok(()), Ok(x)) => o.viol("encrypt-chunked", d("encryption", &format!("holds {} other bytes", x.len()))),
        (Out::Ok(()), Err(x)) => o.viol("encrypt-chunked", d("encryption", &format!("is not readable: {x}"))),
        (x, _) => o.viol("encrypt-chunked-error", d("encryption", &x.name())),
    }

    // decrypt a file of any version
    let ver = o.rng.range(1, 5) as u8;
    let memory = len <= 2 * BLOCK && o.rng.chance(1, 3);
    let pos = o.rng.below(4);
    let m = refimpl::make(&mut o.rng, ver, alg, memory, &[(pos, kdf, key.clone())], &pt);
    let file = [m.header.clone(), m.body.clone()].concat();
    let out = io(&[], rp, wp).budget(400_000 + 60 * len as u64);
    let x = decrypt_io(None, &io(&file, rp, wp), &out, &key);
    if !x.ok() || out.data() != pt {
        o.viol(
            "decrypt-chunked",
            d(&format!("decryption (version {ver}, memory {memory})"), &format!("{}, {} bytes", x.name(), out.data().len())),
        );
    }
    let blank = o.rng.chance(1, 2);
    let body = if blank { [vec![0; m.header.len()], m.body.clone()].concat() } else { m.body.clone() };
    let out = io(&[], rp, wp).budget(400_000 + 60 * len as u64);
    let x = decrypt_io(Some(&io(&m.header, rp, wp)), &io(&body, rp, wp), &out, &key);
    if !x.ok() || out.data() != pt {
        o.viol(
            "decrypt-detached-chunked",
            d(&format!("decryption with header (version {ver}, blank {blank})"), &format!("{}, {} bytes", x.name(), out.data().len())),
        );
    }

    // hash
    let x = hash(&io(&pt, rp, wp));
    let want = blake3::hash(&pt).to_hex().to_string();
    if x != Out::Ok(want.clone()) {
        o.viol("hash-chunked", d("hashing", &format!("{} instead of {want}", x.clone().get().unwrap_or_else(|| x.name()))));
    }

    // header and key operations
    let made = refimpl::make(&mut o.rng, 5, alg, false, &[(0, kdf, key.clone())], &pt[..len.min(50)]);
    let whole = [made.header.clone(), made.body.clone()].concat();
    let out = io(&[], rp, wp);
    let x = dump(&io(&whole, rp, wp), &out);
    if !x.ok() || out.data() != made.header {
        o.viol("dump-chunked", d("header dump", &x.name()));
    }
    let f = io(&whole, rp, wp);
    let x = strip(&f);
    let stripped = [vec![0; 416], made.body.clone()].concat();
    if !x.ok() || f.data() != stripped {
        o.viol("strip-chunked", d("header strip", &x.name()));
    }
    let f = io(&stripped, rp, wp);
    let x = restore(&io(&made.header, rp, wp), &f);
    if !x.ok() || f.data() != whole {
        o.viol("restore-chunked", d("header restore", &x.name()));
    }
    let f = io(&whole, rp, wp);
    let x = key_verify(&f, &key);
    if !x.ok() || f.data() != whole {
        o.viol("verify-chunked", d("key verification", &x.name()));
    }
    let f = io(&whole, rp, wp);
    let x = key_add(&f, &key, &key2, kdf);
    let ok = refimpl::decode(None, &f.data(), &key2).as_deref() == Ok(&pt[..len.min(50)])
        && refimpl::decode(None, &f.data(), &key).is_ok();
    if !x.ok() || !ok {
        o.viol("add-chunked", d("key addition", &x.name()));
    }
    let g = io(&f.data(), rp, wp);
    let x = key_delete(&g, &key);
    let ok = refimpl::decode(None, &g.data(), &key2).is_ok() && refimpl::decode(None, &g.data(), &key).is_err();
    if !x.ok() || !ok {
        o.viol("delete-chunked", d("key deletion", &x.name()));
    }
    let g = io(&whole, rp, wp);
    let x = key_change(&g, &key, &key2, kdf);
    let ok = refimpl::decode(None, &g.data(), &key2).is_ok() && refimpl::decode(None, &g.data(), &key).is_err();
    if !x.ok() || !ok {
        o.viol("change-chunked", d("key change", &x.name()));
    }
    // overwriting
    let n = len.min(3000);
    let f = io(&vec![7; n + 100], rp, wp);
    let x = overwrite(&f, n, 1);
    let got = f.data();
    if !x.ok() || got.len() != n + 100 || got[..n].iter().any(|b| *b != 0) || got[n..].iter().any(|b| *b != 7) {
        o.viol("overwrite-chunked", d("overwriting", &x.name()));
    }
    o.count("operations", 13);
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "Each case runs every stream operation of the library once on I/O objects that transfer the given number of bytes per call, and \
        compares with an independent decoder, BLAKE3 or the same operation's definition; non-trivial: distinct (read plan, write plan, content). \
        The program is run too, with a preloaded shim that shortens its reads and writes."
        .into();
    ctx.min_evals = 150;
    ctx.need("operations", 1500);
    let mut plans = vec![Chunk::Full, Chunk::AllButOne];
    for n in [1, 2, 3, 5, 7, 15, 16, 17, 63, 64, 95, 96, 415, 416, 417, 4096, 8192, BLOCK - 1, BLOCK, BLOCK + 1, BLOCK + 15, BLOCK + 16, BLOCK + 17] {
        plans.push(Chunk::Fixed(n));
    }
    ctx.par(2, ctx.pick(12, 300), |o| {
        let mut i = 0;
        for rp in &plans {
            for wp in &plans {
                for len in [0usize, 1, 600, BLOCK + 3] {
                    let small = |c: &Chunk| matches!(c, Chunk::Fixed(n) if *n < 4096);
                    if len > BLOCK && (small(rp) || small(wp)) && !o.thorough {
                        continue;
                    }
                    i += 1;
                    // quick: each plan with itself, with full transfers, and one in twenty of the rest
                    let diag = format!("{rp:?}") == format!("{wp:?}") || matches!(rp, Chunk::Full) || matches!(wp, Chunk::Full);
                    if !o.mine(i) || !(o.thorough || diag && (len < BLOCK || i % 3 == 0) || i % 20 == 0) {
                        continue;
                    }
                    chunked_case(o, len, rp, wp);
                }
            }
        }
        while o.time_left() {
            let len = gen::length(&mut o.rng, 2);
            let (rp, wp) = (gen::chunk(&mut o.rng, len), gen::chunk(&mut o.rng, len));
            o.sample(|| format!("length {len} reads {rp:?} writes {wp:?}"));
            chunked_case(o, len, &rp, &wp);
        }
    });
    // the same operations on files, with system calls that transfer less than asked for
    ctx.need("shortened_runs", 100);
    ctx.par(3, ctx.pick(8, 200), |o| {
        let sc = Scratch::new();
        while o.time_left() {
            for j in crate::io::jobs(&mut o.rng) {
                if !o.time_left() {
                    break;
                }
                sc.reset();
                (j.setup)(&sc);
                sc.own();
                let seed = o.rng.below(1 << 30);
                let max = *o.rng.pick(&[700, 5000, 9000, 70_000, BLOCK + 5]);
                let cmd = j.cmd.traced().env("VT_NODATA", "1").env("VT_SHORT", format!("{seed}:{max}"));
                let r = match cmd.run(&sc) {
                    Ok(r) => r,
                    Err(e) => {
                        o.inconclusive(e);
                        continue;
                    }
                };
                o.eval(&("file", &j.name, seed, max), true);
                o.count("shortened_runs", 1);
                let d = |s: &str| format!("{} with transfers of at most {max} bytes (seed {seed}): {s}; {}", j.name, r.text());
                o.sample(|| d("ran"));
                if !r.ok() {
                    o.viol("file-fails", d("fails"));
                } else if let Err(e) = (j.complete)(&sc, &r) {
                    o.viol("file-differs", d(&e));
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------

fn c03_written(o: &mut Obs, spec: Spec, key: &[u8], pt: &[u8]) {
    let d = |s: &str| format!("{spec:?}, key {}, {} bytes: {s}", brief(key), pt.len());
    o.eval(&("w", spec, hash_of(&pt)), true);
    let e = match encrypt(spec, key, pt) {
        Out::Ok(e) => e,
        x => return o.viol("write-fails", d(&x.name())),
    };
    o.count("written_files", 1);
    let whole = e.whole();
    let hb = &whole[..header_len(spec.ver).min(whole.len())];
    match RefHeader::parse(hb) {
        Err(x) => o.viol("layout", d(&format!("{x}; header {}", hex(hb)))),
        Ok((h, n)) => {
            if h.ver != spec.ver || h.alg != spec.alg || h.memory || n != hb.len() {
                o.viol("layout-fields", d(&format!("says version {} {:?} memory {}", h.ver, h.alg, h.memory)));
            }
            let slots: Vec<_> = h.slots.iter().map(|s| s.as_ref().map(|s| s.kdf)).collect();
            if slots != [Some(spec.kdf), None, None, None] {
                o.viol("layout-slots", d(&format!("keyslots {slots:?}")));
            }
        }
    }
    let r = refimpl::decode(e.header.as_deref(), &e.body, key);
    if r.as_deref() != Ok(pt) {
        o.viol("written-unreadable", d(&format!("independent decoder: {:?}", r.map(|v| v.len()))));
    }
    // the same after key operations
    if spec.ver == 5 && o.rng.chance(1, 3) {
        let f = MonIo::new(whole);
        let k2 = gen::password(&mut o.rng);
        let kdf2 = gen::kdf(&mut o.rng);
        if k2 == key {
            return;
        }
        let r = key_add(&f, key, &k2, kdf2);
        let got = refimpl::decode(None, &f.data(), &k2);
        if !r.ok() || got.as_deref() != Ok(pt) {
            o.viol("added-unreadable", d(&format!("after adding a key: {} {:?}", r.name(), got.map(|v| v.len()))));
        }
        let k3 = [&k2[..], b"x"].concat();
        let f = MonIo::new(f.data());
        let r = key_change(&f, key, &k3, kdf2);
        let got = refimpl::decode(None, &f.data(), &k3);
        if !r.ok() || got.as_deref() != Ok(pt) {
            o.viol("changed-unreadable", d(&format!("after changing a key: {} {:?}", r.name(), got.map(|v| v.len()))));
        }
        let f = MonIo::new(f.data());
        let r = key_delete(&f, &k2);
        let got = refimpl::decode(None, &f.data(), &k3);
        if !r.ok() || got.as_deref() != Ok(pt) {
            o.viol("deleted-unreadable", d(&format!("after deleting a key: {} {:?}", r.name(), got.map(|v| v.len()))));
        }
        o.count("key_operations", 3);
    }
}

fn c03_read(o: &mut Obs, ver: u8, alg: Alg, memory: bool, pt: &[u8]) {
    let mut keys = vec![];
    let mut pos = [0, 1, 2, 3];
    o.rng.shuffle(&mut pos);
    let n = if ver == 5 { o.rng.range(1, 4) } else { 1 };
    for p in pos.iter().take(n) {
        keys.push((*p, gen::kdf(&mut o.rng), gen::password(&mut o.rng)));
    }
    let m = refimpl::make(&mut o.rng, ver, alg, memory, &keys, pt);
    o.eval(&("r", ver, alg, memory, hash_of(&pt)), true);
    for (p, kdf, key) in &keys {
        let d = |s: &str| format!("version {ver} {alg:?} memory {memory} keyslot {p} {kdf:?}, {} bytes, header {}: {s}", pt.len(), hex(&m.header));
        let whole = [m.header.clone(), m.body.clone()].concat();
        let (r, out) = decrypt(None, &whole, key);
        if !r.ok() || out != pt {
            o.viol("unreadable", d(&format!("{}, {} bytes", r.name(), out.len())));
        }
        let (r, out) = decrypt(Some(&m.header), &m.body, key);
        if !r.ok() || out != pt {
            o.viol("unreadable-detached", d(&format!("{}, {} bytes", r.name(), out.len())));
        }
        if ver == 5 {
            let f = MonIo::new(whole);
            let r = key_verify(&f, key);
            if !r.ok() {
                o.viol("unverifiable", d(&r.name()));
            }
        }
        o.count("read_files", 2);
        o.count(&format!("version_{ver}"), 1);
    }
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "Written files are parsed by a strict independent parser (every padding byte and field position) and decoded by an independent decoder; \
        files of all versions, modes, algorithms and keyslot places made by an independent encoder are decrypted by the library. \
        non-trivial: distinct (configuration, content)."
        .into();
    ctx.min_evals = 250;
    ctx.need("written_files", 100);
    ctx.need("read_files", 200);
    ctx.need("key_operations", 30);
    ctx.need("of_many_blocks", 4);
    for v in 1..=5 {
        ctx.need(&format!("version_{v}"), 12);
    }
    ctx.par(3, ctx.pick(10, 300), |o| {
        let mut i = 0;
        for alg in ALGS {
            for ver in 1..=5u8 {
                for memory in [false, true] {
                    for len in [0usize, 1, 500, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK, 2 * BLOCK + 77] {
                        i += 1;
                        if o.mine(i) {
                            let pt = gen::content(&mut o.rng, len);
                            c03_read(o, ver, alg, memory, &pt);
                        }
                    }
                }
            }
            for kdf in KDFS {
                for detached in [false, true] {
                    for len in [0usize, 1, 500, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK] {
                        for ver in [4, 5] {
                            i += 1;
                            if !o.mine(i) || (ver == 4 && kdf != Kdf::Balloon(4)) {
                                continue;
                            }
                            let pt = gen::content(&mut o.rng, len);
                            let key = gen::password(&mut o.rng);
                            c03_written(o, Spec { alg, ver, memory: false, kdf, detached }, &key, &pt);
                        }
                    }
                }
            }
        }
        // more blocks than one byte counts
        if o.worker < 6 && (o.worker % 3 < 2 || o.thorough) {
            let len = 257 * BLOCK + o.rng.range(0, BLOCK - 1);
            let pt = o.rng.bytes(len);
            let alg = ALGS[o.worker % 3];
            if o.worker < 3 {
                let key = gen::password(&mut o.rng);
                let kdf = gen::kdf(&mut o.rng);
                c03_written(o, Spec::new(alg, kdf), &key, &pt);
            } else {
                let key = gen::password(&mut o.rng);
                let m = refimpl::make(&mut o.rng, 5, alg, false, &[(2, Kdf::Argon(3), key.clone())], &pt);
                let (r, out) = decrypt(Some(&m.header), &m.body, &key);
                o.eval(&("many", alg), true);
                if !r.ok() || out != pt {
                    o.viol("unreadable", format!("{alg:?}, {len} bytes: {}, {} bytes", r.name(), out.len()));
                }
            }
            o.count("of_many_blocks", 1);
        }
        while o.time_left() {
            let len = gen::length(&mut o.rng, 2);
            let pt = gen::content(&mut o.rng, len);
            let alg = gen::alg(&mut o.rng);
            if o.rng.chance(1, 2) {
                let key = gen::password(&mut o.rng);
                let kdf = gen::kdf(&mut o.rng);
                let detached = o.rng.chance(1, 2);
                c03_written(o, Spec { alg, ver: 5, memory: false, kdf, detached }, &key, &pt);
            } else {
                let (ver, memory) = (o.rng.range(1, 5) as u8, o.rng.chance(1, 2));
                o.sample(|| format!("reads version {ver} {alg:?} memory {memory} length {len}"));
                c03_read(o, ver, alg, memory, &pt);
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------

/// A damaged file: what was done, the header, the body, and the first block that is not as it was.
struct Damage {
    what: String,
    header: Vec<u8>,
    body: Vec<u8>,
    /// plaintext bytes before the damage; None: nothing may be written at all
    intact: Option<usize>,
}

/// The parts of the header that are authenticated, or that the key depends on.
fn header_bytes_that_count(h: &RefHeader) -> Vec<usize> {
    let n = h.body_nonce_len();
    let m = refimpl::nonce_len(h.alg);
    let mut v: Vec<usize> = (0..6).collect();
    match h.ver {
        1 => v.extend((6..22).chain(38..38 + n)),
        2 => v.extend((6..22).chain(22..22 + n)),
        3 => v.extend(6..64),
        4 => v.extend(6..128),
        _ => {
            v.extend(6..32);
            // the only keyslot in use
            let i = h.slots.iter().position(Option::is_some).unwrap();
            let s = 32 + 96 * i;
            v.extend((s..s + 50 + m).chain(s + 74..s + 90));
        }
    }
    v
}

fn damages(r: &mut Rng, m: &refimpl::Made, other: &refimpl::Made, exhaustive_bytes: bool) -> Vec<Damage> {
    let mut v = vec![];
    let (h, b) = (&m.header, &m.body);
    let mem = m.h.memory;
    let at = |i: usize| if mem { None } else { Some(i / (BLOCK + TAG) * BLOCK) };
    let mut add = |what: String, header: Vec<u8>, body: Vec<u8>, intact: Option<usize>| {
        if (&header, &body) != (h, b) {
            v.push(Damage { what, header, body, intact });
        }
    };
    // header bytes
    for i in header_bytes_that_count(&m.h) {
        let masks: Vec<u8> = if exhaustive_bytes {
            (0..8).map(|k| 1 << k).chain([0xFF]).collect()
        } else {
            vec![1 << r.below(8)]
        };
        for x in masks {
            let mut n = h.clone();
            n[i] ^= x;
            add(format!("header byte {i} ^ {x:#04x}"), n, b.clone(), None);
        }
    }
    // body bytes
    let picks: Vec<usize> = if exhaustive_bytes && b.len() < 400 {
        (0..b.len()).collect()
    } else {
        let mut p = vec![0, b.len() - 1, b.len() - TAG, b.len() / 2];
        for k in 0..(b.len() / (BLOCK + TAG) + 1) {
            let s = k * (BLOCK + TAG);
            for q in [s, s + 1, s + BLOCK - 1, s + BLOCK, s + BLOCK + TAG - 1] {
                if q < b.len() {
                    p.push(q);
                }
            }
        }
        for _ in 0..4 {
            p.push(r.below(b.len()));
        }
        p
    };
    for i in picks {
        let mut n = b.clone();
        n[i] ^= 1 << r.below(8);
        add(format!("body byte {i}"), h.clone(), n, at(i));
    }
    // lengths
    let mut cuts = vec![0, 1, 15, 16, 17, b.len() - 1, b.len().saturating_sub(16), b.len().saturating_sub(17), b.len() / 2];
    for k in 0..=(b.len() / (BLOCK + TAG)) {
        for d in [-17i64, -16, -1, 0, 1, 15, 16, 17] {
            cuts.push((k as i64 * (BLOCK + TAG) as i64 + d).max(0) as usize);
        }
    }
    for c in cuts {
        if c < b.len() {
            add(format!("body cut to {c}"), h.clone(), b[..c].to_vec(), at(c));
        }
    }
    for n in [1usize, 15, 16, 17, 32, 416, BLOCK + TAG] {
        let last_block = if mem { 0 } else { b.len() / (BLOCK + TAG) };
        let z = if r.chance(1, 2) { vec![0; n] } else { r.bytes(n) };
        add(format!("{n} bytes appended"), h.clone(), [&b[..], &z].concat(), at(last_block * (BLOCK + TAG)));
    }
    let n = r.range(1, 16);
    add("bytes removed at the front".into(), h.clone(), b[n.min(b.len())..].to_vec(), at(0));
    let x = r.bytes(n);
    add("bytes inserted at the front".into(), h.clone(), [&x[..], b].concat(), at(0));
    // blocks
    if !mem {
        let blocks: Vec<&[u8]> = b.chunks(BLOCK + TAG).collect();
        let join = |v: &[&[u8]]| v.concat();
        let k = blocks.len();
        for i in 0..k {
            let mut n = blocks.clone();
            n.remove(i);
            add(format!("block {i} of {k} dropped"), h.clone(), join(&n), Some(i * BLOCK));
            let mut n = blocks.clone();
            n.insert(i, blocks[i]);
            // what comes next is a copy of block i: damaged from i+1 on, or from i if it is the last
            let from = if i + 1 == k { i } else { i + 1 };
            add(format!("block {i} of {k} repeated"), h.clone(), join(&n), Some(from * BLOCK));
            for j in i + 1..k {
                let mut n = blocks.clone();
                n.swap(i, j);
                add(format!("blocks {i} and {j} of {k} swapped"), h.clone(), join(&n), Some(i * BLOCK));
            }
            let theirs: Vec<&[u8]> = other.body.chunks(BLOCK + TAG).collect();
            if i < theirs.len() {
                let mut n = blocks.clone();
                n[i] = theirs[i];
                add(format!("block {i} of {k} taken from another file"), h.clone(), join(&n), Some(i * BLOCK));
            }
            if i > 0 {
                // an inner block as the last one, at a length a last block can have
                let mut n = blocks[..i].to_vec();
                n.push(&blocks[i - 1][..blocks[i - 1].len().min(BLOCK / 2)]);
                add(format!("part of block {} as the last one", i - 1), h.clone(), join(&n), Some(i * BLOCK));
            }
        }
        // the tail of one and the head of the other
        let theirs: Vec<&[u8]> = other.body.chunks(BLOCK + TAG).collect();
        if k > 1 && theirs.len() > 1 {
            let n = [&blocks[..1], &theirs[1..]].concat();
            add("first block, then the rest of another file".into(), h.clone(), join(&n), Some(BLOCK));
        }
    }
    add("header of another file".into(), other.header.clone(), b.clone(), None);
    add("body of another file".into(), h.clone(), other.body.clone(), at(0));
    v
}

/// Decrypts every damaged form of a file; the verdict (C04) and what was written (C05) are judged.
fn tamper(o: &mut Obs, c05: bool, ver: u8, alg: Alg, memory: bool, len: usize, lib: bool, exhaustive: bool) {
    let pt = o.rng.bytes(len);
    let key = gen::password(&mut o.rng);
    let kdf = gen::kdf(&mut o.rng);
    let pos = o.rng.below(4);
    let mut m = refimpl::make(&mut o.rng, ver, alg, memory, &[(pos, kdf, key.clone())], &pt);
    if lib {
        // a file written by the library itself
        if let Out::Ok(e) = encrypt(Spec { alg, ver: 5, memory: false, kdf, detached: true }, &key, &pt) {
            let hb = e.header.unwrap();
            if let Ok((h, _)) = RefHeader::parse(&hb) {
                m = refimpl::Made { header: hb, body: e.body, h, master: [0; 32] };
            }
        }
    }
    // the other file: the same password, algorithm and structure; sometimes the same content
    let pt2 = if o.rng.chance(1, 2) { pt.clone() } else { o.rng.bytes(len) };
    let other = refimpl::make(&mut o.rng, m.h.ver, alg, m.h.memory, &[(pos, kdf, key.clone())], &pt2);
    let detached = o.rng.chance(1, 3);
    let clean = decrypt(None, &[&m.header[..], &m.body].concat(), &key);
    if !clean.0.ok() || clean.1 != pt {
        o.viol("clean-file", format!("the undamaged file does not decrypt: {}", clean.0.name()));
        return;
    }
    for d in damages(&mut o.rng, &m, &other, exhaustive) {
        // a blank place in front of a separate body is the documented stripped form
        let (hd, file) = if detached {
            (Some(d.header.clone()), d.body.clone())
        } else {
            (None, [&d.header[..], &d.body].concat())
        };
        let w = MonIo::empty().logged();
        let r = decrypt_io(hd.map(MonIo::new).as_ref(), &MonIo::new(file), &w, &key);
        let out = w.data();
        o.eval(&(ver, alg, m.h.memory, len, &d.what, detached), true);
        o.count(
            match d.what.split(' ').next().unwrap() {
                "header" => "header_damages",
                "body" => "body_damages",
                "block" | "blocks" | "part" | "first" => "block_damages",
                _ => "length_damages",
            },
            1,
        );
        let desc = |s: String| {
            format!(
                "version {} {alg:?} memory {} {kdf:?} detached {detached}, {len} bytes, {}: {s}",
                m.h.ver, m.h.memory, d.what
            )
        };
        if let Out::Panic(p) = &r {
            o.viol("tampered-panics", desc(p.clone()));
            continue;
        }
        if !c05 {
            if r.ok() {
                o.viol("tampering-undetected", desc(format!("decryption succeeds with {} bytes", out.len())));
            }
            continue;
        }
        if r.ok() {
            // C04's business
            o.count("undetected", 1);
        }
        let allowed = match d.intact {
            Some(n) if !detached || d.header == m.header => n,
            _ => 0,
        };
        // every single write has to be true and authenticated, also if something overwrote it later
        let mut bad = None;
        for op in w.log() {
            if let Op::Write { pos, data } = op {
                let end = pos as usize + data.len();
                if end > allowed || pt.get(pos as usize..end) != Some(&data[..]) {
                    bad = Some((pos, data.len()));
                }
            }
        }
        o.count("released_bytes", out.len() as u64);
        if let Some((p, n)) = bad {
            o.viol(
                "unauthenticated-release",
                desc(format!("{n} bytes written at {p}, although only the first {allowed} are authenticated ({})", r.name())),
            );
        } else if out.len() > allowed || out.len() % BLOCK != 0 {
            o.viol("unauthenticated-release", desc(format!("{} bytes in the output, {allowed} authenticated", out.len())));
        }
    }
}

/// Files of more blocks than one byte counts: blocks 256 apart swapped, repeated or left out.
fn tamper_long(o: &mut Obs, c05: bool, alg: Alg) {
    let len = 257 * BLOCK + 1000;
    let pt = o.rng.bytes(len);
    let key = gen::password(&mut o.rng);
    let m = refimpl::make(&mut o.rng, 5, alg, false, &[(0, Kdf::Balloon(5), key.clone())], &pt);
    let blocks: Vec<&[u8]> = m.body.chunks(BLOCK + TAG).collect();
    let without = |r: std::ops::Range<usize>| [&blocks[..r.start], &blocks[r.end..]].concat().concat();
    let mut swapped = blocks.clone();
    swapped.swap(0, 256);
    let mut again = blocks.clone();
    again[256] = blocks[0];
    for (what, body, intact) in [
        ("blocks 0 and 256 swapped", swapped.concat(), 0),
        ("block 0 at the place of block 256", again.concat(), 256),
        ("256 blocks left out", without(1..257), 1),
        ("cut after 256 blocks", without(256..258), 256),
    ] {
        let file = [m.header.clone(), body].concat();
        let w = MonIo::empty();
        let r = decrypt_io(None, &MonIo::new(file), &w, &key);
        let out = w.take();
        o.eval(&("long", alg, what), true);
        o.count("long_damages", 1);
        let desc = |s: String| format!("version 5 {alg:?}, {len} bytes, {what}: {s}");
        if let Out::Panic(p) = &r {
            o.viol("tampered-panics", desc(p.clone()));
        } else if r.ok() && !c05 {
            o.viol("tampering-undetected", desc(format!("decryption succeeds with {} bytes", out.len())));
        } else if c05 && (out.len() > intact * BLOCK || pt.get(..out.len()) != Some(&out[..])) {
            o.viol("unauthenticated-release", desc(format!("{} bytes in the output, {intact} blocks authenticated", out.len())));
        }
        o.count("released_bytes", out.len() as u64);
    }
}

fn tamper_plan(ctx: &mut Ctx, c05: bool) {
    ctx.need("long_damages", 8);
    let secs = ctx.pick(11, 400);
    ctx.par(4, secs, |o| {
        let mut i = 0;
        for alg in ALGS {
            for ver in 1..=5 {
                for memory in [false, true] {
                    for len in [0usize, 1, 40] {
                        i += 1;
                        if o.mine(i) && !(len == 40 && !o.thorough && ver < 4) {
                            tamper(o, c05, ver, alg, memory, len, ver == 5, o.thorough || ver == 5);
                        }
                    }
                }
            }
            for len in [BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK, 2 * BLOCK + 99, 3 * BLOCK + 1] {
                for (ver, memory) in [(5, false), (4, false), (3, false)] {
                    i += 1;
                    if o.mine(i) && (o.thorough || ver == 5 && len <= 2 * BLOCK || alg != Alg::D && i % 3 == 0) {
                        tamper(o, c05, ver, alg, memory, len, ver == 5 && i % 2 == 0, false);
                    }
                }
            }
        }
        if o.worker < if o.thorough { 3 } else { 2 } {
            tamper_long(o, c05, ALGS[o.worker]);
        }
        while o.time_left() {
            let (ver, alg) = (o.rng.range(1, 5) as u8, gen::alg(&mut o.rng));
            let memory = o.rng.chance(1, 3);
            let max = if o.thorough { 4 } else { 2 };
            let len = if o.rng.chance(1, 8) { gen::length(&mut o.rng, max) } else { o.rng.below(200) };
            o.sample(|| format!("version {ver} {alg:?} memory {memory} length {len}"));
            let exh = o.rng.chance(1, 4) && len < 300;
            let lib = ver == 5 && o.rng.chance(1, 2);
            tamper(o, c05, ver, alg, memory, len, lib, exh);
        }
    });
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "Each case decrypts one damaged form of a valid file (each byte of the authenticated or key-relevant header and of the body, cuts and \
        extensions around every block boundary, blocks dropped, repeated, swapped or taken from another file, header of one and body of another); \
        the verdict must be an error. non-trivial: distinct (configuration, damage)."
        .into();
    ctx.min_evals = 3000;
    for n in ["header_damages", "body_damages", "block_damages", "length_damages"] {
        ctx.need(n, 300);
    }
    tamper_plan(ctx, false);
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "As for the detection of damage, and with wrong keys; every single write to the output is recorded and has to be the true plaintext of \
        fully authenticated blocks before the damage. non-trivial: distinct (configuration, damage)."
        .into();
    ctx.min_evals = 3000;
    ctx.need("released_bytes", 5_000_000);
    ctx.need("wrong_keys", 200);
    tamper_plan(ctx, true);
    let n = ctx.pick(40, 1000);
    ctx.par(5, ctx.pick(5, 60), |o| {
        for _ in 0..n {
            let (ver, alg, memory) = (o.rng.range(1, 5) as u8, gen::alg(&mut o.rng), o.rng.chance(1, 3));
            let len = if o.rng.chance(1, 5) { gen::length(&mut o.rng, 1) } else { o.rng.below(100) };
            let pt = o.rng.bytes(len);
            let key = gen::password(&mut o.rng);
            let kdf = gen::kdf(&mut o.rng);
            let pos = o.rng.below(4);
            let m = refimpl::make(&mut o.rng, ver, alg, memory, &[(pos, kdf, key.clone())], &pt);
            let whole = [&m.header[..], &m.body].concat();
            let mut misses = gen::near_misses(&mut o.rng, &key);
            misses.truncate(5);
            for (what, k) in misses {
                let w = MonIo::empty().logged();
                let r = decrypt_io(None, &MonIo::new(whole.clone()), &w, &k);
                o.eval(&("wrong key", what, ver, alg, memory, len), true);
                o.count("wrong_keys", 1);
                if w.written() > 0 || !w.data().is_empty() {
                    o.viol(
                        "release-on-wrong-key",
                        format!("version {ver} {alg:?} memory {memory}, {len} bytes, key {what}: {} bytes written ({})", w.written(), r.name()),
                    );
                }
            }
            if !o.time_left() {
                break;
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------

/// The program, with keys from files, standard input, the environment and the terminal.
fn c06_program(o: &mut Obs, sc: &Scratch) {
    use crate::cli::{some_key, Src};
    use crate::trace::Cmd;
    let text = |k: &[u8]| std::str::from_utf8(k).is_ok_and(|s| !s.chars().any(char::is_control));
    let fits = |src: Src, k: &[u8]| match src {
        _ if k.is_empty() => true,
        Src::Env => std::str::from_utf8(k).is_ok() && !k.contains(&0),
        Src::Tty => text(k) && k.len() < 1000,
        _ => true,
    };
    let call = |sub: &str, src: Src, k: &[u8]| -> Cmd {
        let mut a = vec![sub, "in", "out"];
        match src {
            Src::File => a.extend(["--keyfile", "k"]),
            Src::Stdin => a.extend(["--keyfile", "-"]),
            _ => {}
        }
        let mut c = Cmd::cli(&a);
        match src {
            Src::Stdin => c = c.stdin(k),
            Src::Env => c = c.env("VOLARIS_KEY", <std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(k)),
            Src::Tty => c.tty = Some([k, b"\n", k, b"\n"].concat()),
            _ => {}
        }
        c
    };
    let srcs = [Src::File, Src::File, Src::Stdin, Src::Env, Src::Tty];
    let src = *o.rng.pick(&srcs);
    let mut key = some_key(&mut o.rng, src);
    if matches!(src, Src::File | Src::Stdin) && o.rng.chance(1, 10) {
        let n = *o.rng.pick(&[4095, 4096, 4097, 8192, 8193, 65_535, 65_536, 65_537, 70_001, 1 << 20, (1 << 20) + 1, 1_300_000]);
        key = o.rng.bytes(n);
        o.count("long_key_files", 1);
    }
    let pt = o.rng.bytes(40);
    // what the program encrypts opens with exactly the key it was given
    sc.reset();
    sc.put("in", &pt);
    if src == Src::File {
        sc.put("k", &key);
    }
    sc.own();
    let c = call("encrypt", src, &key);
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("program", format!("{src:?}"), hash_of(&key)), true);
    o.count("program_encryptions", 1);
    let d = |c: &Cmd, r: &crate::trace::Res, m: &str| format!("{} with the key {} from {src:?}: {m}; {}", c.text(), hex(&key[..key.len().min(100)]), r.text());
    if !r.ok() {
        return o.viol("program-encrypt", d(&c, &r, "fails"));
    }
    let whole = sc.get("out").unwrap_or_default();
    if refimpl::decode(None, &whole, &key).as_deref() != Ok(&pt) {
        o.viol("program-other-key", d(&c, &r, "the key does not open the result"));
    }
    // and the program opens it with no other
    let (alg, kdf) = (gen::alg(&mut o.rng), gen::kdf(&mut o.rng));
    let m = refimpl::make(&mut o.rng, 5, alg, false, &[(0, kdf, key.clone())], &pt);
    let file = [&m.header[..], &m.body].concat();
    let mut tries = vec![("own", key.clone())];
    let mut near = gen::near_misses(&mut o.rng, &key);
    o.rng.shuffle(&mut near);
    // those that differ in white space at the ends are the likeliest to be taken for the same
    near.sort_by_key(|(w, _)| !["newline", "CRLF", "space", "trimmed", "zero", "last byte removed"].iter().any(|x| w.contains(x)));
    if key.len() > 4000 {
        near.sort_by_key(|(w, _)| !w.contains("cut at a boundary"));
    }
    tries.extend(near.into_iter().take(9));
    for (what, k) in tries {
        let src = *o.rng.pick(&srcs);
        if !fits(src, &k) {
            continue;
        }
        let want = k == key;
        sc.reset();
        sc.put("in", &file);
        if src == Src::File {
            sc.put("k", &k);
        }
        sc.own();
        let c = call("decrypt", src, &k);
        let r = match c.run(sc) {
            Ok(r) => r,
            Err(e) => return o.inconclusive(e),
        };
        o.eval(&("program", format!("{src:?}"), hash_of(&key), hash_of(&k)), true);
        o.count(if want { "program_accepted" } else { "program_rejected" }, 1);
        let out = sc.get("out");
        if r.ok() != want || (want && out.as_ref() != Some(&pt)) || r.crashed() {
            let m = format!("presents {} ({what}) from {src:?}", hex(&k[..k.len().min(100)]));
            o.viol("program-key", d(&c, &r, &m));
        }
    }
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "Each case presents one key to one file (decryption, and verification for version 5) and compares the verdict with whether the key is \
        byte for byte one of the file's; the keys are those of the file and near misses of each (prefixes, extensions, bit flips, case, trimming, \
        separators, cuts at 8..256 bytes). The program is given keys from files, standard input, the environment and a terminal. \
        non-trivial: distinct (key, file keys)."
        .into();
    ctx.min_evals = 2000;
    ctx.need("accepted", 100);
    ctx.need("rejected", 2000);
    ctx.par(6, ctx.pick(10, 300), |o| {
        let mut first = 0;
        while o.time_left() || first < 12 {
            first += 1;
            let ver = if o.rng.chance(1, 3) { o.rng.range(1, 4) as u8 } else { 5 };
            let alg = gen::alg(&mut o.rng);
            let memory = o.rng.chance(1, 6);
            let n = if ver == 5 { o.rng.range(1, 4) } else { 1 };
            let mut keys: Vec<(usize, Kdf, Vec<u8>)> = vec![];
            let mut pos = [0, 1, 2, 3];
            o.rng.shuffle(&mut pos);
            for p in pos.iter().take(n) {
                let mut k = gen::password(&mut o.rng);
                if o.rng.chance(1, 60) {
                    let n = *o.rng.pick(&[4097, 8193, 65_537, 70_001]);
                    k = o.rng.bytes(n);
                }
                if !keys.is_empty() && o.rng.chance(1, 3) {
                    // a near miss of another key of the same file
                    let base = keys[0].2.clone();
                    let mm = gen::near_misses(&mut o.rng, &base);
                    k = o.rng.pick(&mm).1.clone();
                }
                keys.push((*p, gen::kdf(&mut o.rng), k));
            }
            let pt = o.rng.bytes(30);
            // any master key is as good as any other
            let mut master = [0u8; 32];
            if o.rng.chance(7, 8) {
                o.rng.fill(&mut master);
                let n = o.rng.below(40);
                master[n.min(32)..].fill(*o.rng.pick(&[0, 0xFF]));
            }
            let m = refimpl::make_for(&mut o.rng, ver, alg, memory, &keys, &pt, master);
            let mut whole = [&m.header[..], &m.body].concat();
            let mut set: Vec<Vec<u8>> = keys.iter().map(|k| k.2.clone()).collect();
            if ver == 5 && o.rng.chance(1, 2) {
                // a file made by the library
                let s = Spec::new(alg, keys[0].1);
                let Out::Ok(e) = encrypt(s, &keys[0].2, &pt) else { continue };
                let f = MonIo::new(e.body);
                set = vec![keys[0].2.clone()];
                for k in &keys[1..] {
                    if key_add(&f, &keys[0].2, &k.2, k.1).ok() {
                        set.push(k.2.clone());
                    }
                }
                whole = f.data();
            }
            let mut tries: Vec<(&str, Vec<u8>)> = set.iter().map(|k| ("own", k.clone())).collect();
            for k in &set {
                tries.extend(gen::near_misses(&mut o.rng, k));
            }
            if set.len() > 1 {
                tries.push(("two keys joined", set.concat()));
            }
            for (what, k) in tries {
                let want = set.contains(&k);
                o.eval(&(hash_of(&k), hash_of(&set), ver, alg), true);
                o.count(if want { "accepted" } else { "rejected" }, 1);
                let d = |s: String| {
                    format!(
                        "version {ver} {alg:?}, keys {:?} ({:?}), presented {} ({what}): {s}",
                        set.iter().map(|k| hex(k)).collect::<Vec<_>>(),
                        keys.iter().map(|k| k.1).collect::<Vec<_>>(),
                        hex(&k)
                    )
                };
                let (r, out) = decrypt(None, &whole, &k);
                if r.ok() != want || r.panicked().is_some() || (want && out != pt) {
                    o.viol("decrypt-key", d(format!("decryption gives {}", r.name())));
                }
                let f = MonIo::new(whole.clone());
                let v = key_verify(&f, &k);
                if ver == 5 && v.ok() != want || v.panicked().is_some() {
                    o.viol("verify-key", d(format!("verification gives {}", v.name())));
                }
                if ver < 5 && v.ok() {
                    o.viol("verify-version", d("verification succeeds for a version without it".into()));
                }
                // key operations accept the same keys
                if ver == 5 && o.rng.chance(1, 5) {
                    let c = key_change(&MonIo::new(whole.clone()), &k, b"another", Kdf::Argon(1));
                    let x = key_delete(&MonIo::new(whole.clone()), &k);
                    if c.ok() != want || x.ok() != want {
                        o.viol("manage-key", d(format!("change gives {}, deletion {}", c.name(), x.name())));
                    }
                }
            }
            o.sample(|| format!("version {ver} keys {:?}", set.iter().map(|k| brief(k)).collect::<Vec<_>>()));
        }
    });
    ctx.need("program_accepted", 30);
    ctx.need("program_rejected", 200);
    ctx.par(7, ctx.pick(8, 100), |o| {
        let sc = Scratch::new();
        while o.time_left() {
            c06_program(o, &sc);
        }
    });
}

// ---------------------------------------------------------------------------------------------

/// A window of `secret` (of `n` bytes, at steps) that occurs in `hay`.
fn leaked(hay: &[u8], secret: &[u8], n: usize) -> Option<(usize, usize)> {
    use std::collections::HashMap;
    if secret.len() < n || hay.len() < n {
        return None;
    }
    let step = (secret.len() / 4096).max(1);
    let mut set: HashMap<&[u8], usize> = HashMap::new();
    let mut i = 0;
    while i + n <= secret.len() {
        set.insert(&secret[i..i + n], i);
        i += step;
    }
    // a table of the first two bytes keeps this fast
    let mut pre = vec![false; 65536];
    for k in set.keys() {
        pre[usize::from(k[0]) << 8 | usize::from(k[1])] = true;
    }
    for j in 0..=hay.len() - n {
        if pre[usize::from(hay[j]) << 8 | usize::from(hay[j + 1])] {
            if let Some(s) = set.get(&hay[j..j + n]) {
                return Some((j, *s));
            }
        }
    }
    None
}

pub fn c29(ctx: &mut Ctx) {
    ctx.rule = "Each case encrypts a content (random, so that an 8-byte coincidence has probability below 2^-30 per case, or highly repetitive), and \
        searches file, detached header and dump for 8-byte windows of plaintext, password, derived key and master key, and two encryptions for equal \
        16-byte pieces; sizes are compared with the formula. non-trivial: distinct (configuration, content)."
        .into();
    ctx.min_evals = 150;
    ctx.need("equal_content_pairs", 100);
    ctx.par(7, ctx.pick(10, 200), |o| {
        let mut n = 0;
        while o.time_left() || n < 20 {
            n += 1;
            let alg = gen::alg(&mut o.rng);
            let kdf = gen::kdf(&mut o.rng);
            let mut spec = Spec::new(alg, kdf);
            spec.detached = o.rng.chance(1, 2);
            if kdf == Kdf::Balloon(4) && o.rng.chance(1, 2) {
                spec.ver = 4;
            }
            let len = match n % 6 {
                0 => gen::length(&mut o.rng, 2),
                1 => 2 * BLOCK + o.rng.below(3),
                _ => o.rng.range(8, 5000),
            };
            let repetitive = n % 3 == 1;
            let pt = if repetitive {
                let unit = o.rng.bytes(16);
                (0..len).map(|i| unit[i % 16]).collect()
            } else {
                o.rng.bytes(len)
            };
            let pwl = o.rng.range(8, 40);
            let pw = o.rng.bytes(pwl);
            o.eval(&(spec, len, hash_of(&pt)), true);
            let d = |s: String| format!("{spec:?}, {len} bytes (repetitive {repetitive}): {s}");
            let (Out::Ok(a), Out::Ok(b)) = (encrypt(spec, &pw, &pt), encrypt(spec, &pw, &pt)) else {
                o.viol("encrypt-fails", d("encryption fails".into()));
                continue;
            };
            let hs = header_len(spec.ver);
            let (wa, wb) = (a.whole(), b.whole());
            let want = hs + len + TAG * (len / BLOCK + 1);
            if wa.len() != want || a.header.as_ref().is_some_and(|h| h.len() != hs) {
                o.viol("size", d(format!("{} bytes instead of {want}", wa.len())));
                continue;
            }
            let Ok((h, _)) = RefHeader::parse(&wa[..hs]) else {
                o.viol("layout", d("header is not parsed".into()));
                continue;
            };
            let slot = h.slots[0].clone().unwrap();
            let derived = refimpl::derive(kdf, &pw, &slot.salt);
            let mut secrets: Vec<(&str, Vec<u8>)> = vec![("derived key", derived.to_vec()), ("password", pw.clone())];
            if let Some(mk) = h.body_key(&pw) {
                secrets.push(("master key", mk.to_vec()));
            }
            if !pt.is_empty() {
                secrets.push(("plaintext", pt.clone()));
            }
            let dumped = MonIo::empty();
            if !dump(&MonIo::new(wa.clone()), &dumped).ok() {
                o.viol("dump-fails", d("dump fails".into()));
            }
            let dd = dumped.data();
            for (what, s) in &secrets {
                let sets: [(&str, &[u8]); 2] = [("file", &wa), ("dumped header", &dd)];
                for (place, hay) in sets {
                    if let Some((at, from)) = leaked(hay, s, 8) {
                        o.viol("leak", d(format!("{what} (at {from}) appears in the {place} at {at}")));
                    }
                }
                let hx = hex(&s[..s.len().min(64)]);
                if leaked(&wa, hx.as_bytes(), 8).is_some() {
                    o.viol("leak", d(format!("{what} appears in hexadecimal")));
                }
                let inv: Vec<u8> = s.iter().map(|b| !b).collect();
                if !repetitive && leaked(&wa, &inv, 8).is_some() {
                    o.viol("leak", d(format!("{what} appears inverted")));
                }
            }
            // equal content: no equal 16-byte pieces, between two files and within one
            o.count("equal_content_pairs", 1);
            let (ba, bb) = (&wa[hs..], &wb[hs..]);
            let mut seen = std::collections::HashMap::new();
            let mut dup = None;
            for (f, body) in [(0, ba), (1, bb)] {
                for (i, c) in body.chunks_exact(16).enumerate() {
                    if let Some((g, j)) = seen.insert(c, (f, i)) {
                        dup = Some(format!("piece {i} of file {f} equals piece {j} of file {g}"));
                    }
                }
                // blocks are shifted by their tags, so compare them at block positions as well
                for (i, blk) in body.chunks(BLOCK + TAG).enumerate().skip(1) {
                    for (j, c) in blk.chunks_exact(16).enumerate() {
                        if let Some(x) = seen.insert(c, (f, i * 100_000 + j)) {
                            if x.0 != f || x.1 != (i * (BLOCK + TAG)) / 16 + j {
                                dup = Some(format!("block {i} piece {j} of file {f} equals {x:?}"));
                            }
                        }
                    }
                }
            }
            if let Some(x) = dup {
                o.viol("equal-ciphertext", d(x));
            }
            // the same key stream used twice shows as ciphertext difference = plaintext difference
            let blocks: Vec<(usize, &[u8])> = ba.chunks(BLOCK + TAG).enumerate().collect();
            for (i, x) in &blocks {
                for (j, y) in &blocks {
                    if i < j && y.len() >= 32 + TAG && x.len() >= 32 + TAG {
                        let same = (0..32).all(|k| x[k] ^ y[k] == pt[i * BLOCK + k] ^ pt[j * BLOCK + k]);
                        if same {
                            o.viol("two-time-pad", d(format!("blocks {i} and {j} use the same key stream")));
                        }
                    }
                }
            }
            o.sample(|| d(format!("{} bytes on disk", wa.len())));
        }
    });
}

// ---------------------------------------------------------------------------------------------

struct Kat {
    alg: Alg,
    key: &'static str,
    nonce: &'static str,
    aad: &'static str,
    pt: &'static str,
    ct: &'static str,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Published vectors: McGrew/Viega test cases 13-16, draft-irtf-cfrg-xchacha A.3.1, Deoxys-II-256 from the submission.
const KATS: &[Kat] = &[
    Kat { alg: Alg::A, key: "0000000000000000000000000000000000000000000000000000000000000000", nonce: "000000000000000000000000", aad: "", pt: "",
        ct: "530f8afbc74536b9a963b4f1c4cb738b" },
    Kat { alg: Alg::A, key: "0000000000000000000000000000000000000000000000000000000000000000", nonce: "000000000000000000000000", aad: "",
        pt: "00000000000000000000000000000000",
        ct: "cea7403d4d606b6e074ec5d3baf39d18d0d1c8a799996bf0265b98b5d48ab919" },
    Kat { alg: Alg::A, key: "feffe9928665731c6d6a8f9467308308feffe9928665731c6d6a8f9467308308", nonce: "cafebabefacedbaddecaf888",
        aad: "feedfacedeadbeeffeedfacedeadbeefabaddad2",
        pt: "d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39",
        ct: "522dc1f099567d07f47f37a32a84427d643a8cdcbfe5c0c97598a2bd2555d1aa8cb08e48590dbb3da7b08b1056828838c5f61e6393ba7a0abcc9f66276fc6ece0f4e1768cddf8853bb2d551b" },
    Kat { alg: Alg::X, key: "808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f", nonce: "404142434445464748494a4b4c4d4e4f5051525354555657",
        aad: "50515253c0c1c2c3c4c5c6c7",
        pt: "4c616469657320616e642047656e746c656d656e206f662074686520636c617373206f66202739393a204966204920636f756c64206f6666657220796f75206f6e6c79206f6e652074697020666f7220746865206675747572652c2073756e73637265656e20776f756c642062652069742e",
        ct: "bd6d179d3e83d43b9576579493c0e939572a1700252bfaccbed2902c21396cbb731c7f1b0b4aa6440bf3a82f4eda7e39ae64c6708c54c216cb96b72e1213b4522f8c9ba40db5d945b11b69b982c1bb9e3f3fac2bc369488f76b2383565d3fff921f9664c97637da9768812f615c68b13b52ec0875924c1c7987947deafd8780acf49" },
];

pub fn c31(ctx: &mut Ctx) {
    use corecrypto::cipher::Ciphers;
    use corecrypto::protected::Protected;
    use corecrypto::stream::{DecryptionStreams, EncryptionStreams};
    ctx.rule = "Each case is one message (or one stream of 1..5 blocks) under one algorithm: compared with the standard algorithm called directly and \
        with published vectors, allocating against in-place, every change of key, nonce, associated data or ciphertext, and every wrong order or role of \
        stream blocks. non-trivial: distinct (algorithm, key, message)."
        .into();
    ctx.min_evals = 300;
    for n in ["messages", "streams", "altered", "misordered", "nonce_lengths", "vectors"] {
        ctx.need(n, 4);
    }
    ctx.need("max_associated_data", 65_537);
    let cipher = |alg: Alg, key: &[u8; 32]| Ciphers::initialize(Protected::new(*key), &alg.real()).expect("cipher");
    ctx.single(8, 60, |o| {
        for k in KATS {
            let key: [u8; 32] = unhex(k.key).try_into().unwrap();
            let (n, a, p, c) = (unhex(k.nonce), unhex(k.aad), unhex(k.pt), unhex(k.ct));
            o.eval(&("kat", k.ct), true);
            o.count("vectors", 1);
            let got = guard(|| cipher(k.alg, &key).encrypt(&n, corecrypto::Payload { msg: &p, aad: &a }));
            if got != Out::Ok(c.clone()) {
                o.viol("vector", format!("{:?} {}: {:?}", k.alg, k.ct, got));
            }
            let got = guard(|| cipher(k.alg, &key).decrypt(&n, corecrypto::Payload { msg: &c, aad: &a }));
            if got != Out::Ok(p.clone()) {
                o.viol("vector", format!("decrypting {:?} {}: {:?}", k.alg, k.ct, got));
            }
        }
        for alg in ALGS {
            let want = refimpl::nonce_len(alg) - 4;
            for n in 0..=64 {
                let r = guard(|| EncryptionStreams::initialize(Protected::new([7; 32]), &vec![1; n], &alg.real()).map(|_| ()));
                o.count("nonce_lengths", 1);
                o.eval(&("nonce", alg, n), true);
                if r.ok() != (n == want) || r.panicked().is_some() {
                    o.viol("nonce-length", format!("{alg:?} stream nonce of {n} bytes: {}", r.name()));
                }
            }
            // the lengths the library itself hands out
            for memory in [false, true] {
                let mode = if memory { corecrypto::primitives::Mode::MemoryMode } else { corecrypto::primitives::Mode::StreamMode };
                let n = corecrypto::primitives::get_nonce_len(&alg.real(), &mode);
                let g = corecrypto::primitives::gen_nonce(&alg.real(), &mode).len();
                let want = refimpl::nonce_len(alg) - if memory { 0 } else { 4 };
                if n != want || g != want {
                    o.viol("nonce-length", format!("{alg:?} memory {memory}: {n} and {g} bytes instead of {want}"));
                }
            }
        }
    });
    ctx.need("long_stream_blocks", 60_000);
    let many = ctx.pick(70_000, 300_000);
    ctx.par(9, ctx.pick(8, 200), |o| {
        // streams longer than one byte, and two bytes, count
        if o.worker < 6 {
            let alg = ALGS[o.worker % 3];
            let n: usize = if o.worker < 3 { many } else { 300 };
            let mut key = [0u8; 32];
            o.rng.fill(&mut key);
            let prefix = o.rng.bytes(refimpl::nonce_len(alg) - 4);
            let aad = o.rng.bytes(20);
            let d = |s: String| format!("{alg:?} stream of {n} blocks: {s}");
            o.eval(&("long stream", alg, n), true);
            let bad = guard(|| -> Result<Option<(usize, &str)>, String> {
                let start = |e: &dyn std::fmt::Debug| format!("{e:?}");
                let mut e = EncryptionStreams::initialize(Protected::new(key), &prefix, &alg.real()).map_err(|e| start(&e))?;
                let mut r = DecryptionStreams::initialize(Protected::new(key), &prefix, &alg.real()).map_err(|e| start(&e))?;
                for j in 0..n {
                    let b = (j as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).to_le_bytes();
                    let msg = &b[..j % 9];
                    let want = refimpl::seal(alg, &key, &refimpl::stream_nonce(&prefix, j as u32, j == n - 1), &aad, msg);
                    if j == n - 1 {
                        let c = e.encrypt_last(corecrypto::Payload { msg, aad: &aad }).map_err(|_| format!("encryption of block {j}"))?;
                        let m = r.decrypt_last(corecrypto::Payload { msg: &want, aad: &aad }).map_err(|_| format!("decryption of block {j}"))?;
                        return Ok((c != want || m != msg).then_some((j, "last")));
                    }
                    let c = e.encrypt_next(corecrypto::Payload { msg, aad: &aad }).map_err(|_| format!("encryption of block {j}"))?;
                    let m = r.decrypt_next(corecrypto::Payload { msg: &want, aad: &aad }).map_err(|_| format!("decryption of block {j}"))?;
                    if c != want || m != msg {
                        return Ok(Some((j, "inner")));
                    }
                }
                Ok(None)
            });
            o.count("long_stream_blocks", n as u64);
            if bad != Out::Ok(None) {
                o.viol("long-stream", d(format!("{bad:?}")));
            }
        }
        let mut i = 0;
        while o.time_left() || i < 30 {
            i += 1;
            let alg = ALGS[i % 3];
            let mut key = [0u8; 32];
            o.rng.fill(&mut key);
            let nonce = o.rng.bytes(refimpl::nonce_len(alg));
            let len = match o.rng.below(6) {
                0 => 0,
                1 => o.rng.range(1, 16),
                2 => *o.rng.pick(&[15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256]),
                3 if i % 64 == 3 => o.rng.range(BLOCK - 20, 3 * BLOCK),
                3 => o.rng.range(1, 100_000),
                _ => o.rng.range(1, 700),
            };
            let msg = o.rng.bytes(len);
            let al = match o.rng.below(8) {
                0 => o.rng.range(1, 70_000),
                1 => *o.rng.pick(&[127, 128, 255, 256, 257, 511, 512, 1024, 4096, 65_535, 65_536, 65_537]),
                _ => o.rng.below(80),
            };
            o.max("max_associated_data", al as u64);
            let aad = o.rng.bytes(al);
            let d = |s: String| format!("{alg:?} key {} nonce {} aad {} message {}: {s}", hex(&key), hex(&nonce), brief(&aad), brief(&msg));
            o.eval(&(alg, key, hash_of(&msg)), true);
            o.count("messages", 1);
            let want = refimpl::seal(alg, &key, &nonce, &aad, &msg);
            let c = cipher(alg, &key);
            let got = guard(|| c.encrypt(&nonce, corecrypto::Payload { msg: &msg, aad: &aad }));
            if got != Out::Ok(want.clone()) {
                o.viol("not-standard", d(got.name()));
                continue;
            }
            let mut buf = msg.clone();
            let r = guard(|| c.encrypt_in_place(&nonce, &aad, &mut buf));
            if !r.ok() || buf != want {
                o.viol("in-place", d(format!("in-place encryption differs: {}", r.name())));
            }
            let back = guard(|| c.decrypt(&nonce, corecrypto::Payload { msg: &want, aad: &aad }));
            if back != Out::Ok(msg.clone()) {
                o.viol("roundtrip", d(back.name()));
            }
            // alterations
            for kind in 0..9 {
                let (mut k2, mut n2, mut a2, mut c2) = (key, nonce.clone(), aad.clone(), want.clone());
                match kind {
                    0 => k2[o.rng.below(32)] ^= 1 << o.rng.below(8),
                    1 => {
                        let p = o.rng.below(n2.len());
                        n2[p] ^= 1 << o.rng.below(8);
                    }
                    2 if !a2.is_empty() => {
                        let p = if o.rng.chance(1, 2) { a2.len() - 1 } else { o.rng.below(a2.len()) };
                        a2[p] ^= 1 << o.rng.below(8);
                    }
                    2 | 3 => a2.push(0),
                    4 if !a2.is_empty() => {
                        a2.pop();
                    }
                    4 | 5 => {
                        let p = o.rng.below(c2.len());
                        c2[p] ^= 1 << o.rng.below(8);
                    }
                    6 => {
                        c2.pop();
                    }
                    7 => c2.push(0),
                    _ => {
                        let n = c2.len().min(16);
                        c2.drain(..n);
                    }
                }
                o.count("altered", 1);
                let r = guard(|| cipher(alg, &k2).decrypt(&n2, corecrypto::Payload { msg: &c2, aad: &a2 }));
                if !r.is_err() {
                    o.viol("alteration", d(format!("alteration {kind} gives {}", r.name())));
                }
            }
            // without associated data
            let plain = guard(|| c.encrypt(&nonce, msg.as_slice()));
            if plain != Out::Ok(refimpl::seal(alg, &key, &nonce, &[], &msg)) {
                o.viol("not-standard", d(format!("without associated data: {}", plain.name())));
            }

            // a stream
            if i % 2 == 0 {
                o.count("streams", 1);
                let prefix = o.rng.bytes(refimpl::nonce_len(alg) - 4);
                let k = o.rng.range(1, 5);
                let blocks: Vec<Vec<u8>> = (0..k)
                    .map(|_| {
                        let n = if o.rng.chance(1, 30) { o.rng.range(1, 200_000) } else { o.rng.below(50) };
                        o.rng.bytes(n)
                    })
                    .collect();
                let Out::Ok(mut s) = guard(|| EncryptionStreams::initialize(Protected::new(key), &prefix, &alg.real())) else {
                    o.viol("stream-start", d("stream does not start".into()));
                    continue;
                };
                let mut ct: Vec<Vec<u8>> = vec![];
                for b in &blocks[..k - 1] {
                    if let Out::Ok(c) = guard(|| s.encrypt_next(corecrypto::Payload { msg: b, aad: &aad })) {
                        ct.push(c);
                    }
                }
                if let Out::Ok(c) = guard(|| s.encrypt_last(corecrypto::Payload { msg: &blocks[k - 1], aad: &aad })) {
                    ct.push(c);
                }
                let want: Vec<Vec<u8>> = blocks
                    .iter()
                    .enumerate()
                    .map(|(j, b)| refimpl::seal(alg, &key, &refimpl::stream_nonce(&prefix, j as u32, j == k - 1), &aad, b))
                    .collect();
                if ct != want {
                    o.viol("stream-not-standard", d(format!("stream of {k} blocks differs")));
                    continue;
                }
                // decrypts the given (block, last?) sequence; the number that succeeded, and whether all were right
                let run = |seq: &[(usize, bool)]| -> Out<(usize, bool)> {
                    guard(|| -> Result<(usize, bool), String> {
                        let mut s = Some(
                            DecryptionStreams::initialize(Protected::new(key), &prefix, &alg.real()).map_err(|e| e.to_string())?,
                        );
                        let mut n = 0;
                        let mut right = true;
                        for (j, last) in seq {
                            let p = corecrypto::Payload { msg: &ct[*j], aad: &aad };
                            let r = if *last {
                                s.take().unwrap().decrypt_last(p)
                            } else {
                                s.as_mut().unwrap().decrypt_next(p)
                            };
                            match r {
                                Ok(m) => {
                                    right &= m == blocks[*j];
                                    n += 1;
                                }
                                Err(_) => break,
                            }
                            if *last {
                                break;
                            }
                        }
                        Ok((n, right))
                    })
                };
                let good: Vec<(usize, bool)> = (0..k).map(|j| (j, j == k - 1)).collect();
                if run(&good) != Out::Ok((k, true)) {
                    o.viol("stream-roundtrip", d(format!("{:?}", run(&good))));
                }
                // each position gets each other block and role
                for at in 0..k {
                    for j in 0..k {
                        for last in [false, true] {
                            if (j, last) == good[at] {
                                continue;
                            }
                            let mut seq = good[..at].to_vec();
                            seq.push((j, last));
                            o.count("misordered", 1);
                            let r = run(&seq);
                            if r != Out::Ok((at, true)) {
                                o.viol("stream-order", d(format!("of {k} blocks, block {j} at place {at} as last={last}: {r:?}")));
                            }
                        }
                    }
                }
            }
            o.sample(|| d("ok".into()));
        }
    });
}
