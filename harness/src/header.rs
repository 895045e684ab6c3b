//! C09, C12 and C13: header serialisation and the header operations.
use crate::gen;
use crate::monio::{Chunk, MonIo, Op};
use crate::ops::*;
use crate::refimpl::{RefHeader, Slot, nonce_len};
use crate::util::*;
use corecrypto::header::{Header, Keyslot};

fn random_ref(r: &mut Rng, ver: u8, alg: Alg, memory: bool, used: &[usize]) -> RefHeader {
    let mut h = RefHeader {
        ver,
        alg,
        memory,
        nonce: vec![],
        salt: [0; 16],
        slots: [None, None, None, None],
    };
    let special = r.chance(1, 6);
    let bytes = |n: usize, r: &mut Rng| if special { vec![*r.pick(&[0u8, 0xDF, 0xDE, 0xFF]); n] } else { r.bytes(n) };
    h.nonce = bytes(h.body_nonce_len(), r);
    h.salt = bytes(16, r).try_into().unwrap();
    if ver >= 4 {
        for i in used {
            h.slots[*i] = Some(Slot {
                kdf: if ver == 4 { Kdf::Balloon(4) } else { gen::kdf(r) },
                enckey: bytes(48, r).try_into().unwrap(),
                nonce: bytes(nonce_len(alg), r),
                salt: if ver == 4 { h.salt } else { bytes(16, r).try_into().unwrap() },
            });
        }
    }
    if ver == 5 {
        h.salt = [0; 16];
    }
    h
}

fn real_header(h: &RefHeader, with_salt: bool) -> Header {
    let spec = Spec {
        alg: h.alg,
        ver: h.ver,
        memory: h.memory,
        kdf: Kdf::Balloon(5),
        detached: false,
    };
    Header {
        header_type: spec.header_type(),
        nonce: h.nonce.clone(),
        salt: (h.ver <= 3 || with_salt).then_some(h.salt),
        keyslots: (h.ver >= 4).then(|| {
            h.slots
                .iter()
                .flatten()
                .map(|s| Keyslot {
                    hash_algorithm: s.kdf.real(),
                    encrypted_key: s.enckey,
                    nonce: s.nonce.clone(),
                    salt: s.salt,
                })
                .collect()
        }),
    }
}

/// How does what the library read differ from the reference?
fn compare(h: &RefHeader, got: &Header) -> Vec<String> {
    let mut v = vec![];
    let mut c = |ok: bool, what: &str| {
        if !ok {
            v.push(what.to_string());
        }
    };
    c(version_no(got.header_type.version) == h.ver, "version");
    c(got.header_type.algorithm == h.alg.real(), "algorithm");
    c((got.header_type.mode == corecrypto::primitives::Mode::MemoryMode) == h.memory, "mode");
    c(got.nonce == h.nonce, "nonce");
    if h.ver <= 3 {
        c(got.salt == Some(h.salt), "salt");
    }
    c(got.get_size() == header_len(h.ver) as u64, "size");
    let slots: Vec<&Slot> = h.slots.iter().flatten().collect();
    if h.ver >= 4 {
        match &got.keyslots {
            None => c(false, "keyslots missing"),
            Some(k) => {
                c(k.len() == slots.len(), "number of keyslots");
                for (i, (k, s)) in k.iter().zip(&slots).enumerate() {
                    c(k.hash_algorithm == s.kdf.real(), &format!("kdf of keyslot {i}"));
                    c(k.encrypted_key == s.enckey, &format!("encrypted key of keyslot {i}"));
                    c(k.nonce == s.nonce, &format!("nonce of keyslot {i}"));
                    c(k.salt == s.salt, &format!("salt of keyslot {i}"));
                }
            }
        }
    } else {
        c(got.keyslots.as_ref().is_none_or(Vec::is_empty), "keyslots of an old version");
    }
    v
}

fn c09_case(o: &mut Obs, h: &RefHeader, compact: bool) {
    let bytes = h.bytes();
    let d = |s: String| format!("version {} {:?} memory {} keyslots {:?}: {s}; {}", h.ver, h.alg, h.memory,
        h.slots.iter().map(Option::is_some).collect::<Vec<_>>(), hex(&bytes));
    o.eval(&bytes, true);
    o.sample(|| d("read, written and cut".into()));
    // reading, anywhere in a stream, however it is chunked
    let pre = *o.rng.pick(&[0, 0, 1, 5, 64, 416, 5000]);
    let post = *o.rng.pick(&[0, 1, 16, 500, 9000]);
    let data = [o.rng.bytes(pre), bytes.clone(), o.rng.bytes(post)].concat();
    let plan = gen::chunk(&mut o.rng, data.len());
    let f = MonIo::new(data.clone()).plan(plan.clone(), Chunk::Full).at(pre as u64).logged();
    match deserialize(&f) {
        Out::Ok((got, aad)) => {
            let diff = compare(h, &got);
            if !diff.is_empty() {
                o.viol("fields", d(format!("read back differently: {}", diff.join(", "))));
            }
            if f.pos() != (pre + bytes.len()) as u64 {
                o.viol("consumed", d(format!("{} bytes consumed at offset {pre} ({plan:?})", f.pos() as i64 - pre as i64)));
            }
            if f.data() != data {
                o.viol("modified", d("the stream was modified by reading".into()));
            }
            let want = RefHeader::aad(&bytes, h.ver, h.alg);
            if aad != want {
                o.viol("aad-read", d(format!("associated data {} instead of {}", hex(&aad), hex(&want))));
            }
            if h.ver >= 3 && compact {
                let a = guard(|| got.create_aad());
                if a != Out::Ok(want.clone()) {
                    o.viol("aad-differs", d(format!("created {:?}", a.get().map(|a| hex(&a)))));
                }
                let s = guard(|| got.serialize());
                if s != Out::Ok(bytes.clone()) {
                    o.viol("reserialise", d(format!("written {:?}", s.get().map(|a| hex(&a)))));
                }
            }
            o.count("read", 1);
        }
        x => o.viol("refused", d(x.name_only())),
    }
    // writing
    let ws = o.rng.chance(1, 2);
    let real = real_header(h, ws && h.ver == 4);
    let w = MonIo::empty();
    let plan = gen::chunk(&mut o.rng, 400);
    let wp = w.clone().plan(Chunk::Full, plan);
    let mut wm = wp.clone();
    let r = guard(|| real.write(&mut wm));
    if h.ver >= 3 && compact {
        if !r.ok() || w.data() != bytes {
            o.viol("written", d(format!("{}: {}", r.name(), hex(&w.data()))));
        }
        let a = guard(|| real.create_aad());
        if a != Out::Ok(RefHeader::aad(&bytes, h.ver, h.alg)) {
            o.viol("aad-written", d(format!("{:?}", a.get().map(|a| hex(&a)))));
        }
        o.count("written", 1);
    } else if h.ver < 3 {
        if r.ok() || w.written() > 0 {
            o.viol("old-version-written", d(r.name()));
        }
        o.count("refused_old", 1);
    }
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "Headers with every version, algorithm, mode and set of used keyslots and random or special contents are encoded by an independent encoder and \
        read at an arbitrary offset of a chunked stream: fields, stream position and associated data are compared; the same header is written by the \
        library and compared byte for byte. non-trivial: distinct header bytes."
        .into();
    ctx.min_evals = 3000;
    ctx.need("read", 3000);
    ctx.need("written", 1000);
    ctx.par(9, ctx.pick(4, 120), |o| {
        for n in 0.. {
            let mut i = 0;
            for ver in 1..=5u8 {
                for alg in ALGS {
                    for memory in [false, true] {
                        for set in 0..16usize {
                            if ver != 5 && set != 1 {
                                continue;
                            }
                            i += 1;
                            if n == 0 && !o.mine(i) {
                                continue;
                            }
                            let used: Vec<usize> = (0..4).filter(|b| set >> b & 1 == 1).collect();
                            let compact = ver != 5 || used.iter().enumerate().all(|(i, p)| i == *p);
                            let h = random_ref(&mut o.rng, ver, alg, memory, &used);
                            c09_case(o, &h, compact);
                            // every offset of a short stream is refused
                            if ver == 5 || set == 1 {
                                let b = h.bytes();
                                let cut = o.rng.below(b.len());
                                let f = MonIo::new(b[..cut].to_vec());
                                if deserialize(&f).ok() {
                                    o.viol("short-accepted", format!("{cut} bytes of {}", hex(&b)));
                                }
                                o.count("short_refused", 1);
                            }
                        }
                    }
                }
            }
            if !o.time_left() {
                break;
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------

fn whole_file(o: &mut Obs) -> Option<(Vec<u8>, usize, Vec<u8>, Vec<u8>, String)> {
    let mut s = Spec::new(gen::alg(&mut o.rng), gen::kdf(&mut o.rng));
    if o.rng.chance(1, 3) {
        s.ver = 4;
        s.kdf = Kdf::Balloon(4);
    }
    let n = gen::length(&mut o.rng, if o.thorough { 2 } else { 1 });
    let pt = gen::content(&mut o.rng, n);
    let key = gen::password(&mut o.rng);
    let mut file = match encrypt(s, &key, &pt) {
        Out::Ok(e) => e.body,
        x => {
            o.viol("encrypt", x.name());
            return None;
        }
    };
    let mut story = format!("{s:?}, {} bytes", pt.len());
    if s.ver == 5 {
        for i in 0..o.rng.below(4) {
            let f = MonIo::new(file.clone());
            if key_add(&f, &key, &[&key[..], &[i as u8]].concat(), gen::kdf(&mut o.rng)).ok() {
                file = f.data();
            }
        }
        if o.rng.chance(1, 3) {
            let f = MonIo::new(file.clone());
            let k = [&key[..], b"new"].concat();
            if key_change(&f, &key, &k, s.kdf).ok() {
                file = f.data();
                story += ", key changed";
                return Some((file, header_len(s.ver), k, pt, story));
            }
        }
    }
    Some((file, header_len(s.ver), key, pt, story))
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "Files written by the library (versions 4 and 5, all algorithms, one to four keys, contents around block boundaries) are dumped, stripped, decrypted \
        with the dump, and restored, on streams with random chunking; each intermediate file is compared byte for byte. non-trivial: distinct files."
        .into();
    ctx.min_evals = 200;
    ctx.need("roundtrips", 200);
    ctx.need("inside_streams", 40);
    ctx.par(12, ctx.pick(7, 200), |o| {
        while o.time_left() {
            let Some((file, n, key, pt, story)) = whole_file(o) else { return };
            // the file may begin anywhere in a stream
            let pre = if o.rng.chance(1, 3) {
                let n = o.rng.range(1, 900);
                if o.rng.chance(1, 2) { vec![0; n] } else { o.rng.bytes(n) }
            } else {
                vec![]
            };
            let at = pre.len();
            let d = |s: String| format!("{story}, {at} bytes before it: {s}");
            o.eval(&file, true);
            let c = |o: &mut Obs| gen::chunk(&mut o.rng, 2000);
            let within = |b: &[u8]| MonIo::new([&pre[..], b].concat()).at(at as u64);
            // what came before stays
            let after = |o: &mut Obs, f: &MonIo| {
                let b = f.data();
                if !b.starts_with(&pre) {
                    o.viol("before-the-header", format!("{story}: the {at} bytes before it changed"));
                }
                b[at.min(b.len())..].to_vec()
            };
            // dump
            let src = within(&file).plan(c(o), c(o)).logged();
            let out = MonIo::empty().plan(c(o), c(o));
            let r = dump(&src, &out);
            if !r.ok() || out.data() != file[..n] {
                o.viol("dump", d(format!("{} {} bytes {}", r.name(), out.data().len(), hex(&out.data()))));
            }
            if after(o, &src) != file || src.log().iter().any(|x| matches!(x, Op::Write { .. })) {
                o.viol("dump-modifies", d(String::new()));
            }
            // strip
            let f = within(&file).plan(c(o), c(o));
            let r = strip(&f);
            let stripped = after(o, &f);
            if !r.ok() || stripped.len() != file.len() || stripped[..n].iter().any(|b| *b != 0) || stripped[n..] != file[n..] {
                o.viol("strip", d(format!("{}, {} of {} bytes", r.name(), stripped.len(), file.len())));
            }
            // decrypt with the dumped header
            let (r, out2) = decrypt(Some(&out.data()), &stripped, &key);
            if !r.ok() || out2 != pt {
                o.viol("decrypt-stripped", d(format!("{}, {} bytes", r.name(), out2.len())));
            }
            if at > 0 {
                o.count("inside_streams", 1);
                // stripped, only the body, and with its header
                let w = MonIo::empty();
                let r = decrypt_io(Some(&within(&out.data())), &within(&stripped), &w, &key);
                let (w2, w3) = (MonIo::empty(), MonIo::empty());
                let r2 = decrypt_io(Some(&MonIo::new(out.data())), &within(&file[n..]), &w2, &key);
                let r3 = decrypt_io(None, &within(&file), &w3, &key);
                for (what, r, w) in [("stripped", r, w), ("only the body", r2, w2), ("whole", r3, w3)] {
                    if !r.ok() || w.data() != pt {
                        o.viol("decrypt-within", d(format!("{what}: {}, {} bytes", r.name(), w.data().len())));
                    }
                }
            }
            let (r, _) = decrypt(None, &stripped, &key);
            if r.ok() {
                o.viol("stripped-opens", d("the stripped file decrypts without a header".into()));
            }
            // restore
            let f = within(&stripped).plan(c(o), c(o));
            let h = within(&out.data()).plan(c(o), c(o));
            let r = restore(&h, &f);
            if !r.ok() || after(o, &f) != file {
                o.viol("restore", d(r.name()));
            }
            if after(o, &h) != out.data() {
                o.viol("restore-modifies-header", d(String::new()));
            }
            o.count("roundtrips", 1);
            o.sample(|| story.clone());
        }
    });
}

fn c13_restore(o: &mut Obs, header: &[u8], target: &[u8], what: &str) {
    // the judgement: which header is it, and may it be written?
    let valid = RefHeader::parse(header).ok().filter(|(h, _)| h.ver >= 3);
    let may = valid.as_ref().filter(|(_, n)| target.len() >= *n && target[..*n].iter().all(|b| *b == 0));
    // now and then in the middle of a stream, where only what follows counts
    let pre = vec![if o.rng.chance(1, 2) { 0u8 } else { 0xA5 }; if o.rng.chance(1, 8) { o.rng.range(1, 500) } else { 0 }];
    let within = |b: &[u8]| MonIo::new([&pre[..], b].concat()).at(pre.len() as u64);
    let (h, t) = (within(header), within(target).logged());
    if o.rng.chance(1, 2) {
        let (a, b) = (gen::chunk(&mut o.rng, 600), gen::chunk(&mut o.rng, 600));
        h.lock().rplan = a.clone();
        let mut i = t.lock();
        i.rplan = b;
        i.wplan = a;
    }
    let r = restore(&h, &t);
    o.eval(&(hash_of(&header), hash_of(&target)), true);
    let d = |s: &str| format!("{what}: header {} on a target of {} bytes beginning {}: {s}", brief(header), target.len(), brief(target));
    o.sample(|| d(if may.is_some() { "to be restored" } else { "to be refused" }));
    let after = |f: &MonIo| f.data().strip_prefix(&pre[..]).map(<[u8]>::to_vec);
    if after(&h).as_deref() != Some(header) {
        o.viol("header-file-modified", d(&r.name()));
    }
    match (&r, may) {
        (Out::Ok(()), Some((_, n))) => {
            o.count("restored", 1);
            if after(&t) != Some([&header[..*n], &target[*n..]].concat()) {
                o.viol("restore-other-bytes", d("more or other bytes than the header's were changed"));
            }
        }
        (Out::Ok(()), None) => o.viol("restore-accepted", d("reported success")),
        (Out::Panic(p), _) => o.viol("panic", d(p)),
        (Out::Err(e), Some(_)) => o.viol("restore-refused", d(e)),
        (Out::Err(_), None) => {
            o.count("restore_refused", 1);
            if after(&t).as_deref() != Some(target) {
                o.viol("refused-but-modified", d("reported an error"));
            }
        }
    }
}

fn c13_invalid(o: &mut Obs, data: &[u8], what: &str) {
    o.eval(&(hash_of(&data), "invalid"), true);
    let f = MonIo::new(data.to_vec());
    let out = MonIo::new(b"previous".to_vec());
    let r = dump(&f, &out);
    if r.ok() || f.data() != data || out.data() != b"previous" {
        o.viol("dump-invalid", format!("{what} {}: {}, output {}", brief(data), r.name(), brief(&out.data())));
    }
    let f = MonIo::new(data.to_vec());
    let r = strip(&f);
    if r.ok() || f.data() != data {
        o.viol("strip-invalid", format!("{what} {}: {}, file now {}", brief(data), r.name(), brief(&f.data())));
    }
    let f = MonIo::new(data.to_vec());
    let t = MonIo::new(vec![0; 600]);
    let r = restore(&f, &t);
    if r.ok() || t.data() != vec![0; 600] || f.data() != data {
        o.viol("restore-invalid", format!("{what} {}: {}", brief(data), r.name()));
    }
    o.count("invalid", 1);
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "Restoring headers of every version onto targets with every number of leading zero bytes around the header's size, one non-zero byte at every position, \
        and every short length; dumping and stripping files without a valid header (every truncation, every wrong tag byte, random bytes). Targets are compared \
        byte for byte. non-trivial: distinct (header, target)."
        .into();
    ctx.min_evals = 3000;
    for (k, n) in [("restored", 300), ("restore_refused", 2000), ("invalid", 1500)] {
        ctx.need(k, n);
    }
    ctx.par(13, ctx.pick(6, 150), |o| {
        let mut i = 0;
        for ver in 1..=5u8 {
            for alg in ALGS {
                let used: Vec<usize> = (0..o.rng.range(1, if ver == 5 { 4 } else { 1 })).collect();
                let hd = random_ref(&mut o.rng, ver, alg, false, &used).bytes();
                let n = hd.len();
                // every position of one non-zero byte, within and just after the header
                for p in 0..n + 3 {
                    i += 1;
                    if !o.mine(i) {
                        continue;
                    }
                    let mut t = vec![0u8; n];
                    t.extend(o.rng.bytes(40));
                    t[p] = *o.rng.pick(&[1, 0x80, 0xDE, 0xFF]);
                    c13_restore(o, &hd, &t, "one byte set");
                }
                // every short length
                for len in 0..n + 3 {
                    i += 1;
                    if o.mine(i) {
                        c13_restore(o, &hd, &vec![0; len], "zeros");
                    }
                }
                // the header file goes on (it is a whole encrypted file), or is cut
                if o.mine(i) {
                    let long = [hd.clone(), o.rng.bytes(300)].concat();
                    c13_restore(o, &long, &vec![0; n + 50], "header within a file");
                    let t = [vec![0; n], o.rng.bytes(2000)].concat();
                    c13_restore(o, &hd, &t, "stripped file");
                }
                for cut in 0..n {
                    i += 1;
                    if o.mine(i) {
                        c13_invalid(o, &hd[..cut], "cut header");
                    }
                }
                // every wrong tag byte
                for p in 0..6 {
                    for v in 0..=255u8 {
                        i += 1;
                        if !o.mine(i) {
                            continue;
                        }
                        let mut b = [&hd[..], &[7; 20]].concat();
                        b[p] = v;
                        if RefHeader::parse(&b).is_err() && !maybe_valid(&b) {
                            c13_invalid(o, &b, "wrong tag");
                        }
                    }
                }
            }
        }
        while o.time_left() {
            match o.rng.below(3) {
                0 => {
                    let n = o.rng.below(1000);
                    let mut b = o.rng.bytes(n);
                    if n > 6 && o.rng.chance(1, 2) {
                        b[0] = 0xDE;
                        b[1] = o.rng.range(0, 8) as u8;
                    }
                    if !maybe_valid(&b) {
                        c13_invalid(o, &b, "random bytes");
                    }
                }
                _ => {
                    let ver = o.rng.range(3, 5) as u8;
                    let alg = gen::alg(&mut o.rng);
                    let used: Vec<usize> = (0..o.rng.range(1, if ver == 5 { 4 } else { 1 })).collect();
                    let memory = o.rng.chance(1, 2);
                    let hd = random_ref(&mut o.rng, ver, alg, memory, &used).bytes();
                    let z = o.rng.range(0, 2 * hd.len());
                    let extra = o.rng.below(3000);
                    let t = [vec![0; z], o.rng.bytes(extra)].concat();
                    c13_restore(o, &hd, &t, "random");
                }
            }
        }
    });
}

/// The tag and length could be those of a header (fields beyond the tag are not judged here).
fn maybe_valid(b: &[u8]) -> bool {
    b.len() >= 6
        && b[0] == 0xDE
        && (1..=5).contains(&b[1])
        && b[2] == 0x0E
        && (1..=3).contains(&b[3])
        && b[4] == 0x0C
        && (1..=2).contains(&b[5])
        && b.len() >= header_len(b[1])
}
