//! C07 and C08: histories of key operations against a model.
use crate::gen;
use crate::monio::{Chunk, MonIo};
use crate::ops::*;
use crate::refimpl::{self, RefHeader, Slot, BLOCK};
use crate::util::*;

/// The passwords a history works with; they include near misses of each other.
fn pool(r: &mut Rng) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..r.range(3, 6)).map(|_| gen::password(r)).collect();
    let base = v[0].clone();
    let near = gen::near_misses(r, &base);
    for _ in 0..2 {
        let c = r.pick(&near).1.clone();
        if !c.is_empty() {
            v.push(c);
        }
    }
    v.sort();
    v.dedup();
    r.shuffle(&mut v);
    v
}

struct World {
    file: Vec<u8>,
    content: Vec<u8>,
    alg: Alg,
    ver: u8,
    /// the model: (password, password hashing) of each keyslot in use
    keys: Vec<(Vec<u8>, Kdf)>,
    trace: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum What {
    Add,
    Change,
    Delete,
    Verify,
}

fn create(o: &mut Obs, pool: &[Vec<u8>], max_len: usize) -> Option<World> {
    let alg = gen::alg(&mut o.rng);
    let kdf = gen::kdf(&mut o.rng);
    let n = o.rng.range(0, max_len);
    let content = gen::content(&mut o.rng, n);
    let pw = o.rng.pick(pool).clone();
    let mut w = World {
        file: vec![],
        content,
        alg,
        ver: 5,
        keys: vec![(pw.clone(), kdf)],
        trace: vec![],
    };
    if o.rng.chance(1, 8) {
        w.ver = *o.rng.pick(&[1, 2, 3, 4, 4]);
    }
    if w.ver != 5 || o.rng.chance(1, 3) {
        // made by the independent encoder, with keyslots in arbitrary places
        let mut pos = [0usize, 1, 2, 3];
        o.rng.shuffle(&mut pos);
        let n = if w.ver == 5 { o.rng.range(1, 4) } else { 1 };
        w.keys.clear();
        let mut ks = vec![];
        for p in &pos[..n] {
            let (k, f) = (o.rng.pick(pool).clone(), gen::kdf(&mut o.rng));
            w.keys.push((k.clone(), f));
            ks.push((*p, f, k));
        }
        let m = refimpl::make(&mut o.rng, w.ver, alg, false, &ks, &w.content);
        w.file = [m.header, m.body].concat();
        w.trace.push(format!("made version {} {alg:?} with {} keys at {:?}", w.ver, n, &pos[..n]));
    } else {
        match encrypt(Spec::new(alg, kdf), &pw, &w.content) {
            Out::Ok(e) => w.file = e.body,
            x => {
                o.viol("encrypt", x.name());
                return None;
            }
        }
        w.trace.push(format!("encrypted {alg:?} {kdf:?} with {}", brief(&pw)));
    }
    Some(w)
}

fn slots(file: &[u8]) -> Result<Vec<Slot>, String> {
    let (h, _) = RefHeader::parse(file)?;
    Ok(h.slots.into_iter().flatten().collect())
}

/// One operation; judged for its verdict (c07) and for what it changed (c08).
fn step(o: &mut Obs, w: &mut World, pool: &[Vec<u8>], what: What, old: &[u8], new: &[u8], kdf: Kdf, c07: bool, c08: bool) {
    let before = w.file.clone();
    // now and then the file is in the middle of a stream
    let n = if o.rng.chance(1, 12) { o.rng.range(1, 700) } else { 0 };
    let pre = o.rng.bytes(n);
    let f = MonIo::new([&pre[..], &w.file].concat()).at(n as u64);
    if o.rng.chance(1, 6) {
        let (r, wr) = (gen::chunk(&mut o.rng, 1000), gen::chunk(&mut o.rng, 1000));
        let mut i = f.lock();
        i.rplan = r;
        i.wplan = wr;
        drop(i);
    }
    let res = match what {
        What::Add => key_add(&f, old, new, kdf),
        What::Change => key_change(&f, old, new, kdf),
        What::Delete => key_delete(&f, old),
        What::Verify => key_verify(&f, old),
    };
    let valid_kdf = matches!(kdf, Kdf::Argon(1..=3) | Kdf::Balloon(4..=5));
    let has = w.keys.iter().position(|(k, _)| k == old);
    let expect = w.ver == 5
        && has.is_some()
        && match what {
            What::Add => w.keys.len() < 4 && valid_kdf,
            What::Change => valid_kdf,
            _ => true,
        };
    w.trace.push(format!("{what:?} old {} new {} {kdf:?}: {}", brief(old), brief(new), res.name()));
    o.count(&format!("{what:?}_{}", if res.ok() { "done" } else { "refused" }), 1);
    let story = |w: &World| w.trace.join("; ");
    if let Out::Panic(_) = &res {
        o.viol("panic", story(w));
    }
    let all = f.data();
    if c08 && !all.starts_with(&pre) {
        o.viol("before-the-header", story(w));
    }
    w.file = all[n.min(all.len())..].to_vec();
    if c07 && res.ok() != expect {
        o.viol(
            if expect { "op-refused" } else { "op-accepted" },
            format!("{} keys, expected {}: {}", w.keys.len(), if expect { "success" } else { "an error" }, story(w)),
        );
    }
    if c08 {
        c08_judge(o, w, &before, what, old, new, kdf, &res);
    }
    if res.ok() && expect {
        // the model follows the operations that reported success
        let mut ambiguous = false;
        match what {
            What::Add => w.keys.push((new.to_vec(), kdf)),
            What::Change | What::Delete => {
                // which of several equal keys is meant only shows in its password hashing
                let same: Vec<usize> = (0..w.keys.len()).filter(|i| w.keys[*i].0 == old).collect();
                ambiguous = same.len() > 1;
                w.keys.remove(same[0]);
                if what == What::Change {
                    w.keys.push((new.to_vec(), kdf));
                }
            }
            What::Verify => {}
        }
        if ambiguous {
            o.count("ops_on_duplicate_keys", 1);
        }
    } else if res.ok() {
        // already reported; the history has no meaning any more
        return;
    }
    if c07 {
        c07_judge(o, w, pool);
    }
}

fn c07_judge(o: &mut Obs, w: &World, pool: &[Vec<u8>]) {
    let story = || w.trace.join("; ");
    let mut master = None;
    if w.ver == 5 {
        match slots(&w.file) {
            Ok(s) if s.len() == w.keys.len() => {}
            Ok(s) => o.viol("slot-count", format!("{} keyslots in use, {} expected: {}", s.len(), w.keys.len(), story())),
            Err(e) => o.viol("header-broken", format!("{e}: {}", story())),
        }
    }
    for p in pool {
        let want = w.keys.iter().any(|(k, _)| k == p);
        let (r, out) = decrypt(None, &w.file, p);
        o.count("openings", 1);
        if r.ok() != want {
            o.viol(
                if want { "current-key-refused" } else { "removed-key-opens" },
                format!("{}: {} ; {}", brief(p), r.name(), story()),
            );
        } else if want && out != w.content {
            o.viol("content", format!("{} bytes instead of {}: {}", out.len(), w.content.len(), story()));
        }
        if w.ver == 5 {
            let v = key_verify(&MonIo::new(w.file.clone()), p);
            if v.ok() != want {
                o.viol("verify-disagrees", format!("{}: {} ; {}", brief(p), v.name(), story()));
            }
            if want {
                if let Ok(s) = slots(&w.file) {
                    let m: Vec<[u8; 32]> = s.iter().filter_map(|s| s.master(w.alg, p)).collect();
                    let n = w.keys.iter().filter(|(k, _)| k == p).count();
                    if m.len() != n {
                        o.viol("slots-per-key", format!("{} keyslots open with {}, {n} expected: {}", m.len(), brief(p), story()));
                    }
                    for x in m {
                        if *master.get_or_insert(x) != x {
                            o.viol("master-differs", story());
                        }
                    }
                }
            }
        }
    }
}

fn c08_judge(o: &mut Obs, w: &World, before: &[u8], what: What, old: &[u8], new: &[u8], kdf: Kdf, res: &Out<()>) {
    let d = |s: String| format!("{s}: {}", w.trace.join("; "));
    let after = &w.file;
    if !res.ok() || what == What::Verify {
        if after != before {
            let at = before.iter().zip(after).position(|(a, b)| a != b);
            o.viol(
                if what == What::Verify { "verify-modifies" } else { "failure-modifies" },
                d(format!("first difference at {at:?}, {} -> {} bytes", before.len(), after.len())),
            );
        }
        o.count("unmodified", 1);
        return;
    }
    o.count("modified", 1);
    if after.len() != before.len() {
        return o.viol("length", d(format!("{} -> {} bytes", before.len(), after.len())));
    }
    if w.ver != 5 {
        return o.viol("wrong-version", d("succeeded".into()));
    }
    if after[416..] != before[416..] {
        let at = (416..after.len()).find(|i| after[*i] != before[*i]);
        o.viol("body", d(format!("differs first at {at:?}")));
    }
    if after[..32] != before[..32] {
        o.viol("fixed-part", d(format!("{} -> {}", hex(&before[..32]), hex(&after[..32]))));
    }
    let (b, a) = match (slots(before), slots(after)) {
        (Ok(b), Ok(a)) => (b, a),
        (_, Err(e)) => return o.viol("header-broken", d(e)),
        (Err(_), _) => return,
    };
    let gone: Vec<&Slot> = b.iter().filter(|s| !a.contains(s)).collect();
    let come: Vec<&Slot> = a.iter().filter(|s| !b.contains(s)).collect();
    let (g, c) = match what {
        What::Add => (0, 1),
        What::Change => (1, 1),
        _ => (1, 0),
    };
    if gone.len() != g || come.len() != c || a.len() + g != b.len() + c {
        return o.viol("other-slots", d(format!("{} keyslots vanished, {} appeared", gone.len(), come.len())));
    }
    let master = b.iter().find_map(|s| s.master(w.alg, old));
    for s in gone {
        if s.master(w.alg, old).is_none() {
            o.viol("wrong-slot", d("the keyslot that vanished is not one of the old key".into()));
        }
    }
    for s in come {
        if s.kdf != kdf {
            o.viol("slot-kdf", d(format!("new keyslot says {:?}", s.kdf)));
        }
        if s.master(w.alg, new) != master {
            o.viol("slot-key", d("the new keyslot does not hold the master key".into()));
        }
    }
}

fn random_step(o: &mut Obs, w: &mut World, pool: &[Vec<u8>], c07: bool, c08: bool) {
    let what = *o.rng.pick(&[What::Add, What::Add, What::Add, What::Change, What::Change, What::Delete, What::Delete, What::Verify]);
    let old = if !w.keys.is_empty() && o.rng.chance(4, 5) {
        let i = o.rng.below(w.keys.len());
        w.keys[i].0.clone()
    } else {
        o.rng.pick(pool).clone()
    };
    let new = o.rng.pick(pool).clone();
    let mut kdf = gen::kdf(&mut o.rng);
    if o.rng.chance(1, 15) {
        kdf = *o.rng.pick(&[Kdf::Argon(0), Kdf::Argon(4), Kdf::Balloon(3), Kdf::Balloon(6), Kdf::Argon(5), Kdf::Balloon(0)]);
    }
    step(o, w, pool, what, &old, &new, kdf, c07, c08);
}

/// All histories of operations on few passwords up to a depth.
fn exhaustive(o: &mut Obs, depth: usize, c07: bool, c08: bool) {
    let pool: Vec<Vec<u8>> = vec![b"one".to_vec(), b"two".to_vec()];
    let mut menu = vec![];
    for old in 0..2 {
        menu.push((What::Delete, old, 0));
        for new in 0..2 {
            menu.push((What::Add, old, new));
            menu.push((What::Change, old, new));
        }
    }
    let total = menu.len().pow(depth as u32);
    for i in 0..total {
        if !o.mine(i) || !o.time_left() {
            continue;
        }
        let alg = ALGS[i % 3];
        let Out::Ok(e) = encrypt(Spec::new(alg, Kdf::Balloon(5)), &pool[0], b"some content") else {
            return o.viol("encrypt", "fails");
        };
        let mut w = World {
            file: e.body,
            content: b"some content".to_vec(),
            alg,
            ver: 5,
            keys: vec![(pool[0].clone(), Kdf::Balloon(5))],
            trace: vec!["encrypted with one".into()],
        };
        let mut x = i;
        for _ in 0..depth {
            let (what, a, b) = menu[x % menu.len()];
            x /= menu.len();
            step(o, &mut w, &pool, what, &pool[a], &pool[b], KDFS[x % 5], c07, c08);
        }
        o.eval(&("exhaustive", i, depth), true);
        o.count("enumerated_histories", 1);
    }
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "A history is a fresh file (by the library, or by an independent encoder with keyslots in arbitrary places) and a sequence of key additions, \
        changes, deletions and verifications with current, former and never valid passwords; after every step every password of the history is tried. \
        All histories over two passwords up to a depth, then random ones over up to 8 passwords including near misses and duplicates. \
        non-trivial: distinct histories of at least two steps."
        .into();
    ctx.min_evals = 300;
    for k in ["Add_done", "Change_done", "Delete_done", "Add_refused", "Change_refused", "Delete_refused", "ops_on_duplicate_keys"] {
        ctx.need(k, 60);
    }
    let deep = ctx.pick(3, 4);
    ctx.par(7, ctx.pick(11, 300), |o| {
        exhaustive(o, deep, true, false);
        while o.time_left() {
            let p = pool(&mut o.rng);
            let big = if o.rng.chance(1, 60) { BLOCK + 100 } else { 300 };
            let Some(mut w) = create(o, &p, big) else { return };
            let n = o.rng.range(2, if o.thorough { 40 } else { 14 });
            c07_judge(o, &w, &p);
            for _ in 0..n {
                random_step(o, &mut w, &p, true, false);
            }
            o.max("max_history", n as u64);
            o.eval(&w.trace, true);
            o.sample(|| w.trace.join("; ").chars().take(400).collect());
        }
    });
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "Key operations with right and wrong keys, with one to four keyslots in any place, on every header version, on damaged and short files, and \
        with bodies of any length; the file before and after is compared byte for byte and keyslot for keyslot by an independent parser. \
        non-trivial: distinct (file, operation)."
        .into();
    ctx.min_evals = 1000;
    ctx.need("modified", 500);
    ctx.need("unmodified", 300);
    ctx.need("damaged", 100);
    ctx.par(8, ctx.pick(9, 240), |o| {
        exhaustive(o, 2, false, true);
        while o.time_left() {
            let p = pool(&mut o.rng);
            let big = *o.rng.pick(&[0, 50, 1000, 1000, 9000, 9000, 70_000, 2 * BLOCK]);
            let Some(mut w) = create(o, &p, big) else { return };
            if o.rng.chance(1, 5) {
                // a file the operations must refuse without touching it
                match o.rng.below(4) {
                    0 => {
                        let n = o.rng.below(w.file.len().min(418));
                        w.file.truncate(n);
                    }
                    1 => {
                        let i = o.rng.below(6);
                        w.file[i] ^= 1 << o.rng.below(8);
                    }
                    2 => {
                        let i = o.rng.below(w.file.len().min(416));
                        w.file[i] ^= 1 << o.rng.below(8);
                    }
                    _ => {
                        let n = o.rng.below(500);
                        w.file = o.rng.bytes(n);
                    }
                }
                w.trace.push("damaged".into());
                for what in [What::Add, What::Change, What::Delete, What::Verify] {
                    let before = w.file.clone();
                    let f = MonIo::new(before.clone()).plan(Chunk::Full, Chunk::Full);
                    let (old, new, kdf) = (w.keys[0].0.clone(), o.rng.pick(&p).clone(), gen::kdf(&mut o.rng));
                    let res = match what {
                        What::Add => key_add(&f, &old, &new, kdf),
                        What::Change => key_change(&f, &old, &new, kdf),
                        What::Delete => key_delete(&f, &old),
                        What::Verify => key_verify(&f, &old),
                    };
                    o.count("damaged", 1);
                    o.eval(&(hash_of(&before), what), true);
                    if (!res.ok() || what == What::Verify) && f.data() != before {
                        o.viol("failure-modifies", format!("{what:?} on a damaged file {}: {}", brief(&before), res.name()));
                    }
                    if f.data().len() != before.len() {
                        o.viol("length", format!("{what:?} on a damaged file {}: {}", brief(&before), res.name()));
                    }
                }
                continue;
            }
            for _ in 0..o.rng.range(1, 8) {
                let h = hash_of(&w.file);
                random_step(o, &mut w, &p, false, true);
                o.eval(&(h, w.trace.len(), w.trace.last().cloned()), true);
                if w.keys.is_empty() {
                    break;
                }
            }
            o.sample(|| w.trace.join("; ").chars().take(400).collect());
        }
    });
}
