//! C10: malformed input is reported as an error, never a crash.
use crate::arch::{self, ZEntry};
use crate::gen;
use crate::mem;
use crate::monio::{MonIo, RUNAWAY};
use crate::ops::*;
use crate::refimpl::{self, BLOCK};
use crate::trace::{self, Cmd, Scratch};
use crate::util::*;
use crate::watch;

/// Why this cannot be read as a header, judged from the documented format alone.
pub fn must_reject(b: &[u8]) -> Option<&'static str> {
    if b.len() < 2 {
        return Some("no version");
    }
    if b[0] != 0xDE || !(1..=5).contains(&b[1]) {
        return Some("unknown version");
    }
    if b.len() < header_len(b[1]) {
        return Some("header too short");
    }
    if b[2] != 0x0E || !(1..=3).contains(&b[3]) {
        return Some("unknown algorithm");
    }
    if b[4] != 0x0C || !(1..=2).contains(&b[5]) {
        return Some("unknown mode");
    }
    if b[1] == 5 {
        for i in 0..4 {
            let id = &b[32 + 96 * i..][..2];
            if id[0] == 0xDF && !matches!(id[1], 0xA1 | 0xA2 | 0xA3 | 0xB4 | 0xB5) {
                return Some("unknown keyslot type");
            }
        }
    }
    None
}

const OPS: [&str; 12] = [
    "deserialize",
    "decrypt",
    "decrypt, as detached header",
    "decrypt, as body of another header",
    "key verify",
    "key add",
    "key change",
    "key delete",
    "dump",
    "strip",
    "restore from",
    "restore into",
];

/// Parts of a good file for the operations that take two.
struct Good {
    header: Vec<u8>,
    body: Vec<u8>,
    key: Vec<u8>,
}

fn good(r: &mut Rng) -> Good {
    let key = gen::password(r);
    let ver = *r.pick(&[3, 4, 5]);
    let kdf = if ver == 4 { Kdf::Balloon(4) } else if ver == 3 { Kdf::Argon(3) } else { Kdf::Balloon(5) };
    let n = r.below(3000);
    let pt = r.bytes(n);
    let alg = gen::alg(r);
    let m = refimpl::make(r, ver, alg, false, &[(0, kdf, key.clone())], &pt);
    Good {
        header: m.header,
        body: m.body,
        key,
    }
}

/// Runs one operation on the hostile bytes and judges how it ended.
fn attempt(o: &mut Obs, op: usize, input: &[u8], key: &[u8], g: &Good, origin: &str, surely_bad: bool) {
    let why = must_reject(input);
    let w = o.worker;
    let what = format!("{} on {origin}", OPS[op]);
    watch::note(w, &what, input);
    let file = MonIo::new(input.to_vec());
    let out = MonIo::empty().budget(400_000 + 40 * input.len() as u64);
    let side = match op {
        2 => MonIo::new(g.body.clone()),
        3 => MonIo::new(g.header.clone()),
        10 => MonIo::new([&[0u8; 416][..], &g.body].concat()),
        11 => MonIo::new(g.header.clone()),
        _ => MonIo::empty(),
    };
    let side_before = side.data();
    let (res, peak) = mem::peak(|| match op {
        0 => {
            let mut io = file.clone();
            guard(|| {
                let (h, aad) = corecrypto::header::Header::deserialize(&mut io)?;
                // what a caller does with a header it was given
                let _ = h.get_size();
                let _ = h.serialize();
                let _ = h.create_aad();
                let _ = aad.len();
                Ok::<(), anyhow::Error>(())
            })
        }
        1 => decrypt_io(None, &file, &out, key),
        2 => decrypt_io(Some(&file), &side, &out, key),
        3 => decrypt_io(Some(&side), &file, &out, &g.key),
        4 => key_verify(&file, key),
        5 => key_add(&file, key, b"another", Kdf::Argon(3)),
        6 => key_change(&file, key, b"another", Kdf::Balloon(5)),
        7 => key_delete(&file, key),
        8 => dump(&file, &out),
        9 => strip(&file),
        10 => restore(&file, &side),
        _ => restore(&side, &file),
    });
    watch::done(w);
    o.count("operations", 1);
    o.count(
        match &res {
            Out::Ok(()) => "accepted",
            Out::Err(_) => "rejected",
            Out::Panic(_) => "panicked",
        },
        1,
    );
    let total = input.len() + side_before.len();
    o.max("max_memory", peak);
    let d = |s: &str| format!("{what}: {s}; password {}; input {}", brief(key), hex(&input[..input.len().min(600)]));
    match &res {
        Out::Panic(p) if p.contains(RUNAWAY) => o.viol("runaway", d("the operation does not come to an end")),
        Out::Panic(p) => o.viol("panic", d(&format!("panicked: {p}"))),
        _ => {}
    }
    if peak > (10 << 20) + 8 * total as u64 {
        o.viol("memory", d(&format!("took {peak} bytes of memory for {total} bytes of input")));
    }
    let grown = file.data().len().saturating_sub(input.len()) + side.data().len().saturating_sub(side_before.len());
    if grown > 416 || out.data().len() > total + 416 {
        o.viol("output", d(&format!("wrote {} bytes more than it was given", grown.max(out.data().len()))));
    }
    let hostile_header = !matches!(op, 3 | 11);
    if hostile_header {
        if let Some(why) = why {
            o.count("malformed_headers", 1);
            if res.ok() {
                o.viol("accepted", d(&format!("accepted although it has: {why}")));
            }
            if file.data() != input || side.data() != side_before || !out.data().is_empty() {
                o.viol("rejected-but-acted", d(&format!("something was written although the header has: {why}")));
            }
        }
    }
    if op == 3 && input.len() < 16 && res.ok() {
        o.viol("accepted", d("a body too short to hold a tag was accepted"));
    }
    if surely_bad && matches!(op, 1..=7) && res.ok() {
        o.viol("accepted", d("accepted although no password belongs to it"));
    }
}

/// Every tag combination, every truncation, every keyslot type.
fn matrix(o: &mut Obs) {
    let mut n = 0usize;
    let g = good(&mut o.rng);
    let mut turn = |o: &mut Obs, b: Vec<u8>, origin: String, all: bool| {
        n += 1;
        if !o.mine(n) {
            return;
        }
        o.eval(&b, true);
        let few = [0, 1 + n % 10];
        for op in 0..OPS.len() {
            if all || few.contains(&op) {
                attempt(o, op, &b, b"password", &g, &origin, false);
            }
        }
    };
    // versions 1 to 5, made well
    for ver in 1..=5u8 {
        for alg in ALGS {
            for memory in [false, true] {
                let kdf = match ver {
                    1 => Kdf::Argon(1),
                    2 => Kdf::Argon(2),
                    3 => Kdf::Argon(3),
                    4 => Kdf::Balloon(4),
                    _ => Kdf::Balloon(5),
                };
                let m = refimpl::make(&mut o.rng.fork(), ver, alg, memory, &[(0, kdf, b"password".to_vec())], b"some content");
                let full = [&m.header[..], &m.body].concat();
                // cut anywhere
                for cut in 0..=full.len() {
                    turn(o, full[..cut].to_vec(), format!("a V{ver} file cut to {cut} bytes"), cut < 8 || cut % 16 == 0);
                }
                // each tag byte with each value
                for at in 0..6 {
                    for v in 0..=255u8 {
                        if full[at] == v || (alg != Alg::X && v % 8 > 4) {
                            continue;
                        }
                        let mut b = full.clone();
                        b[at] = v;
                        turn(o, b, format!("a V{ver} file with tag byte {at} = {v:#04x}"), v < 8 || v == 0xFF);
                    }
                }
            }
        }
    }
    // keyslot types
    for slot in 0..4 {
        for alg in ALGS {
            let m = refimpl::make(&mut o.rng.fork(), 5, alg, false, &[(slot, Kdf::Argon(3), b"password".to_vec())], b"some content");
            let full = [&m.header[..], &m.body].concat();
            for other in 0..4 {
                for v in 0..=255u8 {
                    for first in [0xDFu8, 0x00, 0xDE, 0xFF] {
                        if first != 0xDF && v % 37 != 0 {
                            continue;
                        }
                        let mut b = full.clone();
                        b[32 + 96 * other] = first;
                        b[33 + 96 * other] = v;
                        turn(o, b, format!("a V5 file with keyslot {other} of type {first:02x}{v:02x}"), false);
                    }
                }
            }
        }
    }
    // all kinds of full and empty slots at once
    for bits in 0..16u8 {
        for fill in [0u8, 0xFF] {
            let mut b = vec![fill; 600];
            b[..6].copy_from_slice(&[0xDE, 5, 0x0E, 1, 0x0C, 1]);
            for i in 0..4 {
                if bits >> i & 1 == 1 {
                    b[32 + 96 * i..34 + 96 * i].copy_from_slice(&[0xDF, 0xA3]);
                }
            }
            turn(o, b, format!("a V5 header with slots {bits:04b} of {fill:#04x}"), true);
        }
    }
}

/// Changes bytes the way damaged or hostile files are changed.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, anchors: &[usize]) {
    let n = r.range(1, 4);
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.u64() as u8);
            continue;
        }
        let at = if !anchors.is_empty() && r.chance(2, 3) {
            (*r.pick(anchors)).min(b.len() - 1)
        } else {
            r.below(b.len())
        };
        match r.below(10) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0xDE, 0xDF, 0x0E, 0x0C]),
            2 => {
                let n = r.range(1, 200).min(b.len() - at);
                b.drain(at..at + n);
            }
            3 => {
                let n = r.range(1, 200);
                let x = r.bytes(n);
                b.splice(at..at, x);
            }
            4 => b.truncate(at),
            5 => {
                let n = r.range(1, 500).min(b.len() - at);
                let x = b[at..at + n].to_vec();
                let to = r.below(b.len());
                b.splice(to..to, x);
            }
            6 => {
                let n = r.range(1, 64).min(b.len() - at);
                let v = *r.pick(&[0u8, 0xFF]);
                b[at..at + n].fill(v);
            }
            7 => {
                let n = r.range(1, 16).min(b.len() - at);
                r.fill(&mut b[at..at + n]);
            }
            8 => {
                let n = r.range(1, 2000);
                b.extend(r.bytes(n));
            }
            _ => {
                // an integer of the size fields archives have
                let v = *r.pick(&[0u64, 1, 0xFFFF, 0xFFFF_FFFF, u64::MAX, 0x7FFF_FFFF, 0x8000_0000, 1 << 40]);
                let n = (*r.pick(&[1usize, 2, 4, 8])).min(b.len() - at);
                b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
}

pub fn fuzz(o: &mut Obs) {
    let g = good(&mut o.rng);
    let r = &mut o.rng;
    let key = gen::password(r);
    let (b, origin, bad) = match r.below(6) {
        0 => {
            let n = r.below(1000);
            (r.bytes(n), "random bytes".to_string(), true)
        }
        1 => {
            // random bytes behind a right beginning
            let n = r.range(6, 1200);
            let mut b = r.bytes(n);
            let tag = [0xDE, r.range(1, 5) as u8, 0x0E, r.range(1, 3) as u8, 0x0C, r.range(1, 2) as u8];
            b[..6].copy_from_slice(&tag);
            for i in 0..4 {
                if b.len() > 34 + 96 * i && r.chance(3, 4) {
                    b[32 + 96 * i] = 0xDF;
                    b[33 + 96 * i] = *r.pick(&[0xA1, 0xA2, 0xA3, 0xB4, 0xB5]);
                }
            }
            (b, "random bytes behind a right tag".to_string(), true)
        }
        _ => {
            let ver = r.range(1, 5) as u8;
            let slots: Vec<(usize, Kdf, Vec<u8>)> = match ver {
                1 => vec![(0, Kdf::Argon(1), key.clone())],
                2 => vec![(0, Kdf::Argon(2), key.clone())],
                3 => vec![(0, Kdf::Argon(3), key.clone())],
                4 => vec![(0, Kdf::Balloon(4), key.clone())],
                _ => {
                    let mut s = vec![];
                    for i in 0..4 {
                        if r.chance(1, 2) || (i == 3 && s.is_empty()) {
                            s.push((i, gen::kdf(r), key.clone()));
                        }
                    }
                    s
                }
            };
            let len = if r.chance(1, 40) { gen::length(r, 2) } else { r.below(400) };
            let memory = r.chance(1, 4);
            let pt = gen::content(r, len);
            let alg = gen::alg(r);
            let m = refimpl::make(r, ver, alg, memory, &slots, &pt);
            let mut b = [&m.header[..], &m.body].concat();
            let h = m.header.len();
            let mut anchors = vec![0, 1, 2, 3, 4, 5, 6, 22, 31, 32, h - 1, h, b.len() - 1, b.len().saturating_sub(17)];
            if ver == 5 {
                for i in 0..4 {
                    anchors.extend([32 + 96 * i, 33 + 96 * i, 34 + 96 * i, 81 + 96 * i, 127 + 96 * i]);
                }
            }
            if b.len() > BLOCK {
                anchors.push(h + BLOCK + 16);
            }
            mutate(r, &mut b, &anchors);
            (b, format!("a damaged V{ver} file"), false)
        }
    };
    let key = match o.rng.below(12) {
        0 => vec![],
        1 => o.rng.bytes(1 << 20),
        2 => gen::password(&mut o.rng),
        _ => key,
    };
    o.eval(&b, true);
    o.sample(|| format!("{origin}: {}", brief(&b)));
    let bad = bad && b.len() > 64;
    for op in 0..OPS.len() {
        attempt(o, op, &b, &key, &g, &origin, bad);
    }
}

// ---------------------------------------------------------------------------------------------
// archives

pub struct Arc {
    pub zip: Vec<u8>,
    what: String,
    /// must not be reported as success
    bad: bool,
}

fn file(n: &str, d: &[u8]) -> ZEntry {
    ZEntry::new(n, d)
}
fn dir(n: &str) -> ZEntry {
    ZEntry {
        mode: 0o40755,
        ..ZEntry::new(n, b"")
    }
}
fn zstd_entry(r: &mut Rng) -> (Vec<u8>, usize) {
    // an archive with one compressed entry; where its data begins
    let n = r.range(1, 4000);
    let d = gen::content(r, n);
    let mut t = trace::Tree::new();
    t.insert("z".into(), trace::Node::File(d));
    let z = arch::zip_of(&t, true);
    let at = 30 + u16::from_le_bytes([z[26], z[27]]) as usize + u16::from_le_bytes([z[28], z[29]]) as usize;
    (z, at)
}

pub fn systematic(r: &mut Rng) -> Vec<Arc> {
    let mut v = vec![];
    let mut a = |what: &str, bad: bool, zip: Vec<u8>| {
        v.push(Arc {
            zip,
            what: what.to_string(),
            bad,
        });
    };
    let ok = [file("a", b"one"), dir("d/"), file("d/b", b"two"), file("d/c", &[7; 3000])];
    let z = arch::zip_write(&ok);
    a("nothing", true, vec![]);
    a("one byte", true, vec![b'P']);
    a("text", true, b"this is not an archive at all".to_vec());
    a("zeros", true, vec![0; 500]);
    a("a local header only", true, z[..60].to_vec());
    a("only the end record", false, z[z.len() - 22..].to_vec());
    a("empty archive", false, arch::zip_write(&[]));
    a("as it should be", false, z.clone());
    for cut in (1..z.len()).step_by(7) {
        a(&format!("cut to {cut} bytes"), true, z[..cut].to_vec());
    }
    for cut in z.len() - 30..z.len() {
        a(&format!("cut to {cut} bytes"), true, z[..cut].to_vec());
    }
    // contents that do not match their checksum
    for i in [0, 2, 3] {
        let mut e = ok.to_vec();
        e[i].crc = Some(arch::crc32(&e[i].data) ^ 1);
        a(&format!("wrong checksum of entry {i}"), true, arch::zip_write(&e));
    }
    {
        let mut e = ok.to_vec();
        e.push(ZEntry {
            crc: Some(5),
            ..file("empty", b"")
        });
        a("wrong checksum of an empty entry", false, arch::zip_write(&e));
    }
    for m in [1u16, 6, 8, 9, 12, 14, 19, 95, 96, 98, 99, 1000, 65535] {
        let mut e = ok.to_vec();
        e[3].method = m;
        a(&format!("compression method {m}"), true, arch::zip_write(&e));
    }
    {
        let mut e = ok.to_vec();
        e[3].method = 93;
        a("garbage as compressed data", true, arch::zip_write(&e));
    }
    for f in [1u16, 0x41, 0x2001] {
        let mut e = ok.to_vec();
        e[3].flags = f;
        a(&format!("encrypted entry, flags {f:#x}"), true, arch::zip_write(&e));
    }
    for (c, u) in [(0u32, 0u32), (0, 3000), (3000, 0), (5000, 5000), (u32::MAX, u32::MAX), (u32::MAX - 1, u32::MAX - 1), (1, 1), (3001, 3001), (2999, 2999), (3000, u32::MAX)] {
        let mut e = ok.to_vec();
        e[3].sizes = Some((c, u));
        a(&format!("sizes {c} and {u} for 3000 bytes"), false, arch::zip_write(&e));
    }
    for n in ["", "/", "//", ".", "..", "../", "\0", "a\0b", "d/", "x//y", "./z", "a/", "a/under", "\\", "c:", " ", "-", "~", "\u{202e}gnp", "con", "d"] {
        for mode in [0o100_644, 0o40755, 0o120_777, 0o010_644, 0o060_000, 0] {
            let mut e = ok.to_vec();
            e.push(ZEntry {
                mode,
                ..ZEntry::new(n, b"strange")
            });
            a(&format!("entry named {n:?} of mode {mode:o}"), false, arch::zip_write(&e));
        }
    }
    for n in [&b"\xFF\xFE"[..], b"\x80", b"a\xC3", &[b'x'; 256], &[b'y'; 5000], &[b'/'; 300], &b"p/".repeat(3000)] {
        for utf8 in [false, true] {
            let mut e = ok.to_vec();
            e.push(ZEntry {
                utf8,
                ..ZEntry::new(n, b"strange")
            });
            a(&format!("entry named {}", brief(n)), false, arch::zip_write(&e));
        }
    }
    // one name for two things that cannot both be there
    a("a file and a directory of one name", true, arch::zip_write(&[file("x", b"file"), dir("x/"), file("x/y", b"in it")]));
    a("a file below a file", true, arch::zip_write(&[file("x", b"file"), file("x/y", b"below")]));
    a("an entry twice", false, arch::zip_write(&[file("x", b"file"), file("x", b"again")]));
    a("a directory twice", false, arch::zip_write(&[dir("x/"), dir("x/")]));
    a("a link and an entry through it", false, arch::zip_write(&[ZEntry { mode: 0o120_777, ..file("l", b"d") }, file("l/x", b"through")]));
    // extra fields
    for x in [
        vec![1, 0],
        vec![1, 0, 8, 0],
        vec![1, 0, 0xFF, 0xFF, 1, 2, 3],
        [&[1, 0, 24, 0][..], &[0xFF; 24]].concat(),
        [&[1, 0, 24, 0][..], &[0; 24]].concat(),
        vec![0x75, 0x70, 1, 0, 1],
        vec![0x75, 0x70, 5, 0, 1, 0, 0, 0, 0],
        vec![0x75, 0x70, 0, 0],
        vec![0x63, 0x75, 9, 0, 1],
        vec![0x55, 0x54, 1, 0, 1],
        vec![0x55, 0x54, 5, 0, 7, 1, 2, 3, 4],
        vec![0x55, 0x54, 0, 0],
        vec![0x01, 0x99, 7, 0, 2, 0, b'A', b'E', 3, 93, 0],
        vec![0x01, 0x99, 1, 0, 2],
        [&[0xFE, 0xCA, 0xFF, 0xFF][..], &[1; 100]].concat(),
        vec![9; 3],
        vec![0; 65535],
    ] {
        let mut e = ok.to_vec();
        e[3].extra = x.clone();
        a(&format!("extra field {}", brief(&x)), false, arch::zip_write(&e));
        e[3].sizes = Some((u32::MAX, u32::MAX));
        a(&format!("extra field {} with sizes in it", brief(&x)), false, arch::zip_write(&e));
    }
    // the end record
    let end = z.len() - 22;
    for (at, n) in [(4, 2), (6, 2), (8, 2), (10, 2), (12, 4), (16, 4), (20, 2)] {
        for val in [0u32, 1, 2, 5, 100, 0x7FFF, 0xFFFF, 0x7FFF_FFFF, 0xFFFF_FFFF, z.len() as u32, z.len() as u32 - 22] {
            let mut b = z.clone();
            b[end + at..end + at + n].copy_from_slice(&val.to_le_bytes()[..n]);
            a(&format!("end record field at {at} = {val}"), false, b);
        }
    }
    // zip64 end records of all sorts
    for (count, size, off) in [(4u64, 0u64, 0u64), (u64::MAX, u64::MAX, u64::MAX), (1 << 40, 100, 0), (4, u64::MAX, 10), (4, 10, u64::MAX - 5), (0, 0, 0)] {
        for loc in [0u64, end as u64, u64::MAX, end as u64 + 1] {
            let mut b = z[..end].to_vec();
            b.extend_from_slice(&0x0606_4b50u32.to_le_bytes());
            b.extend_from_slice(&44u64.to_le_bytes());
            b.extend_from_slice(&[45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            for x in [count, count, size, off] {
                b.extend_from_slice(&x.to_le_bytes());
            }
            b.extend_from_slice(&0x0706_4b50u32.to_le_bytes());
            b.extend_from_slice(&[0; 4]);
            b.extend_from_slice(&loc.to_le_bytes());
            b.extend_from_slice(&[1, 0, 0, 0]);
            let mut e = z[end..].to_vec();
            e[8..20].fill(0xFF);
            b.extend_from_slice(&e);
            a(&format!("zip64 end record {count}/{size}/{off} at {loc}"), false, b);
        }
    }
    // the central entries
    let central = u32::from_le_bytes(z[end + 16..end + 20].try_into().unwrap()) as usize;
    for at in 0..46 {
        for val in [0u8, 0xFF, 0x80] {
            let mut b = z.clone();
            b[central + at] = val;
            a(&format!("central entry byte {at} = {val:#x}"), false, b);
        }
    }
    for at in 0..30 {
        for val in [0u8, 0xFF] {
            let mut b = z.clone();
            b[at] = val;
            a(&format!("local entry byte {at} = {val:#x}"), false, b);
        }
    }
    // compressed data
    for i in 0..40 {
        let (mut b, at) = zstd_entry(r);
        let x = at + if i < 12 { i } else { r.below(200) };
        if x < b.len() {
            b[x] ^= 1 << r.below(8);
        }
        a(&format!("compressed data changed at byte {}", x - at), false, b);
    }
    v
}

pub fn random_archive(r: &mut Rng) -> Arc {
    let z = match r.below(3) {
        0 => {
            let t = arch::small_tree(r);
            arch::zip_of(&t, r.chance(1, 2))
        }
        1 => {
            let names = arch::hostile_names(r, std::path::Path::new("/tmp/vmon-nowhere"));
            let n = r.range(1, 6);
            let es: Vec<ZEntry> = (0..n)
                .map(|_| {
                    let len = r.below(300);
                    let mut e = ZEntry::new(r.pick(&names), &r.bytes(len));
                    e.mode = *r.pick(&[0o100_644, 0o40755, 0o120_777, 0]);
                    if r.chance(1, 5) {
                        e.method = *r.pick(&[8, 93, 99]);
                    }
                    if r.chance(1, 5) {
                        let n = r.below(60);
                        e.extra = r.bytes(n);
                    }
                    e
                })
                .collect();
            arch::zip_write(&es)
        }
        _ => zstd_entry(r).0,
    };
    let mut b = z;
    let end = b.len().saturating_sub(22);
    let central = if b.len() > 22 { u32::from_le_bytes(b[end + 16..end + 20].try_into().unwrap()) as usize } else { 0 };
    let mut anchors: Vec<usize> = (end..b.len()).collect();
    anchors.extend(central..(central + 46).min(b.len()));
    anchors.extend(0..30);
    mutate(r, &mut b, &anchors);
    Arc {
        zip: b,
        what: "a damaged archive".into(),
        bad: false,
    }
}

const PASS: &[u8] = b"key";

/// Unpacks a batch of archives in one child and judges each.
fn batch(o: &mut Obs, sc: &Scratch, v: &[Arc]) {
    sc.reset();
    let mut args: Vec<String> = vec!["unpack_many".into(), hex(PASS)];
    for (i, a) in v.iter().enumerate() {
        let m = refimpl::make(&mut o.rng, 5, Alg::X, false, &[(0, Kdf::Argon(3), PASS.to_vec())], &a.zip);
        sc.put(&format!("in{i}"), &[m.header, m.body].concat());
        args.push(i.to_string());
    }
    sc.own();
    let c = Cmd::drive(&args).traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").env("VT_JAIL", &sc.top).env("VMON_LIMIT", "1");
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    let text = String::from_utf8_lossy(&res.stdout).into_owned();
    let mut last = None;
    for l in text.lines() {
        let mut it = l.splitn(4, ' ');
        let (Some(i), Some(mem), Some(st)) = (it.next().and_then(|x| x.parse::<usize>().ok()), it.next().and_then(|x| x.parse::<u64>().ok()), it.next()) else {
            continue;
        };
        let Some(a) = v.get(i) else { continue };
        last = Some(i);
        o.eval(&a.zip, true);
        o.count("archives", 1);
        o.max("max_memory", mem);
        o.count(if st == "OK" { "archives_unpacked" } else { "archives_refused" }, 1);
        let d = |s: &str| format!("archive: {}; {s}; {l}; {}", a.what, hex(&a.zip[..a.zip.len().min(1500)]));
        if st == "PANIC" {
            o.viol("panic", d("unpacking panicked"));
        }
        if a.bad && st == "OK" {
            o.viol("accepted", d("unpacking reported success"));
        }
        if mem > (64 << 20) + 30 * a.zip.len() as u64 {
            o.viol("memory", d(&format!("took {mem} bytes of memory")));
        }
    }
    if res.code != Some(0) || last != Some(v.len() - 1) {
        let next = last.map_or(0, |x| x + 1);
        if res.signal == Some(libc::SIGKILL) && !res.timed_out {
            o.inconclusive(format!("the unpacking process was killed; {}", res.text()));
            return;
        }
        let a = v.get(next).map(|a| format!("{}: {}", a.what, hex(&a.zip[..a.zip.len().min(1500)]))).unwrap_or_default();
        o.viol(
            if res.timed_out { "hang" } else { "crash" },
            format!("unpacking an archive ended the process: {}; archive: {a}", res.text()),
        );
    }
}

/// The child: each archive on its own.
pub fn unpack_many(key: &[u8], ids: &[&str]) -> i32 {
    use std::io::Write;
    use std::sync::Arc;
    if std::env::var_os("VMON_LIMIT").is_some() {
        unsafe {
            let l = libc::rlimit {
                rlim_cur: 512 << 20,
                rlim_max: 512 << 20,
            };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            if std::env::var("VMON_LIMIT").is_ok_and(|x| x != "files") {
                let l = libc::rlimit {
                    rlim_cur: 64 << 30,
                    rlim_max: 64 << 30,
                };
                libc::setrlimit(libc::RLIMIT_AS, &l);
            }
        }
    }
    for i in ids {
        let run = || {
            let r = std::cell::RefCell::new(std::fs::File::open(format!("in{i}")).unwrap());
            guard(|| {
                tools::unpack::execute(
                    Arc::new(tools::storage::FileStorage),
                    tools::unpack::Request {
                        reader: &r,
                        header_reader: None,
                        raw_key: prot(key),
                        output_dir_path: format!("out{i}").into(),
                        on_decrypted_header: None,
                        on_archive_info: None,
                        on_zip_file: None,
                    },
                )
            })
        };
        let (res, mem) = mem::peak(run);
        let (s, t) = match res {
            Out::Ok(()) => ("OK", String::new()),
            Out::Err(e) => ("ERR", e),
            Out::Panic(p) => ("PANIC", p),
        };
        println!("{i} {mem} {s} {}", t.replace('\n', " "));
        let _ = std::io::stdout().flush();
    }
    0
}

/// The program itself on damaged files.
fn program(o: &mut Obs, sc: &Scratch) {
    sc.reset();
    let r = &mut o.rng;
    let mut b;
    let what;
    if r.chance(1, 2) {
        let a = random_archive(r);
        let m = refimpl::make(r, 5, Alg::A, false, &[(0, Kdf::Balloon(5), PASS.to_vec())], &a.zip);
        b = [m.header, m.body].concat();
        what = a.what;
    } else {
        let n = r.below(500);
        let pt = r.bytes(n);
        let ver = r.range(3, 5) as u8;
        let kdf = [Kdf::Argon(3), Kdf::Balloon(4), Kdf::Balloon(5)][ver as usize - 3];
        let alg = gen::alg(r);
    let m = refimpl::make(r, ver, alg, false, &[(0, kdf, PASS.to_vec())], &pt);
        b = [m.header, m.body].concat();
        let anchors: Vec<usize> = (0..6).chain(32..36).collect();
        mutate(r, &mut b, &anchors);
        what = format!("a damaged V{ver} file");
    }
    let g = good(r);
    sc.put("in", &b);
    sc.put("good.hdr", &g.header);
    sc.put("good.body", &g.body);
    sc.own();
    let args: Vec<&str> = match r.below(5) {
        0 => vec!["decrypt", "-f", "in", "out"],
        1 => vec!["decrypt", "-f", "--header", "in", "good.body", "out"],
        2 => vec!["decrypt", "-f", "--header", "good.hdr", "in", "out"],
        3 => vec!["unpack", "-f", "--header", "in", "good.body", "out"],
        _ => vec!["unpack", "-f", "in", "out"],
    };
    let c = Cmd::cli(&args).traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").env("VT_JAIL", &sc.top).env("VOLARIS_KEY", "key");
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&(b.clone(), args.clone()), true);
    o.count("program_runs", 1);
    let d = |s: &str| format!("{what}, {}: {s}; {}; {}", c.text(), res.text(), hex(&b[..b.len().min(1500)]));
    if res.crashed() {
        o.viol("crash", d("crashed"));
    }
    if !args.contains(&"good.hdr") && must_reject(&b).is_some() && res.ok() {
        o.viol("accepted", d(&format!("success although the header has: {}", must_reject(&b).unwrap_or(""))));
    }
}

/// Archives of very many entries.
fn crowded(o: &mut Obs, sc: &Scratch, n: usize) {
    let dirs: Vec<ZEntry> = (0..n).map(|i| dir(&format!("{}/", i % 50_000))).collect();
    let files: Vec<ZEntry> = (0..n / 4).map(|i| file(&format!("{}", i % 50_000), b"x")).collect();
    let v = [
        Arc {
            zip: arch::zip_write(&dirs[..dirs.len().min(65_535)]),
            what: format!("{n} directories"),
            bad: false,
        },
        Arc {
            zip: arch::zip_write(&files),
            what: format!("{} files", n / 4),
            bad: false,
        },
    ];
    batch(o, sc, &v);
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "Hostile headers (every tag value, every truncation, every keyslot type, then seeded mutations and random bytes) go through every library operation \
        with monitored streams, memory and time; malformed archives, correctly encrypted, are unpacked in monitored children; the program is run on damaged files. \
        Non-trivial: distinct byte strings."
        .into();
    ctx.min_evals = 5000;
    ctx.need("malformed_headers", 5000);
    ctx.need("archives", 400);
    ctx.need("archives_unpacked", 50);
    ctx.need("archives_refused", 100);
    ctx.need("program_runs", 100);
    ctx.need("accepted", 500);
    ctx.assumptions.push("An operation that has not ended after 150 s on an input of a few MiB is taken to hang.".into());
    ctx.assumptions.push("Very large archives (many GiB, or compression bombs) are not generated.".into());
    ctx.par(1, ctx.pick(60, 300), matrix);
    let secs = ctx.pick(4, 400);
    ctx.par(2, secs, |o| {
        while o.time_left() {
            fuzz(o);
        }
    });
    let secs = ctx.pick(5, 300);
    let many = ctx.pick(40_000, 65_000);
    ctx.par(3, secs, |o| {
        let sc = Scratch::new();
        let all = systematic(&mut o.rng.clone());
        let mine: Vec<Arc> = all.into_iter().enumerate().filter(|(i, _)| i % o.workers == o.worker).map(|(_, a)| a).collect();
        for c in mine.chunks(25) {
            batch(o, &sc, c);
        }
        if o.worker == 0 {
            crowded(o, &sc, many);
        }
        while o.time_left() {
            let v: Vec<Arc> = (0..25).map(|_| random_archive(&mut o.rng)).collect();
            o.sample(|| format!("{}: {}", v[0].what, brief(&v[0].zip)));
            batch(o, &sc, &v);
            for _ in 0..6 {
                program(o, &sc);
            }
        }
    });
}
