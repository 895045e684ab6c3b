//! Archives: helpers, C17 (round trip of trees) and C18 (nothing outside the output directory).
use crate::drive::{alg_name, kdf_name};
use crate::gen;
use crate::ops::*;
use crate::refimpl::{self, BLOCK};
use crate::trace::{self, Cmd, Node, Scratch, Tree};
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::{Component, Path, PathBuf};

// ---------------------------------------------------------------------------------------------
// an independent writer of archives, that can also write strange ones

pub fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

#[derive(Clone, Debug)]
pub struct ZEntry {
    pub name: Vec<u8>,
    /// the name in the local header, if another one
    pub local: Option<Vec<u8>>,
    pub data: Vec<u8>,
    pub mode: u32,
    pub extra: Vec<u8>,
    pub utf8: bool,
    pub method: u16,
    pub flags: u16,
    pub crc: Option<u32>,
    pub sizes: Option<(u32, u32)>,
    /// made by: 3 is Unix, 0 DOS
    pub host: u8,
}
impl ZEntry {
    pub fn new(name: impl AsRef<[u8]>, data: &[u8]) -> ZEntry {
        ZEntry {
            name: name.as_ref().to_vec(),
            local: None,
            data: data.to_vec(),
            mode: 0o100_644,
            extra: vec![],
            utf8: true,
            method: 0,
            flags: 0,
            crc: None,
            sizes: None,
            host: 3,
        }
    }
}

pub fn zip_write(entries: &[ZEntry]) -> Vec<u8> {
    let mut out = vec![];
    let mut central = vec![];
    let p2 = |v: &mut Vec<u8>, n: u16| v.extend_from_slice(&n.to_le_bytes());
    let p4 = |v: &mut Vec<u8>, n: u32| v.extend_from_slice(&n.to_le_bytes());
    for e in entries {
        let off = out.len() as u32;
        let flags = e.flags | if e.utf8 { 0x800 } else { 0 };
        let crc = e.crc.unwrap_or_else(|| crc32(&e.data));
        let (cs, us) = e.sizes.unwrap_or((e.data.len() as u32, e.data.len() as u32));
        let ln = e.local.as_ref().unwrap_or(&e.name);
        p4(&mut out, 0x0403_4b50);
        p2(&mut out, 20);
        p2(&mut out, flags);
        p2(&mut out, e.method);
        p2(&mut out, 0);
        p2(&mut out, 0x21);
        p4(&mut out, crc);
        p4(&mut out, cs);
        p4(&mut out, us);
        p2(&mut out, ln.len() as u16);
        p2(&mut out, e.extra.len() as u16);
        out.extend_from_slice(ln);
        out.extend_from_slice(&e.extra);
        out.extend_from_slice(&e.data);
        let c = &mut central;
        p4(c, 0x0201_4b50);
        p2(c, 20 | (u16::from(e.host) << 8));
        p2(c, 20);
        p2(c, flags);
        p2(c, e.method);
        p2(c, 0);
        p2(c, 0x21);
        p4(c, crc);
        p4(c, cs);
        p4(c, us);
        p2(c, e.name.len() as u16);
        p2(c, e.extra.len() as u16);
        p2(c, 0);
        p2(c, 0);
        p2(c, 0);
        p4(c, e.mode << 16);
        p4(c, off);
        c.extend_from_slice(&e.name);
        c.extend_from_slice(&e.extra);
    }
    let at = out.len() as u32;
    out.extend_from_slice(&central);
    p4(&mut out, 0x0605_4b50);
    p2(&mut out, 0);
    p2(&mut out, 0);
    p2(&mut out, entries.len() as u16);
    p2(&mut out, entries.len() as u16);
    p4(&mut out, central.len() as u32);
    p4(&mut out, at);
    p2(&mut out, 0);
    out
}

/// An archive of the tree; compressed ones come from the archive library.
pub fn zip_of(t: &Tree, zstd: bool) -> Vec<u8> {
    use std::io::Write;
    if !zstd {
        let v: Vec<ZEntry> = t
            .iter()
            .map(|(p, n)| match n {
                Node::File(d) => ZEntry::new(p.to_str().unwrap(), d),
                _ => ZEntry {
                    mode: 0o40755,
                    ..ZEntry::new(format!("{}/", p.to_str().unwrap()), b"")
                },
            })
            .collect();
        return zip_write(&v);
    }
    let mut w = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let o: zip::write::FileOptions<'_, ()> = zip::write::FileOptions::default().compression_method(zip::CompressionMethod::Zstd);
    for (p, n) in t {
        match n {
            Node::File(d) => {
                w.start_file(p.to_str().unwrap(), o).unwrap();
                w.write_all(d).unwrap();
            }
            _ => w.add_directory(format!("{}/", p.to_str().unwrap()), o).unwrap(),
        }
    }
    w.finish().unwrap().into_inner()
}

/// What an archive holds.
pub fn zip_read(z: &[u8]) -> Result<Tree, String> {
    let mut a = zip::ZipArchive::new(std::io::Cursor::new(z)).map_err(|e| format!("not an archive: {e}"))?;
    let mut t = Tree::new();
    for i in 0..a.len() {
        let mut f = a.by_index(i).map_err(|e| format!("entry {i}: {e}"))?;
        let name = f.name().to_string();
        let mut d = vec![];
        f.read_to_end(&mut d).map_err(|e| format!("entry {name:?}: {e}"))?;
        let dir = name.ends_with('/');
        let key = PathBuf::from(name.trim_end_matches('/'));
        if t.insert(key, if dir { Node::Dir } else { Node::File(d) }).is_some() {
            return Err(format!("entry {name:?} is there twice"));
        }
    }
    Ok(t)
}

/// Adds all directories above the entries.
pub fn with_parents(t: &Tree) -> Tree {
    let mut r = t.clone();
    for p in t.keys() {
        let mut a = p.as_path();
        while let Some(b) = a.parent() {
            if b.as_os_str().is_empty() {
                break;
            }
            r.entry(b.to_path_buf()).or_insert(Node::Dir);
            a = b;
        }
    }
    r
}
pub fn prefixed(t: &Tree, prefix: &Path) -> Tree {
    let mut r: Tree = t.iter().map(|(p, n)| (prefix.join(p), n.clone())).collect();
    if !prefix.as_os_str().is_empty() {
        r.insert(prefix.to_path_buf(), Node::Dir);
    }
    r
}
pub fn zip_equals(z: &[u8], t: &Tree, prefix: &str) -> Result<(), String> {
    let got = with_parents(&zip_read(z)?);
    let d = trace::diff(&with_parents(&prefixed(t, Path::new(prefix))), &got);
    if d.is_empty() {
        Ok(())
    } else {
        Err(format!("the archive differs: {}", d[..d.len().min(4)].join("; ")))
    }
}
pub fn tree_equals(dir: &Path, t: &Tree) -> Result<(), String> {
    let d = trace::diff(&with_parents(t), &trace::snapshot(dir));
    if d.is_empty() {
        Ok(())
    } else {
        Err(format!("the directory differs: {}", d[..d.len().min(4)].join("; ")))
    }
}
pub fn write_tree(dir: &Path, t: &Tree) {
    std::fs::create_dir_all(dir).unwrap();
    for (p, n) in t {
        let p = dir.join(p);
        match n {
            Node::Dir => std::fs::create_dir_all(&p).unwrap(),
            Node::File(d) => {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, d).unwrap();
            }
            Node::Link(l) => {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::os::unix::fs::symlink(l, &p).unwrap();
            }
            Node::Other => {}
        }
    }
}

pub fn name(r: &mut Rng) -> String {
    match r.below(18) {
        14 => format!("{}~", r.below(50)),
        15 => {
            let n = *r.pick(&["#o#", "x.bak", "x.tmp", "x.swp", "Thumbs.db", ".DS_Store", ".git", "lost+found", "x.enc", "*", "?", "%20", "~", "0", "nul", "a:b", "a|b", " ", "\t", "x "]);
            n.into()
        }
        12 => format!("b{}\\c", r.below(10)),
        13 => (*r.pick(&["e\\", "\\f", "..\\g", "h\\..", "C:\\i", "j\\.\\k", "\\"])).into(),
        0 => format!(".{}", r.below(1000)),
        1 => format!("..{}", r.below(100)),
        2 => "...".into(),
        3 => format!("with space {}", r.below(100)),
        4 => format!("ünï-{}-文", r.below(100)),
        5 => format!("{}.", r.below(100)),
        6 => format!("a{}~$&;'\"", r.below(10)),
        7 => "n".repeat(r.range(100, 250)),
        8 => format!("-{}", r.below(10)),
        9 => format!("C:{}", r.below(10)),
        10 => format!("x{}\ny", r.below(10)),
        11 => format!("UPPER{}.Txt", r.below(10)),
        _ => format!("f{}", r.below(1000)),
    }
}

pub fn tree(r: &mut Rng, n: usize, max_len: usize, name: fn(&mut Rng) -> String) -> Tree {
    let mut t = Tree::new();
    let mut dirs = vec![PathBuf::new()];
    for _ in 0..n {
        let d = dirs[r.below(dirs.len())].clone();
        let p = d.join(name(r));
        if t.contains_key(&p) || p.as_os_str().len() > 800 {
            continue;
        }
        if r.chance(2, 5) {
            if p.components().count() < 7 {
                dirs.push(p.clone());
            }
            t.insert(p, Node::Dir);
        } else {
            let len = match r.below(8) {
                0 | 1 => 0,
                2 => r.below(max_len + 1),
                _ => r.below(max_len.min(3000) + 1),
            };
            t.insert(p, Node::File(gen::content(r, len)));
        }
    }
    // deeply nested directories
    if n > 1 && r.chance(1, 5) {
        let mut d = dirs[r.below(dirs.len())].clone();
        let depth = *r.pick(&[9, 17, 26, 33, 34, 66, 70, 130]);
        for i in 0..depth {
            d.push(if i % 7 == 3 { ".h" } else { "n" });
            t.entry(d.clone()).or_insert(Node::Dir);
            if r.chance(1, 12) || i + 1 == depth {
                let len = r.below(max_len.min(3000) + 1);
                t.insert(d.join("bottom"), Node::File(gen::content(r, len)));
            }
        }
    }
    t
}

/// A few files and directories, hidden and empty ones included.
pub fn small_tree(r: &mut Rng) -> Tree {
    let mut t = Tree::new();
    let a = r.range(1, 2000);
    t.insert("a".into(), Node::File(gen::content(r, a)));
    t.insert(".h".into(), Node::File(vec![]));
    t.insert("d".into(), Node::Dir);
    t.insert("d/.e".into(), Node::Dir);
    t.insert("d/g".into(), Node::Dir);
    let a = r.range(1, 9000);
    t.insert("d/g/x y".into(), Node::File(gen::content(r, a)));
    if r.chance(1, 2) {
        t.insert("d/big".into(), Node::File(gen::content(r, BLOCK + 77)));
    }
    t
}

// ---------------------------------------------------------------------------------------------
// C17

fn plain_name(r: &mut Rng) -> String {
    name(r)
}

/// The path under which a directory named like this is restored: leading dots and parents dropped.
fn restored(p: &str) -> PathBuf {
    Path::new(p)
        .components()
        .filter_map(|c| match c {
            Component::Normal(n) => Some(n),
            _ => None,
        })
        .collect()
}

fn c17_case(o: &mut Obs, sc: &Scratch, fixed: Option<usize>, large: Option<usize>) {
    sc.reset();
    let r = &mut o.rng;
    let ndirs = if r.chance(1, 4) { r.range(2, 3) } else { 1 };
    let mut dirs = vec![];
    for i in 0..ndirs {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => {
                let top = *r.pick(&[120, 120, 280]);
                r.range(30, top)
            }
            _ => r.range(2, 15),
        };
        let max = if r.chance(1, 4) { BLOCK + 3000 } else { 20_000 };
        let t = tree(r, n, max, plain_name);
        dirs.push((format!("src{i}"), t));
    }
    if let Some(n) = large {
        let c = if r.chance(1, 2) { r.bytes(n) } else { vec![0; n] };
        dirs[0].1.insert("large".into(), Node::File(c));
    }
    // how the directory is named: (working directory, argument)
    let w = sc.w.display().to_string();
    let style = fixed.unwrap_or_else(|| r.below(9));
    let (cwd, args): (PathBuf, Vec<String>) = match style {
        0 => (sc.w.clone(), dirs.iter().map(|d| d.0.clone()).collect()),
        1 => (sc.w.clone(), dirs.iter().map(|d| format!("./{}", d.0)).collect()),
        2 => (sc.w.join("sub"), dirs.iter().map(|d| format!("../{}", d.0)).collect()),
        3 => (sc.w.clone(), dirs.iter().map(|d| format!("{w}/{}", d.0)).collect()),
        4 => (sc.w.clone(), dirs.iter().map(|d| format!("{}/", d.0)).collect()),
        5 => {
            dirs.truncate(1);
            (sc.w.join("src0"), vec![".".into()])
        }
        6 => {
            dirs.truncate(1);
            (sc.w.join("src0/inner"), vec!["..".into()])
        }
        7 => (sc.w.join("sub/sub2"), dirs.iter().map(|d| format!("../.././{}", d.0)).collect()),
        _ => (sc.w.clone(), dirs.iter().map(|d| format!(".//{}//", d.0)).collect()),
    };
    std::fs::create_dir_all(sc.w.join("sub/sub2")).unwrap();
    for (i, (n, t)) in dirs.iter_mut().enumerate() {
        if style == 6 && i == 0 {
            t.insert("inner".into(), Node::Dir);
        }
        write_tree(&sc.path(n), t);
    }
    let key = hex(&r.bytes(5));
    let (alg, kdf) = (gen::alg(r), gen::kdf(r));
    let zstd = r.chance(1, 2);
    let det = r.chance(1, 3);
    let (pcli, ucli) = (r.chance(1, 2), r.chance(1, 2));
    let outdir = (*r.pick(&["res", "res", "res/deep/er", "sub/res"])).to_string();
    let pre = r.chance(1, 4);
    let mut older = 0;
    let mut want = Tree::new();
    for ((_, t), a) in dirs.iter().zip(&args) {
        let at = if style == 5 || style == 6 { PathBuf::new() } else { restored(a) };
        want.extend(prefixed(t, &at));
    }
    if pre {
        std::fs::create_dir_all(sc.path(&outdir)).unwrap();
        // what an earlier unpacking left: the same files with other content, longer or shorter
        let again: Vec<(PathBuf, usize)> = want.iter().filter_map(|(p, n)| if let Node::File(c) = n { Some((p.clone(), c.len())) } else { None }).collect();
        for (p, len) in again {
            if r.chance(1, 2) {
                let n = *r.pick(&[0, len / 2, len, len + 1, len + 700, 2 * len + 9]);
                let at = sc.path(&outdir).join(p);
                std::fs::create_dir_all(at.parent().unwrap()).unwrap();
                std::fs::write(at, r.bytes(n)).unwrap();
                older += 1;
            }
        }
        // and a file of the user's
        if r.chance(1, 2) {
            std::fs::write(sc.path(&outdir).join("of the user"), b"kept").unwrap();
            want.insert("of the user".into(), Node::File(b"kept".to_vec()));
        }
    }
    // the program may be told to put its output, or the header, into the directory that it packs
    let (mut pat, mut hat) = ("packed".to_string(), "header".to_string());
    let inside = pcli && r.chance(1, 5);
    let mut replaces = false;
    if inside {
        let (n, t) = &dirs[0];
        let ds: Vec<&PathBuf> = t.iter().filter(|x| *x.1 == Node::Dir).map(|x| x.0).collect();
        let d = if ds.is_empty() || r.chance(1, 2) { Path::new(n).to_path_buf() } else { Path::new(n).join(r.pick(&ds)) };
        if d.to_str().is_some_and(|d| d.len() < 600) {
            let at = if det && r.chance(1, 3) { &mut hat } else { &mut pat };
            *at = d.join("made.enc").display().to_string();
            if r.chance(1, 2) {
                replaces = true;
                let c = r.bytes(999);
                sc.put(at, &c);
            }
        }
    }
    sc.own();
    let before = trace::snapshot(&sc.w);
    let (p, h, res) = (format!("{w}/{pat}"), format!("{w}/{hat}"), format!("{w}/{outdir}"));
    let pack = if pcli {
        let mut a = vec!["pack".to_string()];
        a.extend(args.iter().cloned());
        a.push(p.clone());
        if zstd {
            a.push("-z".into());
        }
        if alg == Alg::A {
            a.push("--aes".into());
        }
        if det {
            a.extend(["--header".to_string(), h.clone()]);
        }
        if replaces {
            a.push("-f".into());
        }
        Cmd::cli(&a).env("VOLARIS_KEY", &key)
    } else {
        let mut a = vec![
            "pack".to_string(),
            p.clone(),
            alg_name(alg),
            kdf_name(kdf),
            hex(key.as_bytes()),
            if zstd { "zstd" } else { "stored" }.into(),
            if det { h.clone() } else { "-".into() },
        ];
        a.extend(args.iter().cloned());
        Cmd::drive(&a)
    }
    .cwd(&cwd);
    let unpack = if ucli {
        let mut a = vec!["unpack".to_string(), p.clone(), res.clone()];
        if det {
            a.extend(["--header".to_string(), h.clone()]);
        }
        if pre {
            a.push("-f".into());
        }
        Cmd::cli(&a).env("VOLARIS_KEY", &key)
    } else {
        Cmd::drive(&["unpack", &p, &res, &hex(key.as_bytes()), if det { &h } else { "-" }])
    };
    let names: Vec<String> = dirs.iter().map(|d| format!("{} entries", d.1.len())).collect();
    let d = |s: &str| format!("{} in {} ({names:?}); {}: {s}", pack.text(), cwd.display(), unpack.text());
    o.eval(&(hash_of(&format!("{dirs:?}")), style, zstd, det, pcli, ucli), dirs.iter().any(|d| !d.1.is_empty()));
    o.count(&format!("naming_{style}"), 1);
    o.max("max_file", large.unwrap_or(0) as u64);
    o.count("unpacked_over_older_files", older);
    o.count("output_inside_of_the_source", u64::from(pat != "packed" || hat != "header"));
    o.count(if zstd { "compressed" } else { "stored" }, 1);
    o.count("entries", dirs.iter().map(|d| d.1.len() as u64).sum());
    let (r1, r2) = match (pack.run(sc), unpack.run(sc)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return o.inconclusive(e),
    };
    if !r1.ok() {
        return o.viol("pack-fails", d(&r1.text()));
    }
    if !r2.ok() {
        return o.viol("unpack-fails", d(&r2.text()));
    }
    if let Err(e) = tree_equals(&sc.path(&outdir), &want) {
        o.viol("tree", d(&e));
    }
    // nothing else changed
    let mut after = trace::snapshot(&sc.w);
    let mut allowed: BTreeSet<PathBuf> = [pat.clone().into()].into();
    if det {
        allowed.insert(hat.clone().into());
    }
    after.retain(|p, _| !(allowed.contains(p) || p.starts_with(&outdir) || Path::new(&outdir).starts_with(p)));
    let mut before = before;
    before.retain(|p, _| !(allowed.contains(p) || p.starts_with(&outdir) || Path::new(&outdir).starts_with(p)));
    let x = trace::diff(&before, &after);
    if !x.is_empty() {
        o.viol("elsewhere", d(&x.join("; ")));
    }
    // the packed file itself, with independent readers
    want.remove(Path::new("of the user"));
    let body = sc.get(&pat).unwrap_or_default();
    let hd = det.then(|| sc.get(&hat).unwrap_or_default());
    match refimpl::decode(hd.as_deref(), &body, key.as_bytes()).and_then(|z| zip_read(&z)) {
        Err(e) => o.viol("archive-unreadable", d(&e)),
        Ok(t) => {
            let x = trace::diff(&with_parents(&want), &with_parents(&t));
            if !x.is_empty() {
                o.viol("archive-tree", d(&x.join("; ")));
            }
        }
    }
}

/// A name that cannot be stored must not be left out silently.
fn c17_bytes(o: &mut Obs, sc: &Scratch) {
    use std::os::unix::ffi::OsStrExt;
    sc.reset();
    let bad = std::ffi::OsStr::from_bytes(b"bad\xFF\xFEname");
    sc.put("src/ok", b"fine");
    let dir = o.rng.chance(1, 2);
    let p = sc.path("src").join(bad);
    if dir {
        std::fs::create_dir(&p).unwrap();
    } else {
        std::fs::write(&p, b"data").unwrap();
    }
    sc.own();
    let c = Cmd::cli(&["pack", "src", "packed"]).env("VOLARIS_KEY", "k");
    let u = Cmd::cli(&["unpack", "packed", "res"]).env("VOLARIS_KEY", "k");
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("bytes", dir), true);
    if r.crashed() {
        o.viol("strange-name-crash", r.text());
    }
    if r.ok() {
        let r = u.run(sc);
        if r.is_ok_and(|r| r.ok()) {
            let a = trace::snapshot(&sc.path("src"));
            let b = trace::snapshot(&sc.path("res/src"));
            if a != b {
                o.viol("strange-name", format!("a name that is not Unicode: {}", trace::diff(&a, &b).join("; ")));
            }
        }
    }
}

/// A member of more than 4 GiB, nearly all of it zeros.
fn c17_long(o: &mut Obs, sc: &Scratch) {
    use std::io::{Read, Seek, SeekFrom, Write};
    sc.reset();
    let len = crate::big::LONG;
    std::fs::create_dir(sc.path("src")).unwrap();
    let marks = [0, 1 << 20, 0x7fff_fff8, 0xffff_fff8, 0x1_0000_0003, len - 9].map(|at| (at, o.rng.bytes(9)));
    let mut f = std::fs::File::create(sc.path("src/long")).unwrap();
    if f.set_len(len).is_err() {
        return;
    }
    for (at, b) in &marks {
        f.seek(SeekFrom::Start(*at)).and_then(|_| f.write_all(b)).unwrap();
    }
    drop(f);
    sc.put("src/short", b"short");
    sc.own();
    let c = Cmd::drive(&["pack", "packed", "X", "a1", &hex(b"k"), "zstd", "-", "src"]);
    let u = Cmd::drive(&["unpack", "packed", "res", &hex(b"k"), "-"]);
    let (r1, r2) = match (c.run(sc), u.run(sc)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return o.inconclusive(e),
    };
    o.eval(&("long", len, hash_of(&marks)), true);
    o.count("of_more_than_4_GiB", 1);
    o.max("max_file", len);
    let d = |m: &str| format!("a directory with a file of {len} bytes, compressed: {m}; {}; {}", r1.text(), r2.text());
    if !r1.ok() || !r2.ok() {
        return o.viol("long-fails", d("fails"));
    }
    if sc.get("res/src/short").as_deref() != Some(b"short") {
        o.viol("long-tree", d("the other file is not restored"));
    }
    let bad = (|| -> std::io::Result<Option<String>> {
        let mut f = std::fs::File::open(sc.path("res/src/long"))?;
        let n = f.metadata()?.len();
        if n != len {
            return Ok(Some(format!("{n} bytes")));
        }
        let mut buf = vec![0; 1 << 22];
        let mut pos = 0u64;
        loop {
            let k = f.read(&mut buf)?;
            if k == 0 {
                return Ok((pos != len).then(|| format!("ends at {pos}")));
            }
            // the marks are taken out, everything else is zero
            for (at, b) in &marks {
                for (i, b) in b.iter().enumerate() {
                    let p = at + i as u64;
                    if p >= pos && p < pos + k as u64 {
                        let g = &mut buf[(p - pos) as usize];
                        if *g != *b {
                            return Ok(Some(format!("byte {p} differs")));
                        }
                        *g = 0;
                    }
                }
            }
            if let Some(i) = buf[..k].iter().position(|b| *b != 0) {
                return Ok(Some(format!("byte {} differs", pos + i as u64)));
            }
            pos += k as u64;
        }
    })();
    match bad {
        Ok(None) => {}
        Ok(Some(t)) => o.viol("long-differs", d(&t)),
        Err(e) => o.viol("long-differs", d(&e.to_string())),
    }
    sc.reset();
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "Each case packs generated directory trees and unpacks them in a scratch directory, through the program or the library, and compares the \
        trees; the archive is read independently as well. Non-trivial: distinct (trees, way of naming, compression, header place, interface)."
        .into();
    ctx.min_evals = 100;
    for i in 0..9 {
        ctx.need(&format!("naming_{i}"), 4);
    }
    ctx.need("compressed", 20);
    ctx.need("stored", 20);
    ctx.need("unpacked_over_older_files", 30);
    ctx.need("output_inside_of_the_source", 4);
    ctx.par(1, ctx.pick(10, 300), |o| {
        let sc = Scratch::new();
        for i in 0..9 {
            if o.mine(i) || o.worker == 0 {
                for _ in 0..4 {
                    c17_case(o, &sc, Some(i), None);
                }
            }
        }
        c17_bytes(o, &sc);
        if o.worker == 7 {
            c17_long(o, &sc);
        }
        // far more than any buffer
        if let Some(n) = [17 * BLOCK + 3, 70 * BLOCK + 1, 5 * BLOCK, 257 * BLOCK + 9].get(o.worker) {
            if *n < 200 * BLOCK || o.thorough {
                c17_case(o, &sc, Some(0), Some(*n));
            }
        }
        while o.time_left() {
            let s = o.rng.below(9);
            o.sample(|| format!("a generated tree, named in way {s}"));
            c17_case(o, &sc, Some(s), None);
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C18

/// Names that try to get out, and some that only look like it.
pub fn hostile_names(r: &mut Rng, w: &Path) -> Vec<Vec<u8>> {
    let abs = w.display().to_string();
    let mut v: Vec<Vec<u8>> = [
        "../evil",
        "../../evil",
        "../../../../../../../../tmp/vmon-evil",
        "a/../../evil",
        "a/b/../../../evil",
        "./../evil",
        "x/./../../evil",
        "..",
        ".",
        "",
        "/",
        "//",
        "../",
        "a/..",
        "a/../..",
        "../evildir/",
        "a/../../evildir/",
        "../keep/file",
        "../keep/",
        "../tmp/evil",
        "../tmp/precious",
        "../res2/evil",
        "../res",
        "../resx",
        "..\\evil",
        "..\\..\\evil",
        "a\\..\\..\\evil",
        "C:\\evil",
        "C:/evil",
        "\\evil",
        "\\\\host\\share",
        "....//evil",
        "..../evil",
        "../\u{0}evil",
        "evil\u{0}../x",
        "../ evil",
        "．．/evil",
        "%2e%2e/evil",
        "a//../../evil",
        "a/./../../keep/file",
        "~/evil",
        "$HOME/evil",
        "dir/../../keep/file",
        "../in",
        "new/../../in",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    for s in ["evil", "keep/file", "keep/", "tmp/precious", "evildir/", "in"] {
        v.push(format!("{abs}/{s}").into_bytes());
        v.push(format!("/{abs}/{s}").into_bytes());
        v.push(format!("a/../{abs}/{s}").into_bytes());
    }
    v.push(b"/tmp/vmon-evil-abs".to_vec());
    v.push([&b"a/"[..], &b"../".repeat(40), b"tmp/vmon-evil-deep"].concat());
    v.push([&b"d/".repeat(5)[..], &b"../".repeat(7), b"evil"].concat());
    v.push(b"..\xFF/evil".to_vec());
    v.push([&b"x".repeat(300)[..], b"/../../../evil"].concat());
    // random compositions
    for _ in 0..12 {
        let n = r.range(1, 6);
        let mut s = String::new();
        if r.chance(1, 5) {
            s.push('/');
        }
        for _ in 0..n {
            s += r.pick(&["..", "..", ".", "a", "b", "", "...", "keep", "tmp", "..a", "res", ".. ", "..\\"]);
            s.push('/');
        }
        if r.chance(2, 3) {
            s += r.pick(&["evil", "file", "precious", "in", ".."]);
        }
        v.push(s.into_bytes());
    }
    v
}

/// Made of ordinary components only.
pub fn well_behaved(n: &[u8]) -> bool {
    let Ok(s) = std::str::from_utf8(n) else { return false };
    let s = s.strip_suffix('/').unwrap_or(s);
    !s.is_empty() && s.split('/').all(|c| !c.is_empty() && c != "." && c != ".." && c.len() <= 255 && !c.contains('\\') && !c.contains('\0') && !c.contains(':'))
}

fn unicode_extra(name: &[u8], evil: &[u8]) -> Vec<u8> {
    let mut d = vec![1];
    d.extend_from_slice(&crc32(name).to_le_bytes());
    d.extend_from_slice(evil);
    let mut v = vec![0x75, 0x70];
    v.extend_from_slice(&(d.len() as u16).to_le_bytes());
    v.extend_from_slice(&d);
    v
}

fn c18_case(o: &mut Obs, sc: &Scratch, only: Option<Vec<u8>>) {
    sc.reset();
    let r = &mut o.rng;
    let names = hostile_names(r, &sc.w);
    let mut es: Vec<ZEntry> = vec![];
    let mut good: BTreeMap<PathBuf, Node> = BTreeMap::new();
    // some ordinary entries, some hostile ones, in any order
    let dirs_first = r.chance(3, 4);
    let t = tree(r, 6, 2000, |r| format!("g{}", r.below(100)));
    let mut ordinary: Vec<ZEntry> = vec![];
    for (p, n) in &t {
        let s = p.to_str().unwrap();
        ordinary.push(match n {
            Node::File(d) => ZEntry::new(s, d),
            _ => ZEntry {
                mode: 0o40755,
                ..ZEntry::new(format!("{s}/"), b"")
            },
        });
        good.insert(p.clone(), n.clone());
    }
    let count = if only.is_some() { 1 } else { r.range(1, 5) };
    let mut hostile = vec![];
    for _ in 0..count {
        let n = only.clone().unwrap_or_else(|| r.pick(&names).clone());
        let len = r.below(50);
        let mut e = ZEntry::new(&n, &r.bytes(len));
        match r.below(10) {
            0 => {
                // a link out, and something through it
                e.mode = 0o120_777;
                e.name = format!("link{}", r.below(10)).into_bytes();
                e.data = r.pick(&[&b".."[..], b"../keep", b"/tmp", b"../in"]).to_vec();
                let through = [&e.name[..], b"/", *r.pick(&[&b"evil"[..], b"file", b"sub/"])].concat();
                hostile.push(e.clone());
                e = ZEntry::new(through, b"through a link");
            }
            1 => e.extra = unicode_extra(&e.name, b"../evil"),
            2 => {
                // an innocent name with a hostile one elsewhere
                let inner = e.name.clone();
                e.name = b"innocent".to_vec();
                e.extra = unicode_extra(b"innocent", &inner);
            }
            3 => {
                e.local = Some(e.name.clone());
                e.name = b"innocent2".to_vec();
            }
            4 => e.local = Some(b"innocent3".to_vec()),
            5 => e.utf8 = false,
            6 => e.host = 0,
            7 => e.mode = *r.pick(&[0o40755, 0o120_777, 0o100_777, 0o104_755, 0o060_644, 0o010_644, 0]),
            _ => {}
        }
        hostile.push(e);
    }
    if dirs_first {
        es.extend(ordinary);
        for h in hostile {
            let at = r.range(0, es.len());
            es.insert(at, h);
        }
    } else {
        es.extend(hostile);
        es.extend(ordinary);
    }
    let z = zip_write(&es);
    let key = b"key".to_vec();
    let m = refimpl::make(r, 5, Alg::X, false, &[(0, Kdf::Argon(3), key.clone())], &z);
    sc.put("in", &[m.header, m.body].concat());
    sc.put("keep/file", b"keep me");
    sc.put("tmp/precious", b"precious");
    sc.put("res2/x", b"neighbour");
    sc.put("evil2", b"e");
    let pre = r.chance(1, 2);
    if pre {
        sc.put("res/old", b"old");
    }
    sc.own();
    let cli = r.chance(1, 2);
    let out = *r.pick(&["res", "./res", "res/", "sub/../res", "ABS"]);
    let out = if out == "ABS" { sc.path("res").display().to_string() } else { out.to_string() };
    if out.starts_with("sub") {
        std::fs::create_dir(sc.path("sub")).unwrap();
        sc.own();
    }
    let c = if cli {
        Cmd::cli(&["unpack", "-f", "in", &out]).env("VOLARIS_KEY", "key")
    } else {
        Cmd::drive(&["unpack", "in", &out, &hex(&key), "-"])
    };
    let before = trace::snapshot(&sc.w);
    let c = c.traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0").env("VT_JAIL", &sc.top);
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    let list: Vec<String> = es.iter().map(|e| format!("{:?}", String::from_utf8_lossy(&e.name))).collect();
    let d = |s: &str| format!("archive with {}; {}: {s}; {}", list.join(", "), c.text(), res.text());
    o.eval(&hash_of(&(list.clone(), cli, out.clone())), true);
    o.count("hostile_entries", count as u64);
    o.count(if res.ok() { "unpacked" } else { "refused" }, 1);
    if res.crashed() {
        o.viol("crash", d("crashed"));
    }
    // every modifying call
    let root = sc.path("res");
    let tmp = sc.path("tmp");
    let mut temps = BTreeSet::new();
    for x in &res.trace {
        if !x.modifies() {
            continue;
        }
        o.count("modifying_calls", 1);
        if x.jailed() {
            o.viol("outside", d(&format!("an attempt: {}", x.brief())));
            continue;
        }
        if x.ret < 0 || x.path.starts_with("/dev") || x.path.starts_with("/proc") {
            continue;
        }
        if x.path.starts_with(&root) {
            continue;
        }
        if x.path.parent() == Some(&tmp) && (x.created() || temps.contains(&x.path)) && temps.len() < 2 {
            // its own temporary file
            temps.insert(x.path.clone());
            continue;
        }
        // the directories above the output directory exist already
        o.viol("outside", d(&x.brief()));
    }
    let strip = |mut t: Tree| {
        t.retain(|p, _| !p.starts_with("res"));
        t
    };
    let x = trace::diff(&strip(before), &strip(trace::snapshot(&sc.w)));
    if !x.is_empty() {
        o.viol("outside", d(&x.join("; ")));
    }
    if res.ok() {
        // the last entry of a name wins; names that are also used by a hostile entry are not judged
        let hostile_tops: BTreeSet<Vec<u8>> = es
            .iter()
            .filter(|e| !well_behaved(&e.name) || e.local.is_some() || !e.extra.is_empty())
            .map(|e| e.name.split(|b| *b == b'/').find(|c| !c.is_empty() && *c != b"." && *c != b"..").unwrap_or(b"").to_vec())
            .collect();
        let got = trace::snapshot(&root);
        for (p, n) in &good {
            let top = p.components().next().unwrap().as_os_str().to_string_lossy().as_bytes().to_vec();
            if hostile_tops.contains(&top) {
                continue;
            }
            o.count("good_entries_checked", 1);
            if got.get(p) != Some(n) {
                o.viol("well-behaved-missing", d(&format!("{} is not restored", p.display())));
            }
        }
    }
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "Each case unpacks an archive written by an independent writer whose entries try to get out (parents, absolute names, links, alternative names), \
        under a monitor of every modifying file system call and with the surroundings compared; non-trivial: distinct entry lists."
        .into();
    ctx.min_evals = 300;
    ctx.need("modifying_calls", 3000);
    ctx.need("good_entries_checked", 200);
    ctx.par(1, ctx.pick(8, 300), |o| {
        let sc = Scratch::new();
        let names = hostile_names(&mut o.rng, &sc.w);
        for (i, n) in names.iter().enumerate() {
            if o.mine(i) {
                o.sample(|| format!("an entry named {:?}", String::from_utf8_lossy(n)));
                c18_case(o, &sc, Some(n.clone()));
            }
        }
        while o.time_left() {
            c18_case(o, &sc, None);
        }
    });
}
