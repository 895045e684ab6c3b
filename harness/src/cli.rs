//! The program itself: C25 (inputs), C26 (switches and reports), C27 (consent), C33 (crashes).
use crate::arch;
use crate::gen;
use crate::ops::*;
use crate::refimpl::{self, RefHeader, BLOCK};
use crate::trace::{self, Cmd, Node, Res, Scratch, Tree, K};
use crate::util::*;
use std::collections::BTreeSet;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sub {
    Encrypt,
    Decrypt,
    Pack,
    Unpack,
}
pub const SUBS: [Sub; 4] = [Sub::Encrypt, Sub::Decrypt, Sub::Pack, Sub::Unpack];
impl Sub {
    fn name(self) -> &'static str {
        match self {
            Sub::Encrypt => "encrypt",
            Sub::Decrypt => "decrypt",
            Sub::Pack => "pack",
            Sub::Unpack => "unpack",
        }
    }
    fn short(self) -> &'static str {
        match self {
            Sub::Encrypt => "-e",
            Sub::Decrypt => "-d",
            Sub::Pack => "-p",
            Sub::Unpack => "-u",
        }
    }
    fn seals(self) -> bool {
        matches!(self, Sub::Encrypt | Sub::Pack)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Src {
    File,
    Stdin,
    Env,
    Tty,
    /// a passphrase generated by the program, of so many words
    Auto(Option<usize>),
}

/// Switches of one command line.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Opts {
    pub src: Src,
    pub det: bool,
    pub hash: bool,
    pub erase: Option<Option<usize>>,
    pub force: bool,
    pub argon: bool,
    pub aes: bool,
    pub zstd: bool,
    pub verbose: bool,
    pub recursive: bool,
    /// spelling of switches and their place
    pub style: u64,
}
impl Opts {
    pub fn plain() -> Opts {
        Opts {
            src: Src::Env,
            det: false,
            hash: false,
            erase: None,
            force: false,
            argon: false,
            aes: false,
            zstd: false,
            verbose: false,
            recursive: true,
            style: 0,
        }
    }
}

/// What a command works on: the files and names.
#[derive(Clone)]
pub struct Scene {
    pub sub: Sub,
    pub key: Vec<u8>,
    pub pt: Vec<u8>,
    pub tree: Tree,
    pub tree2: Option<Tree>,
    pub alg: Alg,
    pub kdf: Kdf,
    pub header: Vec<u8>,
    pub body: Vec<u8>,
    /// names: input (a second input directory is `in2`), output, header, key file
    pub inp: String,
    pub out: String,
    pub hdr: String,
    pub keyfile: String,
}

fn printable(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| *r.pick(b"abcdefghjkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789_+.,")).collect()
}

impl Scene {
    pub fn new(r: &mut Rng, sub: Sub, len: usize) -> Scene {
        let n = r.range(12, 40);
        let key = printable(r, n);
        let pt = gen::content(r, len);
        let mut tree = arch::small_tree(r);
        if len > BLOCK {
            tree.insert("d/huge".into(), Node::File(pt.clone()));
        }
        let tree2 = (sub == Sub::Pack && r.chance(1, 4)).then(|| arch::small_tree(r));
        let (alg, kdf) = (gen::alg(r), gen::kdf(r));
        let mut s = Scene {
            sub,
            key,
            pt,
            tree,
            tree2,
            alg,
            kdf,
            header: vec![],
            body: vec![],
            inp: (*r.pick(&["in", "in put", "sub/in", "ïn.bin"])).to_string(),
            out: (*r.pick(&["out", "out put.enc", "sub/out", "öut"])).to_string(),
            hdr: (*r.pick(&["h", "head er", "sub/h"])).to_string(),
            keyfile: "key file".into(),
        };
        if s.tree2.is_some() {
            s.inp = "in".into();
        }
        if !sub.seals() {
            s.seal(r);
        }
        s
    }
    /// Makes the encrypted input, also anew after `key` was changed.
    pub fn seal(&mut self, r: &mut Rng) {
        let pos = r.below(4);
        let pt = if self.sub == Sub::Decrypt { self.pt.clone() } else { arch::zip_of(&self.tree, r.chance(1, 2)) };
        let m = refimpl::make(r, 5, self.alg, false, &[(pos, self.kdf, self.key.clone())], &pt);
        self.header = m.header;
        self.body = m.body;
    }
    pub fn whole(&self) -> Vec<u8> {
        [&self.header[..], &self.body].concat()
    }
    pub fn put(&self, sc: &Scratch, o: &Opts) {
        std::fs::create_dir_all(sc.path("sub")).unwrap();
        match self.sub {
            Sub::Encrypt => {
                sc.put(&self.inp, &self.pt);
            }
            Sub::Pack => {
                arch::write_tree(&sc.path(&self.inp), &self.tree);
                if let Some(t) = &self.tree2 {
                    arch::write_tree(&sc.path("in2"), t);
                }
            }
            _ if o.det => {
                sc.put(&self.inp, &self.body);
                sc.put(&self.hdr, &self.header);
            }
            _ => {
                sc.put(&self.inp, &self.whole());
            }
        }
        if o.src == Src::File {
            sc.put(&self.keyfile, &self.key);
        }
        sc.put("other", b"a file that has nothing to do with it");
        sc.own();
    }
    pub fn cmd(&self, o: &Opts) -> Cmd {
        let s = |i: u32| (o.style >> i) & 1 == 1;
        let mut a: Vec<String> = vec![if s(0) { self.sub.short() } else { self.sub.name() }.into()];
        let mut names = vec![self.inp.clone()];
        if self.tree2.is_some() {
            names.push("in2".into());
        }
        names.push(self.out.clone());
        let mut sw: Vec<Vec<String>> = vec![];
        let flag = |on: bool, short: Option<&str>, long: &str, bit: u32, sw: &mut Vec<Vec<String>>| {
            if on {
                sw.push(vec![match short {
                    Some(x) if s(bit) => x.to_string(),
                    _ => long.to_string(),
                }]);
            }
        };
        flag(o.hash, Some("-H"), "--hash", 1, &mut sw);
        flag(o.force, Some("-f"), "--force", 2, &mut sw);
        if self.sub.seals() {
            flag(o.argon, None, "--argon", 0, &mut sw);
            flag(o.aes, None, "--aes", 0, &mut sw);
        }
        if self.sub == Sub::Pack {
            flag(o.zstd, Some("-z"), "--zstd", 3, &mut sw);
            flag(o.recursive, Some("-r"), "--recursive", 4, &mut sw);
        }
        if matches!(self.sub, Sub::Pack | Sub::Unpack) {
            flag(o.verbose, Some("-v"), "--verbose", 5, &mut sw);
        }
        match o.erase {
            Some(None) => sw.push(vec!["--erase".into()]),
            Some(Some(_)) if self.sub == Sub::Pack => sw.push(vec!["--erase".into()]),
            Some(Some(n)) => sw.push(vec![format!("--erase={n}")]),
            None => {}
        }
        if o.det {
            if s(6) {
                sw.push(vec![format!("--header={}", self.hdr)]);
            } else {
                sw.push(vec!["--header".into(), self.hdr.clone()]);
            }
        }
        match o.src {
            Src::File | Src::Stdin => {
                let f = if o.src == Src::File { self.keyfile.clone() } else { "-".into() };
                if s(7) {
                    sw.push(vec!["-k".into(), f]);
                } else {
                    sw.push(vec!["--keyfile".into(), f]);
                }
            }
            Src::Auto(None) => sw.push(vec!["--auto".into()]),
            Src::Auto(Some(n)) => sw.push(vec![format!("--auto={n}")]),
            _ => {}
        }
        Rng::new(o.style).shuffle(&mut sw);
        if s(8) {
            a.extend(sw.into_iter().flatten());
            a.extend(names);
        } else {
            a.extend(names);
            a.extend(sw.into_iter().flatten());
        }
        let mut c = Cmd::cli(&a);
        match o.src {
            Src::Env => c = c.env("VOLARIS_KEY", std::ffi::OsStr::from_bytes(&self.key)),
            Src::Stdin => c = c.stdin(&self.key),
            Src::Tty => {
                let line = [&self.key[..], b"\n"].concat();
                c.tty = Some(if self.sub.seals() { [&line[..], &line].concat() } else { line });
            }
            _ => {}
        }
        c
    }
    /// The plaintext of the sealed output.
    pub fn open(&self, sc: &Scratch, o: &Opts, key: &[u8]) -> Result<Vec<u8>, String> {
        let out = sc.get(&self.out).ok_or("there is no output")?;
        let hd = if o.det { Some(sc.get(&self.hdr).ok_or("there is no header file")?) } else { None };
        refimpl::decode(hd.as_deref(), &out, key)
    }
    /// The requested result is there, in full.
    pub fn done(&self, sc: &Scratch, o: &Opts, key: &[u8]) -> Result<(), String> {
        match self.sub {
            Sub::Encrypt => {
                if self.open(sc, o, key)? != self.pt {
                    return Err("the output holds other content".into());
                }
            }
            Sub::Pack => {
                let z = self.open(sc, o, key)?;
                let mut want = arch::prefixed(&self.tree, Path::new(&self.inp));
                if let Some(t) = &self.tree2 {
                    want.extend(arch::prefixed(t, Path::new("in2")));
                }
                arch::zip_equals(&z, &want, "")?;
            }
            Sub::Decrypt => {
                let got = sc.get(&self.out).ok_or("there is no output")?;
                if got != self.pt {
                    return Err(format!("the output has {} bytes {} instead of {}", got.len(), brief(&got), brief(&self.pt)));
                }
            }
            Sub::Unpack => arch::tree_equals(&sc.path(&self.out), &self.tree)?,
        }
        Ok(())
    }
    /// The source of the command is as it was.
    pub fn source_intact(&self, sc: &Scratch, o: &Opts) -> Result<(), String> {
        match self.sub {
            Sub::Pack => {
                arch::tree_equals(&sc.path(&self.inp), &self.tree)?;
                if let Some(t) = &self.tree2 {
                    arch::tree_equals(&sc.path("in2"), t)?;
                }
            }
            s => {
                let want = match s {
                    Sub::Encrypt => self.pt.clone(),
                    _ if o.det => self.body.clone(),
                    _ => self.whole(),
                };
                match sc.get(&self.inp) {
                    None => return Err("the input is gone".into()),
                    Some(g) if g != want => return Err("the input changed".into()),
                    _ => {}
                }
                if o.det && !s.seals() && sc.get(&self.hdr).as_ref() != Some(&self.header) {
                    return Err("the header file changed".into());
                }
            }
        }
        Ok(())
    }
    /// Paths that belong to the source.
    fn source_paths(&self, sc: &Scratch, o: &Opts) -> Vec<PathBuf> {
        let mut v = vec![sc.path(&self.inp)];
        if self.tree2.is_some() {
            v.push(sc.path("in2"));
        }
        if o.det && !self.sub.seals() {
            v.push(sc.path(&self.hdr));
        }
        if o.src == Src::File {
            v.push(sc.path(&self.keyfile));
        }
        v
    }
}

pub fn opts(r: &mut Rng, sub: Sub) -> Opts {
    let mut o = Opts::plain();
    o.src = match r.below(8) {
        0 | 1 => Src::File,
        2 => Src::Stdin,
        3 => Src::Tty,
        4 if sub.seals() => Src::Auto(*r.pick(&[None, Some(1), Some(3), Some(7), Some(12)])),
        _ => Src::Env,
    };
    o.det = r.chance(1, 3);
    o.hash = r.chance(1, 3);
    if r.chance(1, 3) {
        o.erase = Some(*r.pick(&[None, Some(1), Some(2), Some(3), Some(0)]));
        if r.chance(1, 8) {
            o.erase = Some(Some(*r.pick(&[10, 35, 100, 127, 128, 200, 255, 256, 258, 300])));
        }
    }
    // a directory is only erased after a question
    o.force = r.chance(1, 4) || (sub == Sub::Pack && o.erase.is_some());
    o.argon = r.chance(1, 2);
    o.aes = r.chance(1, 2);
    o.zstd = r.chance(1, 2);
    o.verbose = r.chance(1, 4);
    o.recursive = r.chance(1, 2);
    o.style = r.u64();
    o
}

fn hexes(text: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(text)
        .split(|c: char| !c.is_ascii_hexdigit())
        .filter(|s| s.len() >= 64)
        .map(str::to_string)
        .collect()
}

/// Does the path, or anything below it, get modified by a recorded call?
fn touched<'a>(r: &'a Res, paths: &[PathBuf]) -> Option<&'a trace::Rec> {
    r.trace.iter().find(|x| {
        (x.modifies() || x.truncating_open())
            && x.ret >= 0
            && !x.injected()
            && paths.iter().any(|p| x.path.starts_with(p) || (!x.path2.as_os_str().is_empty() && x.path2.starts_with(p)))
    })
}

// ---------------------------------------------------------------------------------------------
// C26

fn secret_forms(k: &[u8]) -> Vec<Vec<u8>> {
    vec![k.to_vec(), hex(k).into_bytes(), hex(k).to_uppercase().into_bytes(), format!("{k:?}").trim_matches(|c| c == '[' || c == ']').as_bytes().to_vec()]
}

/// A key as it can come from this source.
pub fn some_key(r: &mut Rng, src: Src) -> Vec<u8> {
    let k = match src {
        Src::File | Src::Stdin => match r.below(6) {
            0 => [&printable(r, 9)[..], b"\n"].concat(),
            1 => [&printable(r, 9)[..], b"\r\n"].concat(),
            2 => [&b"\xEF\xBB\xBF "[..], &printable(r, 10)].concat(),
            3 => {
                let n = r.range(4000, 70_000);
                r.bytes(n)
            }
            4 => {
                let n = r.range(9, 80);
                r.bytes(n)
            }
            _ => printable(r, 20),
        },
        Src::Env => match r.below(4) {
            0 => [&b" "[..], &printable(r, 9), b" \n"].concat(),
            1 => ["pässwörd-秘密".as_bytes(), &printable(r, 5)].concat(),
            _ => printable(r, 20),
        },
        Src::Tty => match r.below(4) {
            0 => [&b" "[..], &printable(r, 9), b"  "].concat(),
            1 => ["pässwörd-秘密".as_bytes(), &printable(r, 5)].concat(),
            _ => printable(r, 15),
        },
        Src::Auto(_) => printable(r, 12),
    };
    k
}

fn c26_case(o: &mut Obs, sc: &Scratch, s: &Scene, op: &Opts) {
    sc.reset();
    s.put(sc, op);
    // with force, results replace what was there, longer or shorter
    let mut replaced: BTreeSet<PathBuf> = BTreeSet::new();
    if op.force && s.sub != Sub::Unpack {
        for f in [Some(&s.out), (op.det && s.sub.seals()).then_some(&s.hdr)].into_iter().flatten() {
            if o.rng.chance(1, 2) {
                let n = *o.rng.pick(&[0, 9, 300, 2000, s.pt.len() + 5000]);
                sc.put(f, &o.rng.bytes(n));
                replaced.insert(f.into());
                o.count("older_results_replaced", 1);
            }
        }
        sc.own();
    }
    let before = trace::snapshot(&sc.w);
    let mut c = s.cmd(op);
    if op.erase.is_some() {
        c = c.traced().env("VT_NODATA", "1");
    }
    // a key file comes before the key of the environment
    let decoy = op.src == Src::File && op.style & 0x300 == 0;
    if decoy {
        c = c.env("VOLARIS_KEY", "another key that is not to be used");
    }
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&(s.sub, op, hash_of(&s.key), hash_of(&s.pt)), true);
    o.count(&format!("runs_{}", s.sub.name()), 1);
    for (on, n) in [
        (op.det, "header"),
        (op.hash, "hash"),
        (op.erase.is_some(), "erase"),
        (op.argon && s.sub.seals(), "argon"),
        (op.aes && s.sub.seals(), "aes"),
        (op.zstd && s.sub == Sub::Pack, "zstd"),
        (op.src == Src::File, "keyfile"),
        (op.src == Src::Stdin, "key_stdin"),
        (op.src == Src::Env, "key_env"),
        (op.src == Src::Tty, "key_terminal"),
        (matches!(op.src, Src::Auto(_)), "auto"),
    ] {
        if on {
            o.count(&format!("switch_{n}"), 1);
        }
    }
    let d = |m: &str| format!("{} on {} bytes, key {}: {m}; {}", c.text(), s.pt.len(), brief(&s.key), r.text());
    if !r.ok() {
        return o.viol("fails", d("fails"));
    }
    let text = [&r.stdout[..], b"\n", &r.stderr, b"\n", &r.tty].concat();
    // the key
    let mut key = s.key.clone();
    if let Src::Auto(n) = op.src {
        let t = String::from_utf8_lossy(&text).to_string();
        let shown: Vec<&str> = t.lines().filter_map(|l| l.split_once("passphrase is: ").map(|x| x.1.trim())).collect();
        let [p] = shown[..] else {
            return o.viol("auto-shown", d(&format!("{} passphrases are shown", shown.len())));
        };
        let words = p.split('-').count();
        if words != n.unwrap_or(7) {
            return o.viol("auto-words", d(&format!("a passphrase of {words} words")));
        }
        key = p.as_bytes().to_vec();
    } else {
        for f in secret_forms(&key) {
            if find(&text, &f).is_some() {
                o.viol("key-printed", d("the key is printed"));
            }
        }
        if String::from_utf8_lossy(&text).contains("passphrase is") {
            o.viol("auto-unasked", d("a passphrase is generated although none was asked for"));
        }
    }
    if let Err(e) = s.done(sc, op, &key) {
        return o.viol("not-done", d(&format!("success, but {e}")));
    }
    let sealed = match s.sub.seals() {
        true => {
            let hb = if op.det { sc.get(&s.hdr) } else { sc.get(&s.out) };
            let (h, _) = match RefHeader::parse(&hb.unwrap_or_default()) {
                Ok(x) => x,
                Err(e) => return o.viol("not-done", d(&e)),
            };
            let alg = if op.aes { Alg::A } else { Alg::X };
            if h.alg != alg || h.ver != 5 || h.memory {
                o.viol("cipher", d(&format!("the file is of version {} with {:?}, asked for {alg:?}", h.ver, h.alg)));
            }
            let kdf = if op.argon { Kdf::Argon(3) } else { Kdf::Balloon(5) };
            let used: Vec<Kdf> = h.slots.iter().flatten().map(|s| s.kdf).collect();
            if used != [kdf] {
                o.viol("password-hashing", d(&format!("the file uses {used:?}, asked for {kdf:?}")));
            }
            if let Some(m) = h.body_key(&key) {
                for f in secret_forms(&m) {
                    if find(&text, &f).is_some() {
                        o.viol("key-printed", d("the master key is printed"));
                    }
                }
            }
            if s.sub == Sub::Pack {
                let z = s.open(sc, op, &key).unwrap_or_default();
                if let Err(e) = compression(&z, op.zstd) {
                    o.viol("compression", d(&e));
                }
            }
            true
        }
        false => false,
    };
    // the hash of the encrypted file
    let enc = if sealed {
        sc.get(&s.out).unwrap_or_default()
    } else if op.det {
        s.body.clone()
    } else {
        s.whole()
    };
    let want = blake3::hash(&enc).to_hex().to_string();
    let shown = hexes(&text);
    if op.hash && shown != [want.clone()] {
        o.viol("hash", d(&format!("shows {shown:?} instead of {want}")));
    }
    if !op.hash && !shown.is_empty() {
        o.viol("hash-unasked", d("shows a hash that was not asked for"));
    }
    // what changed
    let after = trace::snapshot(&sc.w);
    let mut mine: BTreeSet<PathBuf> = [PathBuf::from(&s.out)].into();
    if op.det && sealed {
        mine.insert(PathBuf::from(&s.hdr));
    }
    let gone: Vec<PathBuf> = if op.erase.is_some() {
        let mut v = vec![PathBuf::from(&s.inp)];
        if s.tree2.is_some() {
            v.push("in2".into());
        }
        v
    } else {
        vec![]
    };
    let gone: BTreeSet<PathBuf> = gone.into_iter().collect();
    let under = |p: &Path, v: &BTreeSet<PathBuf>| v.iter().any(|q| p.starts_with(q));
    for (p, n) in &before {
        if under(p, &gone) {
            if after.contains_key(p) {
                o.viol("not-erased", d(&format!("{} is still there", p.display())));
            }
        } else if after.get(p) != Some(n) && !replaced.contains(p) {
            o.viol("side-effect", d(&format!("{} changed", p.display())));
        }
    }
    for p in after.keys() {
        if !before.contains_key(p) && !under(p, &mine) {
            o.viol("side-effect", d(&format!("{} appeared", p.display())));
        }
    }
    // and how often it was overwritten
    if let Some(n) = op.erase {
        let passes = if s.sub == Sub::Pack { 1 } else { n.unwrap_or(1) };
        for (p, n) in &before {
            let Node::File(data) = n else { continue };
            if !under(p, &gone) {
                continue;
            }
            match crate::fsmon::judge_erasing(data, &r.trace, &sc.w.join(p), passes) {
                Ok(e) if e.destroyed => o.count("files_erased", 1),
                Ok(_) => o.viol("erase", d(&format!("{}: its removal is not in the log", p.display()))),
                Err((sig, t)) => o.viol(&format!("erase-{sig}"), d(&t)),
            }
        }
    }
}

/// Every file of the archive with content is compressed, or none is.
fn compression(z: &[u8], zstd: bool) -> Result<(), String> {
    let mut a = zip::ZipArchive::new(std::io::Cursor::new(z)).map_err(|e| e.to_string())?;
    for i in 0..a.len() {
        let f = a.by_index(i).map_err(|e| e.to_string())?;
        let want = if zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
        if f.size() > 0 && f.compression() != want {
            return Err(format!("{} is stored as {:?}", f.name(), f.compression()));
        }
    }
    Ok(())
}

/// A command that cannot succeed.
struct Failing {
    name: &'static str,
    s: Scene,
    op: Opts,
    /// changes what `put` wrote
    spoil: Box<dyn Fn(&Scene, &Scratch)>,
    cmd: Cmd,
}

fn replace_arg(c: &mut Cmd, old: &str, new: &str) {
    for a in &mut c.args {
        if a == old {
            *a = new.into();
        }
    }
}

fn failing(r: &mut Rng, sub: Sub, erase: bool) -> Vec<Failing> {
    let mut v = vec![];
    let len = *r.pick(&[0, 5, 3000, BLOCK + 9]);
    let s = Scene::new(r, sub, len);
    let mut op = opts(r, sub);
    op.erase = erase.then_some(None);
    op.src = *r.pick(&[Src::File, Src::Env]);
    op.force = erase || r.chance(1, 2);
    let add = |name, s: &Scene, op: &Opts, edit: &dyn Fn(&mut Cmd), spoil: Box<dyn Fn(&Scene, &Scratch)>, v: &mut Vec<Failing>| {
        let mut cmd = s.cmd(op);
        edit(&mut cmd);
        v.push(Failing {
            name,
            s: s.clone(),
            op: op.clone(),
            spoil,
            cmd,
        });
    };
    let none = |_: &mut Cmd| {};
    let nothing = || -> Box<dyn Fn(&Scene, &Scratch)> { Box::new(|_, _| {}) };
    let file_op = |src| Opts { src, ..op.clone() };
    add("no such input", &s, &op, &|c| replace_arg(c, &s.inp, "not-there"), nothing(), &mut v);
    add("output in a directory that does not exist", &s, &op, &|c| replace_arg(c, &s.out, "nodir/out"), nothing(), &mut v);
    if sub != Sub::Unpack {
        add(
            "output is a directory",
            &s,
            &op,
            &none,
            Box::new(|s, sc| {
                std::fs::create_dir(sc.path(&s.out)).unwrap();
                std::fs::write(sc.path(&s.out).join("x"), b"content").unwrap();
            }),
            &mut v,
        );
    } else {
        v.pop(); // the directory is made
        add(
            "output directory is a file",
            &s,
            &op,
            &none,
            Box::new(|s, sc| {
                sc.put(&s.out, b"a file");
            }),
            &mut v,
        );
    }
    add(
        "output may not be written",
        &s,
        &op,
        &|c| replace_arg(c, &s.out, "locked/out"),
        Box::new(|_, sc| {
            use std::os::unix::fs::PermissionsExt;
            std::fs::create_dir(sc.path("locked")).unwrap();
            std::fs::set_permissions(sc.path("locked"), std::fs::Permissions::from_mode(0o555)).unwrap();
        }),
        &mut v,
    );
    let fo = file_op(Src::File);
    add(
        "empty key file",
        &s,
        &fo,
        &none,
        Box::new(|s, sc| {
            sc.put(&s.keyfile, b"");
        }),
        &mut v,
    );
    add("no such key file", &s, &fo, &|c| replace_arg(c, &s.keyfile, "no-key"), nothing(), &mut v);
    add("nothing on standard input", &s, &file_op(Src::Stdin), &|c| c.stdin = vec![], nothing(), &mut v);
    add("empty key in the environment", &s, &file_op(Src::Env), &|c| c.env[0].1 = "".into(), nothing(), &mut v);
    add("no terminal to ask at", &s, &file_op(Src::Tty), &|c| c.tty = None, nothing(), &mut v);
    add("no answer at the terminal", &s, &file_op(Src::Tty), &|c| c.tty = Some(vec![]), nothing(), &mut v);
    add("unknown switch", &s, &op, &|c| c.args.push("--no-such-switch".into()), nothing(), &mut v);
    if sub.seals() {
        add("passwords differ", &s, &file_op(Src::Tty), &|c| c.tty = Some(b"one password\nanother one\n".to_vec()), nothing(), &mut v);
        let mut both = s.cmd(&fo);
        both.args.push("--auto".into());
        v.push(Failing {
            name: "key file and generated passphrase",
            s: s.clone(),
            op: fo.clone(),
            spoil: nothing(),
            cmd: both,
        });
        let det = Opts { det: true, ..op.clone() };
        add("header in a directory that does not exist", &s, &det, &|c| {
            let (a, b) = (s.hdr.clone(), format!("--header={}", s.hdr));
            replace_arg(c, &a, "nodir/h");
            replace_arg(c, &b, "--header=nodir/h");
        }, nothing(), &mut v);
    } else {
        let mut w = s.clone();
        w.key.push(b'x');
        let (head, body) = (s.header.clone(), s.body.clone());
        let mut wrong = op.clone();
        wrong.style = op.style;
        add("wrong key", &w, &wrong, &none, nothing(), &mut v);
        // `put` of the spoiled scenes writes these instead
        let mut b = s.clone();
        let i = r.below(body.len());
        b.body[i] ^= 1 << r.below(8);
        add("damaged content", &b, &op, &none, nothing(), &mut v);
        let mut b = s.clone();
        let n = r.range(1, body.len());
        b.body.truncate(body.len() - n);
        add("truncated", &b, &op, &none, nothing(), &mut v);
        let mut b = s.clone();
        b.body.push(0);
        add("bytes appended", &b, &op, &none, nothing(), &mut v);
        let mut b = s.clone();
        let i = r.below(6);
        b.header[i] ^= 0x80;
        add("damaged header", &b, &op, &none, nothing(), &mut v);
        let mut b = s.clone();
        b.header = r.bytes(head.len());
        b.header[0] = b'P';
        add("no encrypted file", &b, &op, &none, nothing(), &mut v);
        let mut b = s.clone();
        b.header.truncate(r.below(head.len()));
        b.body.clear();
        add("shorter than a header", &b, &op, &none, nothing(), &mut v);
        if op.det {
            let mut b = s.clone();
            b.seal(r);
            let h = b.header.clone();
            let mut b = s.clone();
            b.header = h;
            add("header of another file", &b, &op, &none, nothing(), &mut v);
            add("no such header file", &s, &op, &|c| {
                let (a, b) = (s.hdr.clone(), format!("--header={}", s.hdr));
                replace_arg(c, &a, "no-h");
                replace_arg(c, &b, "--header=no-h");
            }, nothing(), &mut v);
        }
        if sub == Sub::Unpack {
            // well encrypted, but no archive
            let mut b = s.clone();
            let m = refimpl::make(r, 5, s.alg, false, &[(0, s.kdf, s.key.clone())], &s.pt);
            b.header = m.header;
            b.body = m.body;
            if !s.pt.starts_with(b"PK") {
                add("no archive", &b, &op, &none, nothing(), &mut v);
            }
            let z = arch::zip_of(&s.tree, false);
            let m = refimpl::make(r, 5, s.alg, false, &[(0, s.kdf, s.key.clone())], &z[..z.len() - 30]);
            let mut b = s.clone();
            b.header = m.header;
            b.body = m.body;
            add("half an archive", &b, &op, &none, nothing(), &mut v);
        }
    }
    if sub == Sub::Pack {
        add("packing a file", &s, &op, &|c| replace_arg(c, &s.inp, "other"), nothing(), &mut v);
    } else {
        add("input is a directory", &s, &op, &|c| replace_arg(c, &s.inp, "sub"), nothing(), &mut v);
    }
    v
}

fn c26_failing(o: &mut Obs, sc: &Scratch, f: &Failing) {
    sc.reset();
    f.s.put(sc, &f.op);
    let c = f.cmd.clone();
    (f.spoil)(&f.s, sc);
    sc.own();
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("failing", f.name, c.text(), hash_of(&f.s.key)), true);
    o.count("failing_runs", 1);
    o.count(&format!("failing: {}", f.name), 1);
    let d = |m: &str| format!("{}: {}: {m}; {}", f.name, c.text(), r.text());
    if r.ok() {
        o.viol("dishonest", d("exit status 0"));
    }
    if r.crashed() {
        o.viol("crash", d("crashed"));
    }
    let text = [&r.stdout[..], b"\n", &r.stderr, b"\n", &r.tty].concat();
    if f.s.key.len() >= 8 && secret_forms(&f.s.key).iter().any(|k| find(&text, k).is_some()) {
        o.viol("key-printed", d("the key is printed"));
    }
}

/// The hash and erase commands, and the passes of the latter.
fn c26_other(o: &mut Obs, sc: &Scratch, many: Option<usize>) {
    sc.reset();
    let len = *o.rng.pick(&[0, 1, 511, 512, 513, 5000]);
    let data = gen::content(&mut o.rng, len);
    sc.put("f 1", &data);
    sc.put("keep", b"keep");
    sc.own();
    let before = trace::snapshot(&sc.w);
    let mut passes = *o.rng.pick(&[None, Some(1), Some(2), Some(5)]);
    if many.is_some() {
        passes = many;
        o.count("many_passes", 1);
    }
    let force = o.rng.chance(1, 2);
    let mut a = vec!["erase".to_string(), "f 1".into()];
    if let Some(n) = passes {
        a.push(format!("--passes={n}"));
    }
    if force {
        a.push("-f".into());
    }
    let c = Cmd::cli(&a).traced().env("VT_NODATA", "1");
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("erase", len, passes, force), true);
    let d = |m: &str| format!("{} of {len} bytes: {m}; {}", c.text(), r.text());
    if !r.ok() {
        return o.viol("fails", d("fails"));
    }
    let mut want = before;
    want.remove(Path::new("f 1"));
    let df = trace::diff(&want, &trace::snapshot(&sc.w));
    if !df.is_empty() {
        o.viol("erase-result", d(&df.join("; ")));
    }
    if let Err((sig, t)) = crate::fsmon::judge_erasing(&data, &r.trace, &sc.path("f 1"), passes.unwrap_or(1)) {
        o.viol(&format!("erase-{sig}"), d(&t));
    }
    // erasing what is not there
    let c = Cmd::cli(&["erase", "f 1"]);
    match c.run(sc) {
        Ok(r) if r.ok() || r.crashed() => o.viol("dishonest", format!("{}: of a file that does not exist; {}", c.text(), r.text())),
        Ok(_) => {}
        Err(e) => o.inconclusive(e),
    }
}

fn single_switches(r: &mut Rng, sub: Sub) -> Vec<Opts> {
    let p = || Opts { style: 0, ..Opts::plain() };
    let style = r.u64();
    let mut v = vec![
        p(),
        Opts { src: Src::File, ..p() },
        Opts { src: Src::Stdin, ..p() },
        Opts { src: Src::Tty, ..p() },
        Opts { det: true, ..p() },
        Opts { hash: true, ..p() },
        Opts { hash: true, det: true, ..p() },
        Opts { force: true, ..p() },
        Opts { erase: Some(None), force: sub == Sub::Pack, ..p() },
        Opts { erase: Some(Some(1)), force: true, ..p() },
        Opts { erase: Some(Some(2)), force: true, ..p() },
        Opts { erase: Some(Some(4)), force: true, det: true, ..p() },
        Opts { verbose: true, ..p() },
        Opts { recursive: false, ..p() },
    ];
    if sub.seals() {
        v.extend([
            Opts { argon: true, ..p() },
            Opts { aes: true, ..p() },
            Opts { argon: true, aes: true, ..p() },
            Opts { zstd: true, ..p() },
            Opts { src: Src::Auto(None), ..p() },
            Opts { src: Src::Auto(Some(1)), ..p() },
            Opts { src: Src::Auto(Some(4)), ..p() },
            Opts { src: Src::Auto(Some(25)), ..p() },
        ]);
    }
    for o in &mut v {
        o.style = style;
    }
    v
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "Each case runs the program with one combination of switches on known files and judges output, messages, exit status and every change of the \
        directory (with an independent decoder), or runs a command that cannot succeed; non-trivial: distinct (command, switches, key, content)."
        .into();
    ctx.assumptions = vec!["The password hashing crates are replaced by cheap functions with the same interface; see C30.".into()];
    ctx.min_evals = 500;
    for n in ["header", "hash", "erase", "argon", "aes", "zstd", "keyfile", "key_stdin", "key_env", "key_terminal", "auto"] {
        ctx.need(&format!("switch_{n}"), 10);
    }
    ctx.need("failing_runs", 150);
    ctx.need("files_erased", 50);
    ctx.need("many_passes", 10);
    ctx.need("older_results_replaced", 20);
    ctx.need("declined_the_first", 20);
    ctx.need("declined_a_later_one", 8);
    ctx.par(1, ctx.pick(6, 150), |o| {
        let sc = Scratch::new();
        let mut i = 0;
        for sub in SUBS {
            for op in single_switches(&mut o.rng, sub) {
                i += 1;
                if o.mine(i) {
                    let len = *o.rng.pick(&[0, 700, BLOCK]);
                    let mut s = Scene::new(&mut o.rng, sub, len);
                    s.key = some_key(&mut o.rng, op.src);
                    if !sub.seals() {
                        s.seal(&mut o.rng);
                    }
                    o.sample(|| s.cmd(&op).text());
                    c26_case(o, &sc, &s, &op);
                }
            }
        }
        while o.time_left() {
            let sub = *o.rng.pick(&SUBS);
            let len = gen::length(&mut o.rng, 2);
            let op = opts(&mut o.rng, sub);
            let mut s = Scene::new(&mut o.rng, sub, len);
            s.key = some_key(&mut o.rng, op.src);
            if !sub.seals() {
                s.seal(&mut o.rng);
            }
            o.sample(|| s.cmd(&op).text());
            c26_case(o, &sc, &s, &op);
            if o.rng.chance(1, 8) {
                c26_other(o, &sc, None);
            }
        }
    });
    ctx.par(5, ctx.pick(3, 40), |o| {
        let sc = Scratch::new();
        let mut n = 0;
        while o.time_left() || n < 40 {
            c27_case(o, &sc, true);
            n += 1;
        }
    });
    ctx.par(4, 60, |o| {
        let sc = Scratch::new();
        for (i, n) in [7, 9, 10, 16, 35, 64, 100, 127, 128, 129, 255, 256, 257, 300, 513, 999, 1000, 1024].into_iter().enumerate() {
            if o.mine(i) {
                c26_other(o, &sc, Some(n));
            }
        }
    });
    ctx.par(2, ctx.pick(4, 100), |o| {
        let sc = Scratch::new();
        loop {
            for sub in SUBS {
                let e = o.rng.chance(1, 3);
                for (i, f) in failing(&mut o.rng, sub, e).iter().enumerate() {
                    if o.mine(i) || o.rng.chance(1, 4) {
                        c26_failing(o, &sc, f);
                    }
                }
            }
            if !o.time_left() {
                break;
            }
        }
        for a in [&["hash", "not-there"][..], &["no-such-command"], &["encrypt"], &["pack", "one"], &["erase"], &["hash"], &["decrypt", "a"]] {
            sc.reset();
            let c = Cmd::cli(a).env("VOLARIS_KEY", "k");
            match c.run(&sc) {
                Ok(r) if r.ok() || r.crashed() => o.viol("dishonest", format!("{}; {}", c.text(), r.text())),
                Ok(_) => o.count("failing_runs", 1),
                Err(e) => o.inconclusive(e),
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C25

/// Another way to write the path of `name`, made in the scratch directory.
fn spellings(sc: &Scratch, r: &mut Rng, name: &str, dir: bool) -> Vec<(&'static str, String)> {
    let abs = sc.path(name).display().to_string();
    std::fs::create_dir_all(sc.path("sub")).unwrap();
    let mut v = vec![
        ("the same", name.to_string()),
        ("with a dot", format!("./{name}")),
        ("through a directory and back", format!("sub/../{name}")),
        ("absolute", abs.clone()),
        ("with doubled slashes", format!(".//sub/..//{name}")),
        ("through the parent", format!("../w/{name}")),
    ];
    let link = |target: &str, at: String| {
        let _ = symlink(target, sc.path(&at));
        at
    };
    let n = r.below(1_000_000);
    v.push(("a link", link(name, format!("ln{n}"))));
    v.push(("an absolute link", link(&abs, format!("la{n}"))));
    let one = link(name, format!("l1-{n}"));
    v.push(("a link to a link", link(&one, format!("l2-{n}"))));
    let d = link(".", format!("ld{n}"));
    v.push(("through a linked directory", format!("{d}/{name}")));
    let _ = symlink(format!("../{name}"), sc.path(&format!("sub/lu{n}")));
    v.push(("a link in another directory", format!("sub/lu{n}")));
    if sc.path(name).is_file() && !dir {
        std::fs::hard_link(sc.path(name), sc.path(&format!("hl{n}"))).unwrap();
        v.push(("a hard link", format!("hl{n}")));
    }
    if dir {
        v.push(("with a slash", format!("{name}/")));
        v.push(("with a dot behind", format!("{name}/.")));
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Pair {
    InOut,
    InHdr,
    OutHdr,
}

fn c25_alias(o: &mut Obs, sc: &Scratch, sub: Sub, pair: Pair, exists: bool, which: usize) -> bool {
    sc.reset();
    let len = *o.rng.pick(&[0, 900, 5000]);
    let mut s = Scene::new(&mut o.rng, sub, len);
    s.inp = "in".into();
    s.out = "out".into();
    s.hdr = "h".into();
    let mut op = opts(&mut o.rng, sub);
    op.src = Src::Env;
    op.det = pair != Pair::InOut || op.det;
    op.force = o.rng.chance(1, 2);
    s.put(sc, &op);
    // the file both stand for
    let (name, dir) = match pair {
        Pair::InOut | Pair::InHdr => ("in", sub == Sub::Pack),
        Pair::OutHdr if sub.seals() => ("out", false),
        Pair::OutHdr => ("h", false),
    };
    if pair == Pair::OutHdr && sub.seals() && exists {
        sc.put("out", b"was here before");
    }
    let sp = spellings(sc, &mut o.rng, name, dir);
    let Some((how, other)) = sp.get(which).cloned() else { return false };
    let mut first = name.to_string();
    let mut second = other;
    // and the other way round
    if o.rng.chance(1, 3) && pair != Pair::OutHdr {
        std::mem::swap(&mut first, &mut second);
    }
    match pair {
        Pair::InOut => (s.inp, s.out) = (first, second),
        Pair::InHdr => (s.inp, s.hdr) = (first, second),
        Pair::OutHdr if o.rng.chance(1, 2) => (s.out, s.hdr) = (first, second),
        Pair::OutHdr => (s.hdr, s.out) = (first, second),
    }
    sc.own();
    let before = trace::snapshot(&sc.w);
    let c = s.cmd(&op).stdin(b"y\ny\ny\ny\n").traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0");
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => {
            o.inconclusive(e);
            return true;
        }
    };
    o.eval(&(sub, pair, exists, how, op.force, op.erase.is_some()), true);
    o.count(&format!("aliases_{pair:?}"), 1);
    o.sample(|| format!("{} ({how})", c.text()));
    let d = |m: &str| format!("{}, {pair:?} {how}: {m}; {}", c.text(), r.text());
    if r.crashed() {
        o.viol("crash", d("crashed"));
    }
    let df = trace::diff(&before, &trace::snapshot(&sc.w));
    if r.ok() {
        o.viol("same-file-accepted", d(&format!("not refused; {}", df.join("; "))));
    } else if !df.is_empty() {
        o.viol("same-file-changed", d(&df.join("; ")));
    } else if let Some(x) = touched(&r, &[sc.w.clone()]) {
        o.viol("same-file-changed", d(&format!("{} on the way", x.brief())));
    }
    true
}

/// The source, and all else that the command was not asked to change, is as it was.
fn c25_judge(o: &mut Obs, sc: &Scratch, s: &Scene, op: &Opts, before: &Tree, r: &Res, what: &str, may: &[&str]) {
    let d = |m: &str| format!("{what}: {m}; {}", r.text());
    if r.crashed() {
        o.viol("crash", d("crashed"));
    }
    let after = trace::snapshot(&sc.w);
    for (p, n) in before {
        if may.iter().any(|m| p.starts_with(m)) {
            continue;
        }
        if after.get(p) != Some(n) {
            o.viol("changed", d(&format!("{} was changed or removed", p.display())));
            return;
        }
    }
    for p in after.keys() {
        if !before.contains_key(p) && !may.iter().any(|m| p.starts_with(m)) && !p.starts_with("tmp") {
            o.viol("appeared", d(&format!("{} appeared", p.display())));
        }
    }
    if let Some(x) = touched(r, &s.source_paths(sc, op)) {
        if !may.iter().any(|m| x.path.starts_with(sc.w.join(m))) {
            o.viol("touched", d(&x.brief()));
        }
    }
}

fn c25_failing(o: &mut Obs, sc: &Scratch, f: &Failing) {
    sc.reset();
    f.s.put(sc, &f.op);
    (f.spoil)(&f.s, sc);
    sc.own();
    let before = trace::snapshot(&sc.w);
    let c = f.cmd.clone().traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0");
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("failing", f.name, c.text(), hash_of(&f.s.key)), true);
    o.count("failing_runs", 1);
    if f.op.erase.is_some() {
        o.count("failing_runs_with_erase", 1);
    }
    let mut may = vec![f.s.out.as_str()];
    if f.s.sub.seals() && f.op.det {
        may.push(&f.s.hdr);
    }
    if f.name == "output is a directory" || f.name == "output directory is a file" {
        may.clear();
        may.push(&f.s.hdr);
        if !f.s.sub.seals() {
            may.clear();
        }
    }
    // exits with a failure, so nothing may be erased whatever was asked
    let what = format!("{}: {}", f.name, c.text());
    if r.ok() && f.op.erase.is_some() {
        o.viol("erased-after-failure", format!("{what}: reports success; {}", r.text()));
    }
    c25_judge(o, sc, &f.s, &f.op, &before, &r, &what, &may);
}

/// Runs with an injected failure: the source goes only after the complete result is there.
fn c25_fault(o: &mut Obs, sc: &Scratch) {
    let sub = *o.rng.pick(&SUBS);
    let len = *o.rng.pick(&[0, 700, 3000, BLOCK + 50]);
    let s = Scene::new(&mut o.rng, sub, len);
    let mut op = opts(&mut o.rng, sub);
    op.src = *o.rng.pick(&[Src::Env, Src::File]);
    op.erase = o.rng.chance(4, 5).then_some(Some(1));
    op.force = true;
    let run = |fault: Option<String>| -> Result<(Res, Tree, String), String> {
        sc.reset();
        s.put(sc, &op);
        let before = trace::snapshot(&sc.w);
        let mut c = s.cmd(&op).traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0");
        if let Some(f) = fault {
            c = c.env("VT_FAULT", f);
        }
        let r = c.run(sc)?;
        Ok((r, before, c.text()))
    };
    let (r, _, text) = match run(None) {
        Ok(x) => x,
        Err(e) => return o.inconclusive(e),
    };
    if !r.ok() {
        return o.viol("fails", format!("{text}: fails; {}", r.text()));
    }
    let src = s.source_paths(sc, &op);
    // calls before the source is first written to
    let first = touched(&r, &src).map_or(u64::MAX, |x| x.seq);
    let calls: Vec<_> = r.trace.iter().filter(|x| x.inside() && x.kind != K::Close).map(|x| (x.seq < first, x.kind)).collect();
    let total = calls.len();
    let mut at: Vec<usize> = (0..total).collect();
    o.rng.shuffle(&mut at);
    // the calls just before erasing begins first: those that read what is hashed
    if op.erase.is_some() {
        let end = calls.iter().filter(|c| c.0).count();
        let mut late: Vec<usize> = (end.saturating_sub(12)..end).filter(|i| matches!(calls[*i].1, K::Read | K::Open)).collect();
        o.rng.shuffle(&mut late);
        late.truncate(3);
        at.splice(0..0, late);
    }
    for i in at.into_iter().take(9) {
        if !o.time_left() {
            return;
        }
        let errno = *o.rng.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE]);
        let sticky = if o.rng.chance(1, 4) { ":s" } else { "" };
        let (r, before, text) = match run(Some(format!("any:{i}:{errno}{sticky}"))) {
            Ok(x) => x,
            Err(e) => return o.inconclusive(e),
        };
        let Some(hit) = r.trace.iter().find(|x| x.injected()).cloned() else { continue };
        o.eval(&("fault", sub, hash_of(&op), i, errno, sticky), true);
        o.count("faults_fired", 1);
        let what = format!("{text}: {}", hit.brief());
        let gone = s.source_intact(sc, &op).is_err();
        if gone {
            o.count("source_erased_under_fault", 1);
            if op.hash {
                o.count("erased_and_hashed_under_fault", 1);
            }
            if op.erase.is_none() {
                o.viol("erased-unasked", format!("{what}: the source changed; {}", r.text()));
            } else if let Err(e) = s.done(sc, &op, &s.key) {
                o.viol("erased-after-failure", format!("{what}: the source was erased, but {e}; {}", r.text()));
            } else if op.hash && hexes(&[&r.stdout[..], &r.stderr[..], &r.tty[..]].concat()).is_empty() {
                o.viol("erased-after-failure", format!("{what}: the source was erased, but the hash that was asked for was never shown; {}", r.text()));
            } else if !r.ok() && sticky.is_empty() && hit.kind == K::Read && touched(&r, &src).is_some_and(|x| x.seq > hit.seq) {
                // the one failure came first, when reading (erasing does not read), and the command reports it
                o.viol("erased-after-failure", format!("{what}: the source was erased after that failure; {}", r.text()));
            }
        } else if op.erase.is_none() {
            let mut may = vec![s.out.as_str()];
            if sub.seals() && op.det {
                may.push(&s.hdr);
            }
            c25_judge(o, sc, &s, &op, &before, &r, &what, &may);
        }
    }
}

/// Refused prompts: nothing may be erased then.
fn c25_refused(o: &mut Obs, sc: &Scratch) {
    let sub = *o.rng.pick(&SUBS);
    let len = *o.rng.pick(&[0, 700, 3000]);
    let s = Scene::new(&mut o.rng, sub, len);
    let mut op = opts(&mut o.rng, sub);
    op.src = *o.rng.pick(&[Src::Env, Src::File]);
    op.erase = Some(None);
    op.force = false;
    sc.reset();
    s.put(sc, &op);
    let mut answers: Vec<u8> = vec![];
    let mut may = vec![];
    let n: &[u8] = *o.rng.pick(&[&b"n\n"[..], b"N\n", b"no\n", b""]);
    let kind = o.rng.below(3);
    match sub {
        Sub::Unpack => {
            // some of the files are there already
            let files: Vec<PathBuf> = s.tree.iter().filter(|(_, n)| matches!(n, Node::File(_))).map(|(p, _)| p.clone()).collect();
            let f = o.rng.pick(&files).clone();
            let p = sc.path(&s.out).join(&f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, b"other content").unwrap();
            // directories above it are asked about as well
            answers.extend(n.repeat(6));
            may.push(s.out.as_str());
        }
        Sub::Pack if kind == 0 => {
            // the question comes at the end
            answers.extend(n);
            may.extend([s.out.as_str(), s.hdr.as_str()]);
        }
        s2 if s2.seals() && op.det && kind == 1 => {
            sc.put(&s.hdr, b"an older header");
            answers.extend(n);
            may.push(s.out.as_str());
        }
        _ => {
            sc.put(&s.out, b"an older file");
            answers.extend(n);
        }
    }
    sc.own();
    let before = trace::snapshot(&sc.w);
    let c = s.cmd(&op).stdin(&answers).traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0");
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("refused", sub, kind, hash_of(&op), n), true);
    o.count("refused_runs", 1);
    let what = format!("answers {:?}: {}", String::from_utf8_lossy(&answers), c.text());
    c25_judge(o, sc, &s, &op, &before, &r, &what, &may);
}

/// Archives with an entry whose place is taken by the packed file itself, or by its header file.
fn c25_itself(o: &mut Obs, sc: &Scratch) {
    let r = &mut o.rng;
    let mut s = Scene::new(r, Sub::Unpack, 0);
    let name = *r.pick(&["x.enc", "d/x.enc", "d/g/y z", ".h2", "d/.e/in"]);
    let n = *r.pick(&[0, 1, 700, 5000]);
    let c = r.bytes(n);
    s.tree.insert(name.into(), Node::File(c));
    s.seal(r);
    let mut op = opts(r, Sub::Unpack);
    op.src = *r.pick(&[Src::Env, Src::File]);
    op.erase = r.chance(1, 3).then_some(Some(1));
    op.force = r.chance(2, 3);
    op.det = r.chance(1, 2);
    let header = op.det && r.chance(1, 2);
    let way = r.below(5);
    s.out = (*r.pick(&["res", "./res", "sub/../res", "res/."])).to_string();
    let at = format!("res/{name}");
    (s.inp, s.hdr) = ("in".into(), "head".into());
    match (way, header) {
        (0, false) => s.inp = at.clone(),
        (0, true) => s.hdr = at.clone(),
        _ => {}
    }
    sc.reset();
    std::fs::create_dir_all(sc.path(&at).parent().unwrap()).unwrap();
    s.put(sc, &op);
    let own = sc.path(if header { &s.hdr } else { &s.inp });
    match way {
        0 => {}
        1 => symlink(&own, sc.path(&at)).unwrap(),
        2 => std::fs::hard_link(&own, sc.path(&at)).unwrap(),
        3 => {
            symlink(&own, sc.path("between")).unwrap();
            symlink(sc.path("between"), sc.path(&at)).unwrap();
        }
        _ => {
            // the directory that the entry is in is a link to where the file is
            let d = sc.path("elsewhere");
            std::fs::create_dir_all(&d).unwrap();
            let f = d.join(Path::new(name).file_name().unwrap());
            std::fs::rename(&own, &f).unwrap();
            let rel = f.strip_prefix(&sc.w).unwrap().display().to_string();
            if header {
                s.hdr = rel;
            } else {
                s.inp = rel;
            }
            let parent = sc.path(&at).parent().unwrap().to_path_buf();
            if parent == sc.path("res") {
                std::fs::remove_dir_all(&parent).unwrap();
            } else {
                std::fs::remove_dir(&parent).unwrap();
            }
            symlink(&d, &parent).unwrap();
        }
    }
    sc.own();
    let (inp, hdr) = (sc.get(&s.inp), op.det.then(|| sc.get(&s.hdr)));
    let c = s.cmd(&op).stdin(b"y\ny\ny\ny\ny\ny\ny\ny\ny\ny\n");
    let res = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("itself", name, n, hash_of(&op), way, header), true);
    o.count("unpacked_onto_itself", 1);
    let d = |m: &str| format!("{} is {}, way {way}: {}: {m}; {}", at, if header { "the header" } else { "the packed file" }, c.text(), res.text());
    if res.crashed() {
        o.viol("crash", d("crashed"));
    }
    if sc.get(&s.inp) != inp {
        o.viol("changed", d("the packed file was changed or removed"));
    }
    if hdr.is_some_and(|h| sc.get(&s.hdr) != h) {
        o.viol("changed", d("the header file was changed or removed"));
    }
}

/// The result, or its header, is to go inside a directory that is to be erased.
fn c25_within(o: &mut Obs, sc: &Scratch) {
    let mut s = Scene::new(&mut o.rng, Sub::Pack, 0);
    let mut op = opts(&mut o.rng, Sub::Pack);
    op.src = *o.rng.pick(&[Src::Env, Src::File]);
    op.erase = Some(Some(1));
    op.det = o.rng.chance(3, 4);
    op.force = o.rng.chance(1, 2);
    op.recursive = true;
    s.inp = "in".into();
    sc.reset();
    s.put(sc, &op);
    let header = op.det && o.rng.chance(2, 3);
    let second = s.tree2.is_some() && o.rng.chance(2, 3);
    let d = if second { "in2" } else { "in" };
    let below: Vec<String> = trace::snapshot(&sc.path(d)).iter().filter(|(_, n)| matches!(n, Node::Dir)).map(|(p, _)| p.display().to_string()).collect();
    let deep = match o.rng.chance(1, 2) {
        true if !below.is_empty() => format!("{d}/{}", o.rng.pick(&below)),
        _ => d.to_string(),
    };
    let way = o.rng.below(9);
    let place = match way {
        0 => format!("./{deep}/o"),
        1 => format!("sub/../{deep}/.o"),
        2 => sc.path(&deep).join("o").display().to_string(),
        3 => {
            symlink(sc.path(&deep), sc.path("ln")).unwrap();
            "ln/o".into()
        }
        4 => {
            symlink(format!("{deep}/o"), sc.path("lk")).unwrap();
            "lk".into()
        }
        5 => {
            symlink("../lk", sc.path("sub/l2")).unwrap();
            symlink(sc.path(&deep).join("o"), sc.path("lk")).unwrap();
            "sub/l2".into()
        }
        _ => format!("{deep}/o"),
    };
    if header {
        s.hdr = place;
    } else {
        s.out = place;
    }
    if o.rng.chance(1, 4) {
        // what the path stands for is there already
        let p = sc.path(if header { &s.hdr } else { &s.out });
        let _ = std::fs::write(p, b"was here before");
    }
    let source = |sc: &Scratch| {
        let mut t = trace::snapshot(&sc.path("in"));
        t.extend(trace::snapshot(&sc.path("in2")).into_iter().map(|(p, n)| (Path::new("2").join(p), n)));
        t.retain(|p, _| !matches!(p.file_name().and_then(|n| n.to_str()), Some("o" | ".o")));
        t
    };
    sc.own();
    let before = source(sc);
    let res = match s.cmd(&op).stdin(b"y\ny\ny\ny\n").run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    o.eval(&("within", header, second, way, &deep, hash_of(&op)), true);
    o.count("results_within_the_source", 1);
    if header {
        o.count("headers_within_the_source", 1);
    }
    let say = |m: &str| format!("{}: {m}; {}", s.cmd(&op).text(), res.text());
    if res.crashed() {
        o.viol("crash", say("crashed"));
    }
    if source(sc) != before {
        if !res.ok() {
            o.viol("erased-after-failure", say("fails, and the source was changed"));
        } else if let Err(e) = s.open(sc, &op, &s.key) {
            o.viol("erased-with-the-result", say(&format!("the source was erased, but {e}")));
        }
    }
}

pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "Each case runs the program traced by the file operation monitor on a command that must be refused (aliased paths), fails, is refused at a prompt, or         has one system call fail, and compares the source before and after; non-trivial: distinct (command, switches, spelling or failure)."
        .into();
    ctx.assumptions = vec!["The password hashing crates are replaced by cheap functions with the same interface; see C30.".into()];
    ctx.min_evals = 400;
    for (n, c) in [("aliases_InOut", 40), ("aliases_InHdr", 40), ("aliases_OutHdr", 40), ("failing_runs", 150), ("failing_runs_with_erase", 60), ("faults_fired", 60), ("refused_runs", 40), ("unpacked_onto_itself", 25), ("results_within_the_source", 25), ("headers_within_the_source", 10)] {
        ctx.need(n, c);
    }
    ctx.par(1, ctx.pick(4, 80), |o| {
        let sc = Scratch::new();
        let mut i = 0;
        loop {
            for sub in SUBS {
                for pair in [Pair::InOut, Pair::InHdr, Pair::OutHdr] {
                    for exists in [true, false] {
                        for which in 0..16 {
                            i += 1;
                            if o.mine(i) {
                                c25_alias(o, &sc, sub, pair, exists, which);
                            }
                        }
                    }
                }
            }
            if !o.time_left() {
                break;
            }
        }
    });
    ctx.par(2, ctx.pick(4, 80), |o| {
        let sc = Scratch::new();
        loop {
            for sub in SUBS {
                let e = o.rng.chance(2, 3);
                for (i, f) in failing(&mut o.rng, sub, e).iter().enumerate() {
                    if o.mine(i) || o.rng.chance(1, 4) {
                        c25_failing(o, &sc, f);
                    }
                }
            }
            for _ in 0..6 {
                c25_refused(o, &sc);
                c25_itself(o, &sc);
                c25_within(o, &sc);
            }
            if !o.time_left() {
                break;
            }
        }
    });
    ctx.par(3, ctx.pick(5, 120), |o| {
        let sc = Scratch::new();
        while o.time_left() {
            c25_fault(o, &sc);
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C27

/// The questions asked, in order.
fn questions(text: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(text).to_string();
    let mut v = vec![];
    let mut at = 0;
    while let Some(i) = [t[at..].find("(Y/n)"), t[at..].find("(y/N)")].into_iter().flatten().min() {
        let end = at + i + 5;
        let line = t[at..end].rfind('\n').map_or(at, |i| at + i + 1);
        v.push(t[line..end].to_string());
        at = end;
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ans {
    Yes,
    No,
    Default,
    Unclear,
}

fn answer(r: &mut Rng, a: Ans) -> Vec<u8> {
    match a {
        Ans::Yes => r.pick(&[&b"y\n"[..], b"Y\n", b"yes\n", b"YES\n", b"Yes\n"]).to_vec(),
        Ans::No => r.pick(&[&b"n\n"[..], b"N\n", b"no\n", b"NO\n", b"No\n"]).to_vec(),
        Ans::Default => r.pick(&[&b"\n"[..], b"\r\n"]).to_vec(),
        Ans::Unclear => r.pick(&[&b"maybe\n"[..], b"x\n", b"1\n", b"0\n", b"?\n", b"ok\n", b"true\n", b"j\n", b" n\n", b"\tno\n", b"-n\n", "ä\n".as_bytes()]).to_vec(),
    }
}

fn answers(r: &mut Rng, n: usize) -> (Vec<Ans>, Vec<u8>) {
    let mut v = vec![];
    let all = match r.below(6) {
        0 => Some(Ans::Yes),
        1 => Some(Ans::No),
        2 => Some(Ans::Default),
        _ => None,
    };
    let n = if r.chance(1, 4) { r.below(n + 1) } else { n };
    for _ in 0..n {
        v.push(all.unwrap_or_else(|| *r.pick(&[Ans::Yes, Ans::Yes, Ans::No, Ans::Default, Ans::Unclear])));
    }
    let mut b = vec![];
    for a in &v {
        b.extend(answer(r, *a));
    }
    // what cannot be understood as text
    if r.chance(1, 20) {
        v.push(Ans::Unclear);
        b.extend_from_slice(b"\xFF\xFE");
    }
    (v, b)
}

struct Target {
    /// relative path
    path: PathBuf,
    /// how a question names it; empty: by being the n-th about a directory
    name: String,
    nth: usize,
}

/// One run with existing targets and a script of answers. `declining` judges only what C26 says of
/// a declined prompt: that nothing changes.
fn c27_case(o: &mut Obs, sc: &Scratch, declining: bool) {
    sc.reset();
    let kind = if declining { o.rng.below(3) } else { o.rng.below(6) };
    let sub = match kind {
        0 | 1 => *o.rng.pick(&[Sub::Encrypt, Sub::Pack]),
        2 => Sub::Decrypt,
        3 => Sub::Unpack,
        _ => Sub::Pack,
    };
    let len = *o.rng.pick(&[0, 1, 700, 3000]);
    let mut s = Scene::new(&mut o.rng, sub, len);
    s.inp = "in".into();
    s.out = "outfile".into();
    s.hdr = "hdrfile".into();
    let f = |r: &mut Rng| {
        let n = r.below(900);
        Node::File(gen::content(r, n))
    };
    if sub == Sub::Unpack {
        s.tree = Tree::new();
        for n in ["alpha.txt", "d1/beta", "d1/d2/gamma", ".delta", "epsilon zz", "d1/.zeta"] {
            s.tree.insert(n.into(), f(&mut o.rng));
        }
        if o.rng.chance(1, 2) {
            // names that come up in several places
            for n in ["d1/alpha.txt", "d1/d2/alpha.txt", "beta", "d3/gamma"] {
                s.tree.insert(n.into(), f(&mut o.rng));
            }
        }
        s.tree.insert("d1".into(), Node::Dir);
        s.tree.insert("d1/d2".into(), Node::Dir);
        s.tree.insert("d3".into(), Node::Dir);
        s.seal(&mut o.rng);
    }
    let mut op = opts(&mut o.rng, sub);
    op.src = *o.rng.pick(&[Src::Env, Src::File]);
    op.force = !declining && o.rng.chance(1, 4);
    op.det |= declining && sub.seals() && o.rng.chance(2, 3);
    op.erase = (sub == Sub::Pack && o.rng.chance(1, 2) && kind > 3).then_some(None);
    let erase_cmd = kind == 5 && o.rng.chance(1, 2);
    s.put(sc, &op);
    let mut t: Vec<Target> = vec![];
    let target = |p: &str, name: &str| Target {
        path: p.into(),
        name: name.into(),
        nth: 0,
    };
    if erase_cmd {
        t.push(target("in", ""));
    } else {
        let n = o.rng.range(1, 600);
        let old = o.rng.bytes(n);
        if sub == Sub::Unpack {
            let files: Vec<PathBuf> = s.tree.iter().filter(|(_, n)| matches!(n, Node::File(_))).map(|(p, _)| p.clone()).collect();
            for p in files.iter() {
                if o.rng.chance(if files.len() > 6 { 3 } else { 2 }, 4) {
                    let full = PathBuf::from(&s.out).join(&p);
                    sc.put(full.to_str().unwrap(), if o.rng.chance(1, 4) { b"" } else { &old });
                    t.push(target(full.to_str().unwrap(), p.file_name().unwrap().to_str().unwrap()));
                }
            }
        } else {
            if o.rng.chance(3, 4) {
                if o.rng.chance(1, 5) {
                    // a link to an existing file
                    sc.put("linked", &old);
                    symlink("linked", sc.path(&s.out)).unwrap();
                    t.push(target("linked", &s.out));
                } else {
                    sc.put(&s.out, if o.rng.chance(1, 8) { b"" } else { &old });
                }
                t.push(target(&s.out, &s.out));
            }
            if sub.seals() && op.det && o.rng.chance(3, 4) {
                sc.put(&s.hdr, if o.rng.chance(1, 8) { b"" } else { &old });
                t.push(target(&s.hdr, &s.hdr));
            }
            if op.erase.is_some() {
                t.push(target("in", ""));
                if s.tree2.is_some() {
                    t.push(Target {
                        path: "in2".into(),
                        name: String::new(),
                        nth: 1,
                    });
                }
            }
        }
    }
    sc.own();
    let n = t.len() + 4;
    let (ans, text) = if op.force {
        (vec![], vec![])
    } else if declining && o.rng.chance(1, 2) {
        let (y, n) = (*o.rng.pick(&[Ans::Yes, Ans::Default]), Ans::No);
        (vec![y, n], [answer(&mut o.rng, y), answer(&mut o.rng, n)].concat())
    } else {
        answers(&mut o.rng, n)
    };
    let before = trace::snapshot(&sc.w);
    let c = if erase_cmd {
        let mut a = vec!["erase", "in"];
        if op.force {
            a.push("-f");
        }
        Cmd::cli(&a)
    } else {
        s.cmd(&op)
    };
    let c = c.stdin(&text).traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0");
    let r = match c.run(sc) {
        Ok(r) => r,
        Err(e) => return o.inconclusive(e),
    };
    let q = questions(&[&r.stdout[..], &r.stderr, &r.tty].concat());
    o.eval(&(kind, sub, hash_of(&op), erase_cmd, hash_of(&text), t.len()), !t.is_empty());
    if declining {
        return declined(o, sc, &c, &r, &before, &q, &ans, &text);
    }
    o.count("questions", q.len() as u64);
    o.count("existing_targets", t.len() as u64);
    if op.force {
        o.count("forced_runs", 1);
    }
    o.sample(|| format!("{} answered {:?}, {} existing", c.text(), String::from_utf8_lossy(&text), t.len()));
    let d = |m: &str| format!("{} answered {:?}: {m}; {}", c.text(), String::from_utf8_lossy(&text), r.text());
    if r.crashed() {
        o.viol("crash", d("crashed"));
    }
    let done = |sc: &Scratch| -> Result<(), String> {
        if erase_cmd {
            return if sc.path("in").exists() { Err("the directory is still there".into()) } else { Ok(()) };
        }
        if op.erase.is_some() && sc.path("in").exists() {
            return Err("the directory is still there".into());
        }
        s.done(sc, &op, &s.key)
    };
    if op.force {
        if !q.is_empty() {
            o.viol("asked-with-force", d(&format!("asks {:?}", q[0])));
        }
        if let (false, _) | (_, Err(_)) = (r.ok(), done(sc)) {
            o.viol("force-fails", d(&format!("does not do its work: {:?}", done(sc))));
        }
        return;
    }
    let given = |i: usize| -> Option<bool> {
        match ans.get(i)? {
            Ans::Yes => Some(true),
            Ans::No => Some(false),
            Ans::Default => Some(q[i].ends_with("(Y/n)")),
            Ans::Unclear => None,
        }
    };
    let after = trace::snapshot(&sc.w);
    // (the question names the file, not its directory: of several with the same name, as many may change as were agreed to)
    let mut groups: std::collections::BTreeMap<&str, Vec<&Target>> = std::collections::BTreeMap::new();
    for x in t.iter().filter(|x| !x.name.is_empty()) {
        groups.entry(&x.name).or_default().push(x);
    }
    for (name, g) in groups.iter().filter(|(_, g)| g.len() > 1) {
        let agreed = (0..q.len()).filter(|i| q[*i].contains(name) && given(*i) == Some(true)).count();
        let changed = g.iter().filter(|x| before.get(&x.path) != after.get(&x.path) || touched(&r, &[sc.w.join(&x.path)]).is_some()).count();
        o.count("targets_with_the_same_name", g.len() as u64);
        if changed > agreed {
            o.viol("changed-unasked", d(&format!("{changed} files {name} were changed, and {agreed} times the answer was yes")));
        }
    }
    for x in t.iter().filter(|x| groups.get(x.name.as_str()).is_none_or(|g| g.len() == 1)) {
        let about: Vec<usize> = (0..q.len()).filter(|i| if x.name.is_empty() { q[*i].contains("director") } else { q[*i].contains(&x.name) }).collect();
        let consent = if x.name.is_empty() {
            // answers to the nth directory that was asked about: unclear ones are asked again
            let clear: Vec<bool> = about.iter().filter_map(|i| given(*i)).collect();
            clear.get(x.nth).copied()
        } else {
            about.iter().filter_map(|i| given(*i)).next_back()
        };
        if consent == Some(true) {
            o.count("consented", 1);
            continue;
        }
        o.count(if consent.is_none() { "no_answer" } else { "refused" }, 1);
        let same = |a: &Tree, b: &Tree| -> bool {
            let f = |t: &Tree| t.iter().filter(|(p, _)| p.starts_with(&x.path)).map(|(p, n)| (p.clone(), n.clone())).collect::<Tree>();
            f(a) == f(b)
        };
        let why = if consent.is_none() { "without an answer" } else { "after a no" };
        if !same(&before, &after) {
            o.viol(if consent.is_none() { "changed-unasked" } else { "changed-after-no" }, d(&format!("{} was changed {why}", x.path.display())));
        } else if let Some(op) = touched(&r, &[sc.w.join(&x.path)]) {
            o.viol("touched", d(&format!("{} {why}", op.brief())));
        }
    }
    // all questions answered with yes: then it is done
    if (0..q.len()).all(|i| given(i) == Some(true)) {
        if let (false, _) | (_, Err(_)) = (r.ok(), done(sc)) {
            o.viol("yes-fails", d(&format!("does not do its work: {:?}", done(sc))));
        }
        o.count("all_yes", 1);
    }
}

/// a question about overwriting an output that was answered with no is the last one, and nothing
/// has changed
#[allow(clippy::too_many_arguments)]
fn declined(o: &mut Obs, sc: &Scratch, c: &Cmd, r: &Res, before: &Tree, q: &[String], ans: &[Ans], text: &[u8]) {
    let Some(i) = (0..q.len()).find(|i| ans.get(*i) == Some(&Ans::No)) else { return };
    let d = |m: &str| format!("{} answered {:?} to {q:?}: {m}; {}", c.text(), String::from_utf8_lossy(text), r.text());
    o.count("declined", 1);
    o.count(if i == 0 { "declined_the_first" } else { "declined_a_later_one" }, 1);
    if !r.ok() {
        o.viol("declined-fails", d("does not exit with zero"));
    }
    let after = trace::snapshot(&sc.w);
    if *before != after {
        let x = before.keys().chain(after.keys()).find(|p| before.get(*p) != after.get(*p)).unwrap();
        o.viol("declined-changes", d(&format!("{} changed", x.display())));
    }
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule = "Each case runs the program traced, with existing outputs, headers, unpack targets or directories to erase and a script of answers; a target may \
        only change (or be touched by any modifying call) when the question that names it was answered with yes; non-trivial: distinct cases with such a target."
        .into();
    ctx.assumptions = vec![
        "The password hashing crates are replaced by cheap functions with the same interface; see C30.".into(),
        "Questions are recognised by (Y/n) or (y/N) and the name of the file in what the program prints.".into(),
    ];
    ctx.min_evals = 500;
    for (n, c) in [("questions", 300), ("consented", 100), ("refused", 100), ("no_answer", 100), ("forced_runs", 100), ("all_yes", 50), ("targets_with_the_same_name", 60)] {
        ctx.need(n, c);
    }
    ctx.par(1, ctx.pick(9, 200), |o| {
        let sc = Scratch::new();
        let mut n = 0;
        while o.time_left() || n < 80 {
            c27_case(o, &sc, false);
            n += 1;
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C33

fn c33_case(o: &mut Obs, sc: &Scratch, s: &Scene, op: &Opts, cap: usize) {
    let run = |kill: Option<String>| -> Result<(Res, String), String> {
        sc.reset();
        s.put(sc, op);
        let mut c = s.cmd(op).traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0");
        if let Some(k) = kill {
            c = c.env("VT_KILL", k);
        }
        Ok((c.run(sc)?, c.text()))
    };
    let (r, text) = match run(None) {
        Ok(x) => x,
        Err(e) => return o.inconclusive(e),
    };
    if let (false, _) | (_, Err(_)) = (r.ok(), s.done(sc, op, &s.key)) {
        return o.viol("fails", format!("{text}: {:?}; {}", s.done(sc, op, &s.key), r.text()));
    }
    let muts: Vec<&trace::Rec> = r.trace.iter().filter(|x| x.inside() && (x.modifies() || x.truncating_open())).collect();
    let src = s.source_paths(sc, op);
    let first = muts.iter().position(|x| src.iter().any(|p| x.path.starts_with(p)));
    let mut ks: Vec<(usize, bool)> = vec![];
    for (k, x) in muts.iter().enumerate() {
        ks.push((k, false));
        if x.kind == K::Write {
            ks.push((k, true));
        }
    }
    if ks.len() > cap {
        // those around the place where erasing starts in any case
        let f = first.unwrap_or(0);
        let near: Vec<_> = ks.iter().copied().filter(|(k, _)| k + 4 >= f && *k <= f + 4).collect();
        o.rng.shuffle(&mut ks);
        ks.truncate(cap);
        ks.extend(near);
    }
    for (k, half) in ks {
        if !o.time_left() {
            return;
        }
        let (r, text) = match run(Some(format!("{k}{}", if half { ":half" } else { "" }))) {
            Ok(x) => x,
            Err(e) => return o.inconclusive(e),
        };
        let killed = r.signal == Some(libc::SIGKILL);
        o.eval(&(s.sub, hash_of(op), hash_of(&s.pt), k, half), killed);
        if killed {
            o.count("killed", 1);
        } else if r.crashed() {
            o.viol("crash", format!("{text}: crashed; {}", r.text()));
        }
        let Err(gone) = s.source_intact(sc, op) else {
            o.count("source_intact", 1);
            continue;
        };
        if op.erase.is_none() {
            o.viol("source-changed", format!("{text}: killed at modifying call {k}: {gone} although no erasing was asked for; {}", r.text()));
        } else if let Err(e) = s.done(sc, op, &s.key) {
            o.viol("both-lost", format!("{text}: killed at modifying call {k}: {gone}, and {e}; {}", r.text()));
        } else {
            o.count("result_complete", 1);
        }
    }
}

/// Packing into the directory that is erased afterwards.
fn c33_inside(o: &mut Obs, sc: &Scratch) {
    let s0 = Scene::new(&mut o.rng, Sub::Pack, 100);
    for (out, hdr) in [("in/out", "h"), ("out", "in/h"), ("in/d/out", "h"), ("./in/../in/out", "h"), ("lnk/out", "h"), ("out", "lnk/d/h")] {
        for force in [true, false] {
            sc.reset();
            let mut s = s0.clone();
            (s.inp, s.out, s.hdr, s.tree2) = ("in".into(), out.into(), hdr.into(), None);
            let mut op = Opts::plain();
            (op.det, op.erase, op.force, op.style) = (hdr != "h", Some(None), force, o.rng.u64());
            s.put(sc, &op);
            symlink("in", sc.path("lnk")).unwrap();
            sc.own();
            let c = s.cmd(&op).stdin(b"y\ny\ny\n");
            let r = match c.run(sc) {
                Ok(r) => r,
                Err(e) => return o.inconclusive(e),
            };
            o.eval(&("inside", out, hdr, force), true);
            let gone = arch::tree_equals(&sc.path("in"), &s.tree).is_err();
            if gone && !s.tree.iter().all(|(p, n)| !matches!(n, Node::File(_)) || sc.path("in").join(p).exists()) {
                if let Err(e) = s.open(sc, &op, &s.key) {
                    o.viol("both-lost", format!("{}: the source is erased, and {e}; {}", c.text(), r.text()));
                }
            }
        }
    }
}

/// Key and header operations that are killed: the file is as it was, or the operation is complete.
fn c33_inplace(o: &mut Obs, sc: &Scratch) {
    for j in crate::io::jobs(&mut o.rng) {
        if !["key_add", "key_change", "key_delete", "strip", "restore"].contains(&j.name.as_str()) {
            continue;
        }
        let run = |kill: Option<usize>| -> Result<(Res, Option<Vec<u8>>), String> {
            sc.reset();
            (j.setup)(sc);
            sc.own();
            let before = sc.get("in");
            let mut c = j.cmd.clone().traced().env("VT_NODATA", "1").env("VT_DATAMAX", "0");
            if let Some(k) = kill {
                c = c.env("VT_KILL", k.to_string());
            }
            Ok((c.run(sc)?, before))
        };
        let (r, _) = match run(None) {
            Ok(x) => x,
            Err(e) => return o.inconclusive(e),
        };
        if let (false, _) | (_, Err(_)) = (r.ok(), (j.complete)(sc, &r)) {
            return o.viol("fails", format!("{}: {:?}; {}", j.cmd.text(), (j.complete)(sc, &r), r.text()));
        }
        let n = r.trace.iter().filter(|x| x.inside() && (x.modifies() || x.truncating_open())).count();
        for k in 0..n {
            let (r, before) = match run(Some(k)) {
                Ok(x) => x,
                Err(e) => return o.inconclusive(e),
            };
            let killed = r.signal == Some(libc::SIGKILL);
            o.eval(&("inplace", &j.name, hash_of(&before), k), killed);
            o.count("killed_in_place", u64::from(killed));
            if sc.get("in") == before {
                continue;
            }
            if let Err(e) = (j.complete)(sc, &r) {
                o.viol("half-done", format!("{}: killed at modifying call {k}: the file is not as it was, and {e}; {}", j.cmd.text(), r.text()));
            }
        }
    }
}

pub fn c33(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "Each case kills the program before one of its modifying system calls (or in the middle of a write) and then looks at what is on disk: the source in \
        full, or a result that the independent decoder opens in full; non-trivial: distinct (command, switches, content, place) where the kill happened."
        .into();
    ctx.assumptions = vec![
        "A crash of the program, not of the machine: what was written before is there afterwards.".into(),
        "The password hashing crates are replaced by cheap functions with the same interface; see C30.".into(),
    ];
    ctx.min_evals = 300;
    ctx.need("killed", 300);
    ctx.need("result_complete", 40);
    ctx.need("killed_in_place", 20);
    ctx.need("source_intact", 100);
    ctx.par(1, ctx.pick(10, 250), |o| {
        let sc = Scratch::new();
        if o.worker == 0 {
            c33_inside(o, &sc);
        }
        for _ in 0..if o.thorough { 6 } else { 1 } {
            c33_inplace(o, &sc);
        }
        let mut i = 0;
        loop {
            for sub in SUBS {
                for len in [700, 0, BLOCK + 50, 2 * BLOCK] {
                    for erase in [Some(Some(1)), None, Some(Some(2))] {
                        i += 1;
                        if !o.mine(i) || !o.time_left() || (sub == Sub::Unpack && erase.is_some()) {
                            continue;
                        }
                        let s = Scene::new(&mut o.rng, sub, len);
                        let mut op = opts(&mut o.rng, sub);
                        op.src = *o.rng.pick(&[Src::Env, Src::File]);
                        op.erase = erase;
                        op.force = true;
                        o.sample(|| format!("{}, killed at every modifying call", s.cmd(&op).text()));
                        c33_case(o, &sc, &s, &op, if o.thorough { 400 } else { 60 });
                    }
                }
            }
            if !o.time_left() {
                break;
            }
        }
    });
}
