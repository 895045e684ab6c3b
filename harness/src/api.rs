//! The library's public functions with arguments that hostile files and careless callers lead to: lengths one off,
//! nothing at all, headers without keyslots. What they answer does not matter here; an instrumented build watches.
//! Used by the harness and by the program for Miri.
use corecrypto::cipher::Ciphers;
use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
use corecrypto::key::{decrypt_master_key, generate_passphrase, vec_to_arr};
use corecrypto::primitives::{gen_nonce, get_nonce_len, Algorithm, Mode};
use corecrypto::protected::Protected;
use corecrypto::stream::{DecryptionStreams, EncryptionStreams};
use corecrypto::Payload;
use std::cell::RefCell;
use std::io::Cursor;

const ALGS: [Algorithm; 3] = [Algorithm::XChaCha20Poly1305, Algorithm::Aes256Gcm, Algorithm::DeoxysII256];
const VERSIONS: [HeaderVersion; 5] = [HeaderVersion::V1, HeaderVersion::V2, HeaderVersion::V3, HeaderVersion::V4, HeaderVersion::V5];
const FAST: HashingAlgorithm = HashingAlgorithm::Argon2id(3);

pub struct Api<'a> {
    /// a number below
    pub below: &'a mut dyn FnMut(usize) -> usize,
    /// calls and survives a panic
    pub run: &'a dyn Fn(&mut dyn FnMut()),
    /// where results go
    pub leave: &'a dyn Fn(&[u8]),
    pub calls: u64,
}

fn key(b: &[u8]) -> Protected<Vec<u8>> {
    Protected::new(b.to_vec())
}

/// A vector that owns exactly as much memory as it has bytes.
fn exact(n: usize, b: u8) -> Vec<u8> {
    vec![b; n].into_boxed_slice().into_vec()
}

impl Api<'_> {
    fn call(&mut self, f: &mut dyn FnMut()) {
        self.calls += 1;
        (self.run)(f);
    }
    fn mode(&mut self) -> Mode {
        if (self.below)(2) == 0 {
            Mode::StreamMode
        } else {
            Mode::MemoryMode
        }
    }

    fn arrays(&mut self) {
        macro_rules! n {
            ($($n:literal),*) => {$(
                let len = match (self.below)(4) {
                    0 => 0,
                    1 => $n,
                    2 => usize::max($n, 1) - 1,
                    _ => (self.below)($n + 4),
                };
                let leave = self.leave;
                self.call(&mut || leave(&vec_to_arr::<$n>(exact(len, 7))));
            )*};
        }
        n!(0, 1, 16, 31, 32, 33, 48, 64, 100);
    }

    fn odd_len(&mut self, around: usize) -> usize {
        match (self.below)(5) {
            0 => around,
            1 => around + 1,
            2 => around.saturating_sub(1),
            3 => 0,
            _ => (self.below)(2 * around + 3),
        }
    }

    fn ciphers(&mut self, large: bool) {
        let leave = self.leave;
        for alg in ALGS {
            for mode in [Mode::StreamMode, Mode::MemoryMode] {
                self.call(&mut || leave(&gen_nonce(&alg, &mode)));
                let n = get_nonce_len(&alg, &mode);
                let nonce = exact(self.odd_len(n), 3);
                let short = exact(self.odd_len(16), 4);
                let msg = exact(self.odd_len(20), 5);
                let aad = exact((self.below)(40), 6);
                self.call(&mut || {
                    if mode == Mode::MemoryMode {
                        let c = Ciphers::initialize(Protected::new([9; 32]), &alg).unwrap();
                        let _ = c.decrypt(&nonce, &short[..]);
                        let mut v = msg.clone();
                        let _ = c.encrypt_in_place(&nonce, &aad, &mut v);
                        leave(&v);
                        if let Ok(v) = c.encrypt(&nonce, Payload { msg: &msg, aad: &aad }) {
                            leave(&v);
                            let _ = c.decrypt(&nonce, Payload { msg: &v[1..], aad: &aad });
                        }
                    } else {
                        if let Ok(mut e) = EncryptionStreams::initialize(Protected::new([9; 32]), &nonce, &alg) {
                            leave(&e.encrypt_next(Payload { msg: &msg, aad: &aad }).unwrap());
                            leave(&e.encrypt_last(&b""[..]).unwrap());
                        }
                        if let Ok(mut d) = DecryptionStreams::initialize(Protected::new([9; 32]), &nonce, &alg) {
                            let _ = d.decrypt_next(Payload { msg: &short, aad: &aad });
                            let _ = d.decrypt_last(&short[..]);
                        }
                        if !large {
                            return;
                        }
                        if let Ok(d) = DecryptionStreams::initialize(Protected::new([9; 32]), &nonce, &alg) {
                            let mut w = vec![];
                            let _ = d.decrypt_file(&mut &short[..], &mut w, &aad);
                            leave(&w);
                        }
                    }
                });
            }
        }
    }

    /// A header built by hand, as whoever uses the library may.
    fn header(&mut self) -> Header {
        let (version, algorithm, mode) = (VERSIONS[(self.below)(5)], ALGS[(self.below)(3)], self.mode());
        let slot_nonce = get_nonce_len(&algorithm, &Mode::MemoryMode);
        let slots = match (self.below)(4) {
            0 => None,
            1 => Some(0),
            _ => Some(1 + (self.below)(5)),
        };
        let keyslots = slots.map(|n| {
            let mut v = vec![];
            for _ in 0..n {
                let nonce = if (self.below)(3) > 0 { slot_nonce } else { self.odd_len(slot_nonce) };
                v.push(Keyslot {
                    hash_algorithm: if (self.below)(3) > 0 {
                        FAST
                    } else {
                        HashingAlgorithm::Blake3Balloon((self.below)(7) as i32)
                    },
                    encrypted_key: [1; 48],
                    nonce: exact(nonce, 2),
                    salt: [4; 16],
                });
            }
            v
        });
        let n = get_nonce_len(&algorithm, &mode);
        let nonce = exact(if (self.below)(3) > 0 { n } else { self.odd_len(n) }, 1);
        Header {
            header_type: HeaderType { version, algorithm, mode },
            nonce,
            salt: ((self.below)(2) == 0).then_some([5; 16]),
            keyslots,
        }
    }

    fn headers(&mut self, n: usize, large: bool) {
        let leave = self.leave;
        for _ in 0..n {
            let h = self.header();
            self.call(&mut || {
                if let Ok(b) = h.serialize() {
                    leave(&b);
                    if let Ok((h, aad)) = Header::deserialize(&mut Cursor::new(b)) {
                        leave(&aad);
                        if large || h.keyslots.as_ref().is_some_and(|k| k.is_empty()) {
                            let _ = decrypt_master_key(key(b"k"), &h);
                        }
                    }
                }
            });
            self.call(&mut || {
                if let Ok(b) = h.create_aad() {
                    leave(&b);
                }
            });
            self.call(&mut || {
                let mut small = [0u8; 100];
                let _ = h.write(&mut &mut small[..]);
                leave(&small);
                leave(&h.get_size().to_le_bytes());
            });
            if large || h.keyslots.as_ref().is_none_or(|k| k.is_empty()) && h.salt.is_none() {
                self.call(&mut || {
                    if let Ok(k) = decrypt_master_key(key(b"k"), &h) {
                        leave(k.expose());
                    }
                });
            }
            for k in h.keyslots.iter().flatten() {
                leave(&k.serialize());
            }
            // cut off anywhere, with the stream somewhere
            let (cut, pos) = ((self.below)(420), (self.below)(20) as u64 * ((self.below)(2) as u64));
            self.call(&mut || {
                if let Ok(b) = h.serialize() {
                    let mut c = Cursor::new(&b[..cut.min(b.len())]);
                    c.set_position(pos);
                    let _ = Header::deserialize(&mut c);
                }
            });
        }
        for a in [
            HashingAlgorithm::Argon2id((self.below)(7) as i32 - 1),
            HashingAlgorithm::Blake3Balloon((self.below)(4) as i32 - 1),
            HashingAlgorithm::Argon2id(i32::MIN),
            HashingAlgorithm::Blake3Balloon(i32::MAX),
            FAST,
        ] {
            let pw = exact((self.below)(3) * (self.below)(70), b'p');
            if large || a != FAST {
                self.call(&mut || {
                    if let Ok(k) = a.hash(Protected::new(pw.clone()), &[3; 16]) {
                        leave(k.expose());
                    }
                });
            }
        }
        for w in [1, i32::MIN, -1, 0, (self.below)(20) as i32].into_iter().take(if large { 5 } else { 0 }) {
            self.call(&mut || leave(generate_passphrase(&w).expose().as_bytes()));
        }
    }

    /// Every operation on a version 5 file with `slots` keyslots (no key opens any of them).
    fn slots(&mut self, slots: usize) {
        let leave = self.leave;
        let algorithm = ALGS[(self.below)(3)];
        let h = Header {
            header_type: HeaderType {
                version: HeaderVersion::V5,
                algorithm,
                mode: self.mode(),
            },
            nonce: vec![],
            salt: None,
            keyslots: Some(
                (0..slots)
                    .map(|i| Keyslot {
                        hash_algorithm: FAST,
                        encrypted_key: [i as u8; 48],
                        nonce: exact(get_nonce_len(&algorithm, &Mode::MemoryMode), 2),
                        salt: [4; 16],
                    })
                    .collect(),
            ),
        };
        let h = Header {
            nonce: exact(get_nonce_len(&algorithm, &h.header_type.mode), 8),
            ..h
        };
        let mut file = h.serialize().unwrap();
        file.extend(exact(self.odd_len(30), 6));
        let io = || RefCell::new(Cursor::new(file.clone()));
        macro_rules! op {
            ($h:ident, $e:expr) => {
                self.call(&mut || {
                    let $h = io();
                    let _ = $e;
                    leave($h.borrow().get_ref());
                })
            };
        }
        op!(
            h,
            tools::key::verify::execute(tools::key::verify::Request {
                handle: &h,
                raw_key: key(b"k")
            })
        );
        op!(
            h,
            tools::key::delete::execute(tools::key::delete::Request {
                handle: &h,
                raw_key_old: key(b"k")
            })
        );
        op!(
            h,
            tools::key::add::execute(tools::key::add::Request {
                handle: &h,
                raw_key_old: key(b"k"),
                raw_key_new: key(b"n"),
                hash_algorithm: FAST
            })
        );
        op!(
            h,
            tools::key::change::execute(tools::key::change::Request {
                handle: &h,
                raw_key_old: key(b"k"),
                raw_key_new: key(b"n"),
                hash_algorithm: FAST
            })
        );
        op!(h, tools::header::strip::execute(tools::header::strip::Request { handle: &h }));
        op!(h, {
            let w = RefCell::new(Cursor::new(vec![]));
            let r = tools::header::dump::execute(tools::header::dump::Request { reader: &h, writer: &w });
            let h2 = io();
            let w = RefCell::new(Cursor::new(w.into_inner().into_inner()));
            let _ = tools::header::restore::execute(tools::header::restore::Request { reader: &w, writer: &h2 });
            r
        });
        op!(h, {
            let w = RefCell::new(Cursor::new(vec![]));
            let r = tools::decrypt::execute(tools::decrypt::Request {
                header_reader: None,
                reader: &h,
                writer: &w,
                raw_key: key(b"k"),
                on_decrypted_header: None,
            });
            leave(w.borrow().get_ref());
            r
        });
    }

    /// The last key deleted: what is left has no keyslot.
    fn deleted(&mut self) {
        let leave = self.leave;
        let algorithm = ALGS[(self.below)(3)];
        let n = (self.below)(40);
        self.call(&mut || {
            let (r, w) = (RefCell::new(Cursor::new(exact(n, 1))), RefCell::new(Cursor::new(vec![])));
            tools::encrypt::execute(tools::encrypt::Request {
                reader: &r,
                writer: &w,
                header_writer: None,
                raw_key: key(b"k"),
                header_type: HeaderType {
                    version: HeaderVersion::V5,
                    algorithm,
                    mode: Mode::StreamMode,
                },
                hashing_algorithm: FAST,
            })
            .unwrap();
            let io = RefCell::new(Cursor::new(w.into_inner().into_inner()));
            tools::key::delete::execute(tools::key::delete::Request {
                handle: &io,
                raw_key_old: key(b"k"),
            })
            .unwrap();
            let file = io.into_inner().into_inner();
            let (r, w) = (RefCell::new(Cursor::new(file.clone())), RefCell::new(Cursor::new(vec![])));
            let _ = tools::decrypt::execute(tools::decrypt::Request {
                header_reader: None,
                reader: &r,
                writer: &w,
                raw_key: key(b"k"),
                on_decrypted_header: None,
            });
            leave(w.borrow().get_ref());
            let h = RefCell::new(Cursor::new(file));
            let _ = tools::key::verify::execute(tools::key::verify::Request {
                handle: &h,
                raw_key: key(b"k"),
            });
        });
    }

    /// `large`: with much password hashing and blocks of the real size, too slow for Miri
    pub fn exercise(&mut self, headers: usize, large: bool) {
        self.arrays();
        self.ciphers(large);
        self.headers(headers, large);
        for n in [0, if large { 1 + (self.below)(4) } else { 1 }] {
            self.slots(n);
        }
        if large {
            self.deleted();
        }
    }
}
