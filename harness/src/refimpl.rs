//! An independent encoder and decoder of the file format, written from its documentation. It
//! shares the AEAD and password hashing crates with the library, and nothing else.
use crate::ops::{Alg, Kdf};
use aead::{Aead, KeyInit, Payload};

pub const BLOCK: usize = 1 << 20;
pub const TAG: usize = 16;

pub fn derive(kdf: Kdf, password: &[u8], salt: &[u8; 16]) -> [u8; 32] {
    let mut key = [0u8; 32];
    match kdf {
        Kdf::Argon(v) => {
            let (m, t, p) = match v {
                1 => (8 * 1024, 8, 4),
                2 => (256 * 1024, 8, 4),
                3 => (256 * 1024, 10, 4),
                _ => panic!("no such argon2id parameters"),
            };
            argon2::Argon2::new(
                argon2::Algorithm::Argon2id,
                argon2::Version::V0x13,
                argon2::Params::new(m, t, p, Some(32)).unwrap(),
            )
            .hash_password_into(password, salt, &mut key)
            .unwrap();
        }
        Kdf::Balloon(v) => {
            let s = match v {
                4 => 262_144,
                5 => 278_528,
                _ => panic!("no such balloon parameters"),
            };
            balloon_hash::Balloon::<blake3::Hasher>::new(
                balloon_hash::Algorithm::Balloon,
                balloon_hash::Params::new(s, 1, 1).unwrap(),
                None,
            )
            .hash_into(password, salt, &mut key)
            .unwrap();
        }
    }
    key
}

/// The nonce length of the algorithm used on its own.
pub fn nonce_len(alg: Alg) -> usize {
    match alg {
        Alg::X => 24,
        Alg::A => 12,
        Alg::D => 15,
    }
}

pub fn seal(alg: Alg, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    assert_eq!(nonce.len(), nonce_len(alg));
    let p = Payload { msg, aad };
    match alg {
        Alg::X => chacha20poly1305::XChaCha20Poly1305::new(key.into()).encrypt(nonce.into(), p),
        Alg::A => aes_gcm::Aes256Gcm::new(key.into()).encrypt(nonce.into(), p),
        Alg::D => deoxys::DeoxysII256::new(key.into()).encrypt(nonce.into(), p),
    }
    .expect("seal")
}

pub fn open(alg: Alg, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
    if nonce.len() != nonce_len(alg) || msg.len() < TAG {
        return None;
    }
    let p = Payload { msg, aad };
    match alg {
        Alg::X => chacha20poly1305::XChaCha20Poly1305::new(key.into()).decrypt(nonce.into(), p),
        Alg::A => aes_gcm::Aes256Gcm::new(key.into()).decrypt(nonce.into(), p),
        Alg::D => deoxys::DeoxysII256::new(key.into()).decrypt(nonce.into(), p),
    }
    .ok()
}

pub fn stream_nonce(prefix: &[u8], counter: u32, last: bool) -> Vec<u8> {
    let mut n = prefix.to_vec();
    n.extend_from_slice(&(counter | (u32::from(last) << 31)).to_le_bytes());
    n
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Slot {
    pub kdf: Kdf,
    pub enckey: [u8; 48],
    pub nonce: Vec<u8>,
    pub salt: [u8; 16],
}

impl Slot {
    pub fn make(alg: Alg, kdf: Kdf, password: &[u8], salt: [u8; 16], nonce: Vec<u8>, master: &[u8; 32]) -> Slot {
        let k = derive(kdf, password, &salt);
        let e = seal(alg, &k, &nonce, &[], master);
        Slot {
            kdf,
            enckey: e.try_into().unwrap(),
            nonce,
            salt,
        }
    }
    pub fn master(&self, alg: Alg, password: &[u8]) -> Option<[u8; 32]> {
        let k = derive(self.kdf, password, &self.salt);
        open(alg, &k, &self.nonce, &[], &self.enckey)?.try_into().ok()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefHeader {
    pub ver: u8,
    pub alg: Alg,
    pub memory: bool,
    pub nonce: Vec<u8>,
    /// versions 1 to 4
    pub salt: [u8; 16],
    /// version 4: the first one; version 5: all four places
    pub slots: [Option<Slot>; 4],
}

fn pad(v: &mut Vec<u8>, to: usize) {
    assert!(v.len() <= to);
    v.resize(to, 0);
}

pub fn kdf_id(k: Kdf) -> [u8; 2] {
    match k {
        Kdf::Argon(1) => [0xDF, 0xA1],
        Kdf::Argon(2) => [0xDF, 0xA2],
        Kdf::Argon(3) => [0xDF, 0xA3],
        Kdf::Balloon(4) => [0xDF, 0xB4],
        Kdf::Balloon(5) => [0xDF, 0xB5],
        _ => panic!("kdf"),
    }
}

impl RefHeader {
    pub fn body_nonce_len(&self) -> usize {
        nonce_len(self.alg) - if self.memory { 0 } else { 4 }
    }
    pub fn tag(&self) -> [u8; 6] {
        let a = match self.alg {
            Alg::X => 1,
            Alg::A => 2,
            Alg::D => 3,
        };
        [0xDE, self.ver, 0x0E, a, 0x0C, if self.memory { 2 } else { 1 }]
    }
    pub fn bytes(&self) -> Vec<u8> {
        assert_eq!(self.nonce.len(), self.body_nonce_len());
        let mut v = self.tag().to_vec();
        match self.ver {
            1 | 3 => {
                v.extend_from_slice(&self.salt);
                v.extend_from_slice(&[0; 16]);
                v.extend_from_slice(&self.nonce);
                pad(&mut v, 64);
            }
            2 => {
                v.extend_from_slice(&self.salt);
                v.extend_from_slice(&self.nonce);
                pad(&mut v, 48);
                v.extend_from_slice(&[0; 16]);
            }
            4 => {
                let s = self.slots[0].as_ref().unwrap();
                v.extend_from_slice(&self.salt);
                v.extend_from_slice(&self.nonce);
                pad(&mut v, 48);
                v.extend_from_slice(&s.enckey);
                v.extend_from_slice(&s.nonce);
                pad(&mut v, 128);
            }
            5 => {
                v.extend_from_slice(&self.nonce);
                pad(&mut v, 32);
                for (i, s) in self.slots.iter().enumerate() {
                    if let Some(s) = s {
                        v.extend_from_slice(&kdf_id(s.kdf));
                        v.extend_from_slice(&s.enckey);
                        v.extend_from_slice(&s.nonce);
                        pad(&mut v, 32 + 96 * i + 2 + 48 + 24);
                        v.extend_from_slice(&s.salt);
                    }
                    pad(&mut v, 32 + 96 * (i + 1));
                }
            }
            _ => panic!("version"),
        }
        v
    }
    pub fn aad(bytes: &[u8], ver: u8, alg: Alg) -> Vec<u8> {
        match ver {
            1 | 2 => vec![],
            3 => bytes[..64].to_vec(),
            4 => [&bytes[..48], &bytes[96 + nonce_len(alg)..128]].concat(),
            _ => bytes[..32].to_vec(),
        }
    }
    /// Strict: whatever deviates from the documented layout is refused.
    pub fn parse(b: &[u8]) -> Result<(RefHeader, usize), String> {
        if b.len() < 6 {
            return Err("shorter than a tag".into());
        }
        if b[0] != 0xDE || !(1..=5).contains(&b[1]) {
            return Err(format!("version {:02x}{:02x}", b[0], b[1]));
        }
        let ver = b[1];
        let alg = match (b[2], b[3]) {
            (0x0E, 1) => Alg::X,
            (0x0E, 2) => Alg::A,
            (0x0E, 3) => Alg::D,
            _ => return Err(format!("algorithm {:02x}{:02x}", b[2], b[3])),
        };
        let memory = match (b[4], b[5]) {
            (0x0C, 1) => false,
            (0x0C, 2) => true,
            _ => return Err(format!("mode {:02x}{:02x}", b[4], b[5])),
        };
        let size = crate::ops::header_len(ver);
        if b.len() < size {
            return Err("too short".into());
        }
        let mut h = RefHeader {
            ver,
            alg,
            memory,
            nonce: vec![],
            salt: [0; 16],
            slots: [None, None, None, None],
        };
        let n = h.body_nonce_len();
        let zero = |r: std::ops::Range<usize>, what: &str| {
            if b[r.clone()].iter().any(|x| *x != 0) {
                Err(format!("{what} padding at {r:?} is not zero"))
            } else {
                Ok(())
            }
        };
        match ver {
            1 | 3 => {
                h.salt = b[6..22].try_into().unwrap();
                zero(22..38, "salt")?;
                h.nonce = b[38..38 + n].to_vec();
                zero(38 + n..64, "nonce")?;
            }
            2 => {
                h.salt = b[6..22].try_into().unwrap();
                h.nonce = b[22..22 + n].to_vec();
                zero(22 + n..64, "nonce")?;
            }
            4 => {
                h.salt = b[6..22].try_into().unwrap();
                h.nonce = b[22..22 + n].to_vec();
                zero(22 + n..48, "nonce")?;
                let m = nonce_len(alg);
                zero(96 + m..128, "master key nonce")?;
                h.slots[0] = Some(Slot {
                    kdf: Kdf::Balloon(4),
                    enckey: b[48..96].try_into().unwrap(),
                    nonce: b[96..96 + m].to_vec(),
                    salt: h.salt,
                });
            }
            _ => {
                h.nonce = b[6..6 + n].to_vec();
                zero(6 + n..32, "nonce")?;
                for i in 0..4 {
                    let o = 32 + 96 * i;
                    let s = &b[o..o + 96];
                    let kdf = match (s[0], s[1]) {
                        (0xDF, 0xA1) => Kdf::Argon(1),
                        (0xDF, 0xA2) => Kdf::Argon(2),
                        (0xDF, 0xA3) => Kdf::Argon(3),
                        (0xDF, 0xB4) => Kdf::Balloon(4),
                        (0xDF, 0xB5) => Kdf::Balloon(5),
                        (0, 0) => {
                            zero(o..o + 96, "unused keyslot")?;
                            continue;
                        }
                        _ => return Err(format!("keyslot {i} type {:02x}{:02x}", s[0], s[1])),
                    };
                    let m = nonce_len(alg);
                    zero(o + 50 + m..o + 74, "keyslot nonce")?;
                    zero(o + 90..o + 96, "keyslot")?;
                    h.slots[i] = Some(Slot {
                        kdf,
                        enckey: s[2..50].try_into().unwrap(),
                        nonce: s[50..50 + m].to_vec(),
                        salt: s[74..90].try_into().unwrap(),
                    });
                }
            }
        }
        Ok((h, size))
    }
    pub fn body_key(&self, password: &[u8]) -> Option<[u8; 32]> {
        match self.ver {
            v @ 1..=3 => Some(derive(Kdf::Argon(i32::from(v)), password, &self.salt)),
            4 => self.slots[0].as_ref()?.master(self.alg, password),
            _ => self.slots.iter().flatten().find_map(|s| s.master(self.alg, password)),
        }
    }
}

pub fn seal_body(h: &RefHeader, key: &[u8; 32], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    if h.memory {
        return seal(h.alg, key, &h.nonce, aad, pt);
    }
    let mut out = vec![];
    let mut i = 0usize;
    let mut c = 0u32;
    loop {
        let last = pt.len() - i < BLOCK;
        let end = if last { pt.len() } else { i + BLOCK };
        out.extend(seal(h.alg, key, &stream_nonce(&h.nonce, c, last), aad, &pt[i..end]));
        if last {
            return out;
        }
        i = end;
        c += 1;
    }
}

pub fn open_body(h: &RefHeader, key: &[u8; 32], aad: &[u8], ct: &[u8]) -> Result<Vec<u8>, String> {
    if h.memory {
        return open(h.alg, key, &h.nonce, aad, ct).ok_or_else(|| "message".into());
    }
    let mut out = vec![];
    let mut i = 0usize;
    let mut c = 0u32;
    loop {
        let last = ct.len() - i < BLOCK + TAG;
        let end = if last { ct.len() } else { i + BLOCK + TAG };
        let p = open(h.alg, key, &stream_nonce(&h.nonce, c, last), aad, &ct[i..end])
            .ok_or_else(|| format!("block {c} (last: {last})"))?;
        out.extend(p);
        if last {
            return Ok(out);
        }
        i = end;
        c += 1;
    }
}

/// Decodes a file with the strict reader.
pub fn decode(header: Option<&[u8]>, file: &[u8], password: &[u8]) -> Result<Vec<u8>, String> {
    let (hb, body) = match header {
        Some(h) => (h, file),
        None => (file, &[][..]),
    };
    let (h, size) = RefHeader::parse(hb)?;
    let body = if header.is_some() {
        if hb.len() != size {
            return Err(format!("header file has {} bytes instead of {size}", hb.len()));
        }
        body
    } else {
        &file[size..]
    };
    let key = h.body_key(password).ok_or("no keyslot opens")?;
    let aad = RefHeader::aad(&hb[..size], h.ver, h.alg);
    open_body(&h, &key, &aad, body)
}

/// A file of any version made by the independent encoder.
pub struct Made {
    pub header: Vec<u8>,
    pub body: Vec<u8>,
    pub h: RefHeader,
    pub master: [u8; 32],
}

pub fn make(
    rng: &mut crate::util::Rng,
    ver: u8,
    alg: Alg,
    memory: bool,
    keys: &[(usize, Kdf, Vec<u8>)],
    pt: &[u8],
) -> Made {
    let mut master = [0u8; 32];
    rng.fill(&mut master);
    make_for(rng, ver, alg, memory, keys, pt, master)
}

pub fn make_for(
    rng: &mut crate::util::Rng,
    ver: u8,
    alg: Alg,
    memory: bool,
    keys: &[(usize, Kdf, Vec<u8>)],
    pt: &[u8],
    mut master: [u8; 32],
) -> Made {
    let mut h = RefHeader {
        ver,
        alg,
        memory,
        nonce: vec![],
        salt: [0; 16],
        slots: [None, None, None, None],
    };
    h.nonce = rng.bytes(h.body_nonce_len());
    rng.fill(&mut h.salt);
    match ver {
        1..=3 => master = derive(Kdf::Argon(i32::from(ver)), &keys[0].2, &h.salt),
        4 => {
            let n = rng.bytes(nonce_len(alg));
            h.slots[0] = Some(Slot::make(alg, Kdf::Balloon(4), &keys[0].2, h.salt, n, &master));
        }
        _ => {
            for (i, kdf, pw) in keys {
                let mut salt = [0u8; 16];
                rng.fill(&mut salt);
                let n = rng.bytes(nonce_len(alg));
                h.slots[*i] = Some(Slot::make(alg, *kdf, pw, salt, n, &master));
            }
        }
    }
    let header = h.bytes();
    let aad = RefHeader::aad(&header, ver, alg);
    let body = seal_body(&h, &master, &aad, pt);
    Made { header, body, h, master }
}
