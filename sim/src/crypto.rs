//! Server-side cryptography: password verification and RSA-OAEP decryption.
use num::BigUint;
use sha1::{Digest, Sha1};

pub fn sha1(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha1::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
pub fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = sha2::Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
pub fn native(pw: &[u8], nonce: &[u8]) -> Vec<u8> {
    if pw.is_empty() {
        return vec![];
    }
    let s1 = sha1(&[pw]);
    xor(&s1, &sha1(&[nonce, &sha1(&[&s1])]))
}
pub fn caching(pw: &[u8], nonce: &[u8]) -> Vec<u8> {
    if pw.is_empty() {
        return vec![];
    }
    let s1 = sha256(&[pw]);
    xor(&s1, &sha256(&[&sha256(&[&s1]), nonce]))
}

pub struct Key {
    pub pkcs1: &'static str,
    pub pkcs8: &'static str,
    n: BigUint,
    d: BigUint,
    len: usize,
}

pub const KEYS: usize = 4;
pub fn key(i: usize) -> Key {
    let (p1, p8, hex) = match i {
        0 => (include_str!("../keys/k1024.pkcs1.pem"), include_str!("../keys/k1024.pkcs8.pem"), include_str!("../keys/k1024.hex")),
        1 => (include_str!("../keys/k1025.pkcs1.pem"), include_str!("../keys/k1025.pkcs8.pem"), include_str!("../keys/k1025.hex")),
        2 => (include_str!("../keys/k1536.pkcs1.pem"), include_str!("../keys/k1536.pkcs8.pem"), include_str!("../keys/k1536.hex")),
        _ => (include_str!("../keys/k2048.pkcs1.pem"), include_str!("../keys/k2048.pkcs8.pem"), include_str!("../keys/k2048.hex")),
    };
    let mut it = hex.split_whitespace().map(|x| BigUint::parse_bytes(x.as_bytes(), 16).unwrap());
    let n = it.next().unwrap();
    let d = it.next().unwrap();
    let len = (n.bits() as usize + 7) / 8;
    Key { pkcs1: p1, pkcs8: p8, n, d, len }
}

fn mgf(seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < len {
        out.extend(sha1(&[seed, &i.to_be_bytes()]));
        i += 1;
    }
    out.truncate(len);
    out
}

impl Key {
    /// RSAES-OAEP (SHA-1, empty label); `None` if the ciphertext is not well formed.
    pub fn decrypt(&self, c: &[u8]) -> Option<Vec<u8>> {
        self.open(c).map(|x| x.1)
    }
    /// Seed of the padding and the message.
    pub fn open(&self, c: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
        if c.len() != self.len {
            return None;
        }
        let m = BigUint::from_bytes_be(c);
        if m >= self.n {
            return None;
        }
        let b = m.modpow(&self.d, &self.n).to_bytes_be();
        let mut em = vec![0u8; self.len - b.len()];
        em.extend(b);
        if em[0] != 0 {
            return None;
        }
        let (ms, mdb) = em[1..].split_at(20);
        let seed = xor(ms, &mgf(mdb, 20));
        let db = xor(mdb, &mgf(&seed, mdb.len()));
        if db[..20] != sha1(&[])[..] {
            return None;
        }
        let rest = &db[20..];
        let p = rest.iter().position(|x| *x != 0)?;
        if rest[p] != 1 {
            return None;
        }
        Some((seed, rest[p + 1..].to_vec()))
    }
}
