use crate::Key;
use curve25519_dalek::edwards::CompressedEdwardsY;
use k256::ecdsa::{RecoveryId, Signature, SigningKey, VerifyingKey};
use sha2::{Digest, Sha256};
use sha3::Keccak256;

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn on_curve(k: &[u8; 32]) -> bool {
    CompressedEdwardsY(*k).decompress().is_some()
}
pub fn create_pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    if seeds.len() > 16 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let mut h = Sha256::new();
    for s in seeds {
        h.update(s);
    }
    h.update(program);
    h.update(b"ProgramDerivedAddress");
    let k: Key = h.finalize().into();
    if on_curve(&k) {
        None
    } else {
        Some(k)
    }
}
pub fn find_pda(seeds: &[&[u8]], program: &Key) -> Option<(Key, u8)> {
    for b in (1..=255u8).rev() {
        let bb = [b];
        let mut s: Vec<&[u8]> = seeds.to_vec();
        s.push(&bb);
        if s.len() > 16 {
            return None;
        }
        if let Some(k) = create_pda(&s, program) {
            return Some((k, b));
        }
    }
    None
}
/// (address, bump) for every valid bump, canonical first.
pub fn all_pdas(seeds: &[&[u8]], program: &Key, max: usize) -> Vec<(Key, u8)> {
    let mut out = vec![];
    for b in (0..=255u8).rev() {
        let bb = [b];
        let mut s: Vec<&[u8]> = seeds.to_vec();
        s.push(&bb);
        if let Some(k) = create_pda(&s, program) {
            out.push((k, b));
            if out.len() >= max {
                break;
            }
        }
    }
    out
}

#[derive(Clone)]
pub struct K1 {
    pub sk: SigningKey,
}
impl K1 {
    pub fn from_seed(seed: &[u8]) -> K1 {
        let mut i = 0u8;
        loop {
            let h = sha256(&[b"k1", seed, &[i]]);
            if let Ok(sk) = SigningKey::from_slice(&h) {
                return K1 { sk };
            }
            i += 1;
        }
    }
    /// 65-byte uncompressed
    pub fn uncompressed(&self) -> [u8; 65] {
        let p = self.sk.verifying_key().to_encoded_point(false);
        p.as_bytes().try_into().unwrap()
    }
    pub fn compressed(&self) -> [u8; 33] {
        let p = self.sk.verifying_key().to_encoded_point(true);
        p.as_bytes().try_into().unwrap()
    }
    /// r||s||recid
    pub fn sign(&self, hash: &[u8; 32]) -> [u8; 65] {
        let (s, r) = self.sk.sign_prehash_recoverable(hash).unwrap();
        let mut o = [0u8; 65];
        o[..64].copy_from_slice(&s.to_bytes());
        o[64] = r.to_byte();
        o
    }
}
const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc,
    0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
/// n - s  (big endian)
pub fn neg_s(s: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let mut d = N[i] as i32 - s[i] as i32 - borrow;
        borrow = 0;
        if d < 0 {
            d += 256;
            borrow = 1;
        }
        o[i] = d as u8;
    }
    o
}
/// the high-s twin of a recoverable signature
pub fn malleate(sig: &[u8; 65]) -> [u8; 65] {
    let mut o = *sig;
    o[32..64].copy_from_slice(&neg_s(&sig[32..64]));
    o[64] ^= 1;
    o
}
/// recover as the Solana syscall does (accepts high-s); returns x||y
pub fn recover(hash: &[u8; 32], recid: u8, sig: &[u8]) -> Option<[u8; 64]> {
    if recid > 3 {
        return None;
    }
    let mut sigb: [u8; 64] = sig[..64].try_into().unwrap();
    let mut rid = recid;
    let s = Signature::from_slice(&sigb).ok()?;
    if s.normalize_s().is_some() {
        let ns = neg_s(&sigb[32..64]);
        sigb[32..64].copy_from_slice(&ns);
        rid ^= 1;
    }
    let s = Signature::from_slice(&sigb).ok()?;
    let v = VerifyingKey::recover_from_prehash(hash, &s, RecoveryId::from_byte(rid)?).ok()?;
    let p = v.to_encoded_point(false);
    p.as_bytes()[1..65].try_into().ok()
}

/// The secp256r1 precompile is modelled as an ideal functionality: a signature
/// is a token only the holder of the key (the harness) hands out.
pub fn r1_sign(pk: &[u8; 33], msg: &[u8]) -> [u8; 64] {
    let a = sha256(&[b"r1a", pk, msg]);
    let b = sha256(&[b"r1b", pk, msg]);
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&a);
    o[32..].copy_from_slice(&b);
    o
}
pub fn r1_ok(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    if pk.len() != 33 {
        return false;
    }
    r1_sign(pk.try_into().unwrap(), msg)[..] == *sig
}
pub fn r1_pub(seed: &[u8]) -> [u8; 33] {
    let h = sha256(&[b"r1pub", seed]);
    let mut o = [0u8; 33];
    o[0] = 2 + (h[0] & 1);
    o[1..].copy_from_slice(&h);
    o
}
