//! BIP-374: discrete-log equality proofs.
use bitcoin::hashes::{sha256t_hash_newtype, Hash, HashEngine};
use bitcoin::key::Secp256k1;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};

sha256t_hash_newtype! {
    pub struct AuxTag = hash_str("BIP0374/aux");
    #[hash_newtype(forward)]
    pub struct Aux(_);
    pub struct NonceTag = hash_str("BIP0374/nonce");
    #[hash_newtype(forward)]
    pub struct Nonce(_);
    pub struct ChallengeTag = hash_str("BIP0374/challenge");
    #[hash_newtype(forward)]
    pub struct Challenge(_);
}

fn challenge(pts: [&PublicKey; 6], m: Option<&[u8; 32]>) -> Scalar {
    let mut eng = Challenge::engine();
    for p in pts {
        eng.input(&p.serialize());
    }
    if let Some(m) = m {
        eng.input(m);
    }
    Scalar::from_be_bytes(Challenge::from_engine(eng).to_byte_array()).unwrap()
}

/// Accepts exactly when e = H(A, B, C, G, s·G - e·A, s·B - e·C, m), with e and s the two halves of the proof.
pub fn verify(a: PublicKey, b: PublicKey, c: PublicKey, proof: &[u8; 64], g: PublicKey, m: Option<&[u8; 32]>) -> Option<bool> {
    let secp = Secp256k1::new();
    let mut e = [0u8; 32];
    e.copy_from_slice(&proof[..32]);
    let mut s = [0u8; 32];
    s.copy_from_slice(&proof[32..]);
    let e = Scalar::from_be_bytes(e).ok()?;
    let s = Scalar::from_be_bytes(s).ok()?;
    let r1 = g.mul_tweak(&secp, &s).ok()?.combine(&a.mul_tweak(&secp, &e).ok()?.negate(&secp)).ok()?;
    let r2 = b.mul_tweak(&secp, &s).ok()?.combine(&c.mul_tweak(&secp, &e).ok()?.negate(&secp)).ok()?;
    Some(challenge([&a, &b, &c, &g, &r1, &r2], m) == e)
}

/// The proof BIP-374 prescribes for (a, B, r, G, m), given only when it verifies.
pub fn prove(a: SecretKey, b: PublicKey, r: &[u8; 32], g: PublicKey, m: Option<&[u8; 32]>) -> Option<[u8; 64]> {
    let secp = Secp256k1::new();
    let pa = g.mul_tweak(&secp, &Scalar::from(a)).ok()?;
    let pc = b.mul_tweak(&secp, &Scalar::from(a)).ok()?;
    let mut eng = Aux::engine();
    eng.input(r);
    let aux = Aux::from_engine(eng).to_byte_array();
    let sk = a.secret_bytes();
    let mut t = [0u8; 32];
    for i in 0..32 {
        t[i] = sk[i] ^ aux[i];
    }
    let mut eng = Nonce::engine();
    eng.input(&t);
    eng.input(&pa.serialize());
    eng.input(&pc.serialize());
    if let Some(m) = m {
        eng.input(m);
    }
    let k = SecretKey::from_slice(&Nonce::from_engine(eng).to_byte_array()).unwrap();
    let r1 = g.mul_tweak(&secp, &Scalar::from(k)).ok()?;
    let r2 = b.mul_tweak(&secp, &Scalar::from(k)).ok()?;
    let e = challenge([&pa, &b, &pc, &g, &r1, &r2], m);
    let s = k.add_tweak(&Scalar::from(a.mul_tweak(&e).ok()?)).ok()?;
    let mut proof = [0u8; 64];
    proof[..32].copy_from_slice(&e.to_be_bytes());
    proof[32..].copy_from_slice(&s.secret_bytes());
    if verify(pa, b, pc, &proof, g, m)? {
        Some(proof)
    } else {
        None
    }
}
