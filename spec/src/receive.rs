use crate::inputs::*;
use bdk_sp::receive::{SpOut, SpReceiveError};
use bitcoin::hashes::{sha256t_hash_newtype, Hash, HashEngine};
use bitcoin::key::{Parity, Secp256k1, TweakedPublicKey};
use bitcoin::secp256k1::{self, PublicKey, Scalar, SecretKey, XOnlyPublicKey};
use bitcoin::{Amount, OutPoint, ScriptBuf, Transaction, TxIn, TxOut};
use std::collections::BTreeMap;

sha256t_hash_newtype! {
    pub struct TagI = hash_str("BIP0352/Inputs");
    #[hash_newtype(forward)]
    pub struct HashI(_);
    pub struct TagL = hash_str("BIP0352/Label");
    #[hash_newtype(forward)]
    pub struct HashL(_);
    pub struct TagS = hash_str("BIP0352/SharedSecret");
    #[hash_newtype(forward)]
    pub struct HashS(_);
}

/// hash_BIP0352/Inputs(outpoint_L || A)
pub fn input_hash(outpoint: &[u8; 36], sum: &PublicKey) -> Scalar {
    let mut transcript = Vec::new();
    transcript.extend_from_slice(outpoint);
    transcript.extend_from_slice(&sum.serialize());
    Scalar::from_be_bytes(*HashI::hash(&transcript).as_byte_array()).unwrap()
}

/// hash_BIP0352/Label(ser256(b_scan) || ser32(m))
pub fn label(scan: SecretKey, m: u32) -> Scalar {
    let mut transcript = Vec::new();
    transcript.extend_from_slice(&scan.secret_bytes());
    transcript.extend_from_slice(&m.to_be_bytes());
    Scalar::from_be_bytes(HashL::hash(&transcript).to_byte_array()).unwrap()
}

/// hash_BIP0352/SharedSecret(serP(ecdh) || ser32(k))
pub fn output_secret(shared: PublicKey, k: u32) -> SecretKey {
    let mut transcript = Vec::new();
    transcript.extend_from_slice(&shared.serialize());
    transcript.extend_from_slice(&k.to_be_bytes());
    SecretKey::from_slice(&HashS::hash(&transcript).to_byte_array()).unwrap()
}

/// input_hash * A, over all inputs
pub fn tweak(tx: &Transaction, prevouts: &[TxOut]) -> Result<PublicKey, SpReceiveError> {
    let keys = tx
        .input
        .iter()
        .enumerate()
        .filter_map(|(i, txin)| key(txin, &prevouts[i].script_pubkey).map(|(_, k)| k))
        .collect::<Vec<_>>();
    let refs = keys.iter().collect::<Vec<_>>();
    let sum = PublicKey::combine_keys(&refs)?;
    let least = least_outpoint(&tx.input);
    let h = input_hash(&outpoint_bytes(least.unwrap()), &sum);
    Ok(sum.mul_tweak(&Secp256k1::verification_only(), &h)?)
}

pub fn least_outpoint(inputs: &Vec<TxIn>) -> Option<&OutPoint> {
    let mut least: Option<&OutPoint> = None;
    for i in inputs {
        least = match least {
            None => Some(&i.previous_output),
            Some(l) => Some(smaller(&i.previous_output, l)),
        };
    }
    least
}

pub fn ecdh(sk: &SecretKey, pk: &PublicKey) -> PublicKey {
    pk.mul_tweak(&Secp256k1::new(), &Scalar::from(*sk)).unwrap()
}

/// P2TR script of B_spend + t_k*G (+ label)
pub fn script(spend: &PublicKey, shared: &PublicKey, k: u32, label: Option<&PublicKey>) -> ScriptBuf {
    let t = output_secret(*shared, k);
    let base = spend.add_exp_tweak(&Secp256k1::new(), &Scalar::from(t)).unwrap();
    let point = match label {
        Some(l) => PublicKey::combine_keys(&[&base, l]).unwrap(),
        None => base,
    };
    ScriptBuf::new_p2tr_tweaked(TweakedPublicKey::dangerous_assume_tweaked(point.x_only_public_key().0))
}

/// Output t of a transaction belongs to (spend, labels) under the k-th secret.
pub fn output_match(
    spend: PublicKey,
    labels: &BTreeMap<PublicKey, (Scalar, u32)>,
    shared: &PublicKey,
    k: u32,
    out: &TxOut,
) -> Option<(SecretKey, Option<u32>)> {
    let secp = Secp256k1::new();
    let t = output_secret(*shared, k);
    let p = PublicKey::combine_keys(&[&spend, &t.public_key(&secp)]).unwrap();
    let x = match XOnlyPublicKey::from_slice(&out.script_pubkey.as_bytes()[2..]) {
        Ok(x) => x,
        Err(_) => return None,
    };
    for parity in [Parity::Even, Parity::Odd] {
        let candidate = PublicKey::from_x_only_public_key(x, parity);
        if candidate == p {
            return Some((t, None));
        }
        if let Ok(diff) = candidate.combine(&p.negate(&secp)) {
            if let Some((tweak, m)) = labels.get(&diff) {
                if let Ok(full) = t.add_tweak(tweak) {
                    return Some((full, Some(*m)));
                }
            }
        }
    }
    None
}

pub fn scan(
    spend: PublicKey,
    labels: &BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    shared: PublicKey,
) -> Result<Vec<SpOut>, SpReceiveError> {
    let txid = tx.compute_txid();
    let mut pending = Vec::new();
    for (vout, out) in tx.output.iter().enumerate() {
        if out.script_pubkey.is_p2tr() {
            pending.push((OutPoint { txid, vout: vout as u32 }, out.clone()));
        }
    }
    let mut found = Vec::new();
    loop {
        let k = found.len() as u32;
        let mut hit = None;
        for (pos, (outpoint, out)) in pending.iter().enumerate() {
            if let Some((tweak, label)) = output_match(spend, labels, &shared, k, out) {
                hit = Some((
                    pos,
                    SpOut { outpoint: *outpoint, tweak, script_pubkey: out.script_pubkey.clone(), amount: out.value, label },
                ));
                break;
            }
        }
        match hit {
            Some((pos, spout)) => {
                pending.swap_remove(pos);
                found.push(spout);
            }
            None => break,
        }
    }
    Ok(found)
}

/// scripts of the k-th output under a tweak: every label and the unlabelled one
pub fn scripts_of_tweak(
    scan_sk: &SecretKey,
    spend: &PublicKey,
    labels: &BTreeMap<PublicKey, (Scalar, u32)>,
    tweak: &PublicKey,
    k: u32,
) -> Vec<ScriptBuf> {
    let shared = ecdh(scan_sk, tweak);
    let mut out = Vec::new();
    for (l, _) in labels.iter() {
        out.push(script(spend, &shared, k, Some(l)));
    }
    out.push(script(spend, &shared, k, None));
    out
}

pub fn scanner_shared(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    prevouts: &[TxOut],
) -> Result<PublicKey, SpReceiveError> {
    Ok(ecdh(&scan_sk, &tweak(tx, prevouts)?))
}

pub fn scanner_txouts(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    shared: PublicKey,
) -> Result<Vec<SpOut>, SpReceiveError> {
    scan(spend, &labels, tx, shared)
}

pub fn scanner_tx(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    prevouts: &[TxOut],
) -> Result<Vec<SpOut>, SpReceiveError> {
    let shared = ecdh(&scan_sk, &tweak(tx, prevouts)?);
    scan(spend, &labels, tx, shared)
}

pub fn scanner_spks(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tweak: &PublicKey,
    k: u32,
) -> Vec<ScriptBuf> {
    scripts_of_tweak(&scan_sk, &spend, &labels, tweak, k)
}
