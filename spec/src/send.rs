use crate::inputs::*;
use crate::receive::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::SpOut;
use bdk_sp::send::error::SpSendError;
use bitcoin::bip32::{DerivationPath, Xpriv};
use bitcoin::key::{Parity, Secp256k1, TweakedPublicKey};
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey, XOnlyPublicKey};
use bitcoin::{OutPoint, ScriptBuf, TapTweakHash};
use std::collections::HashMap;

/// the secret an input contributes: even-y key for taproot, the key itself otherwise
pub fn contribution(spk: &ScriptBuf, sk: SecretKey) -> Option<SecretKey> {
    let secp = Secp256k1::new();
    if spk.is_p2tr() {
        return Some(match sk.public_key(&secp).x_only_public_key().1 {
            Parity::Even => sk,
            Parity::Odd => sk.negate(),
        });
    }
    if spk.is_p2wpkh() || spk.is_p2sh() || spk.is_p2pkh() {
        return Some(sk);
    }
    None
}

/// input_hash * a, a the sum of every contribution
pub fn partial_secret(least: &[u8; 36], keys: &[(ScriptBuf, SecretKey)]) -> Result<SecretKey, SpSendError> {
    let mut sum: Option<SecretKey> = None;
    for (spk, sk) in keys {
        if let Some(c) = contribution(spk, *sk) {
            sum = match sum {
                None => Some(c),
                Some(s) => s.add_tweak(&Scalar::from(c)).ok(),
            };
        }
    }
    let sum = match sum {
        Some(s) => s,
        None => return Err(SpSendError::MissingInputsForSharedSecretDerivation),
    };
    let h = input_hash(least, &sum.public_key(&Secp256k1::new()));
    Ok(sum.mul_tweak(&h).unwrap())
}

/// x-only key of the k-th output to a spend key
pub fn output_key(spend: &PublicKey, shared: PublicKey, k: u32) -> XOnlyPublicKey {
    let t = output_secret(shared, k);
    let p = PublicKey::combine_keys(&[spend, &t.public_key(&Secp256k1::new())]).unwrap();
    p.x_only_public_key().0
}

/// every output, numbered per scan key
pub fn outputs(partial: SecretKey, codes: &[SilentPaymentCode]) -> HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>> {
    let mut groups = <HashMap<PublicKey, (u32, PublicKey)>>::new();
    let mut found = <HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>>::new();
    for code in codes {
        let (k, shared) = match groups.get(&code.scan) {
            Some((k, s)) => (*k, *s),
            None => (0, ecdh(&partial, &code.scan)),
        };
        groups.insert(code.scan, (k + 1, shared));
        let key = output_key(&code.spend, shared, k);
        found.entry(code.clone()).or_default().push(key);
    }
    found
}

pub fn least_of<'a>(points: impl Iterator<Item = &'a OutPoint>) -> Option<[u8; 36]> {
    let mut least: Option<&OutPoint> = None;
    for p in points {
        least = match least {
            None => Some(p),
            Some(l) => Some(smaller(p, l)),
        };
    }
    least.map(outpoint_bytes)
}

/// spending silent payment outputs: spend key + tweak on its own taproot script
pub fn sp_sender(
    spend_sk: SecretKey,
    inputs: &[SpOut],
    codes: &[SilentPaymentCode],
) -> Result<HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>, SpSendError> {
    let secp = Secp256k1::new();
    let mut keys = Vec::new();
    for o in inputs {
        let sk = spend_sk.add_tweak(&Scalar::from(o.tweak))?;
        let x = sk.public_key(&secp).x_only_public_key().0;
        keys.push((ScriptBuf::new_p2tr_tweaked(TweakedPublicKey::dangerous_assume_tweaked(x)), sk));
    }
    let least = least_of(inputs.iter().map(|o| &o.outpoint)).ok_or(SpSendError::MissingPrevout)?;
    Ok(outputs(partial_secret(&least, &keys)?, codes))
}

/// the BIP341 key-path secret of an internal key without script tree
pub fn taproot_secret(internal: SecretKey) -> SecretKey {
    let (x, parity) = internal.public_key(&Secp256k1::new()).x_only_public_key();
    let even = if parity == Parity::Odd { internal.negate() } else { internal };
    even.add_tweak(&TapTweakHash::from_key_and_tweak(x, None).to_scalar()).unwrap()
}

pub fn xpriv_sender(
    xpriv: &Xpriv,
    inputs: &[(OutPoint, (ScriptBuf, DerivationPath))],
    codes: &[SilentPaymentCode],
) -> Result<HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>, SpSendError> {
    let secp = Secp256k1::new();
    let mut keys = Vec::new();
    for (_, (spk, path)) in inputs {
        let internal = xpriv.derive_priv(&secp, path)?.private_key;
        let secret = if spk.is_p2tr() { taproot_secret(internal) } else { internal };
        keys.push((spk.clone(), secret));
    }
    let least = least_of(inputs.iter().map(|(o, _)| o)).ok_or(SpSendError::MissingPrevout)?;
    Ok(outputs(partial_secret(&least, &keys)?, codes))
}

pub fn least(points: &[OutPoint]) -> Option<[u8; 36]> {
    least_of(points.iter())
}
