//! Sending from and spending with PSBTs.
use crate::code::placeholder;
use crate::inputs::*;
use crate::receive::least_outpoint;
use crate::send::{outputs, partial_secret};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::send::error::SpSendError;
use bdk_sp::SpInputs;
use bitcoin::bip32::KeySource;
use bitcoin::key::{Parity, Secp256k1, TweakedPublicKey, Verification};
use bitcoin::psbt::raw::ProprietaryKey;
use bitcoin::psbt::{self, GetKey, KeyRequest};
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey, Signing, XOnlyPublicKey};
use bitcoin::hashes::Hash;
use bitcoin::key::Keypair;
use bitcoin::secp256k1::Message;
use bitcoin::sighash::{Prevouts, SighashCache, TapSighashType};
use bitcoin::taproot::Signature;
use bitcoin::{PrivateKey, Psbt, ScriptBuf, TapTweakHash, TxIn, TxOut};

const E: SpSendError = SpSendError::KeyError;

/// the script an input spends
pub fn spent(inp: &psbt::Input, txin: &TxIn) -> Option<ScriptBuf> {
    match (&inp.witness_utxo, &inp.non_witness_utxo) {
        (Some(utxo), _) => Some(utxo.script_pubkey.clone()),
        (None, Some(tx)) => match tx.tx_out(txin.previous_output.vout as usize) {
            Ok(utxo) => Some(utxo.script_pubkey.clone()),
            Err(_) => None,
        },
        (None, None) => None,
    }
}

/// the x-only key of the witness output an input spends when it is taproot
pub fn spent_key(inp: &psbt::Input) -> Option<XOnlyPublicKey> {
    let utxo = inp.witness_utxo.as_ref()?;
    if !utxo.script_pubkey.is_p2tr() {
        return None;
    }
    XOnlyPublicKey::from_slice(&utxo.script_pubkey.as_bytes()[2..34]).ok()
}

/// (spend key, tweak) of a silent payment field
pub fn sp_field(key: &ProprietaryKey, value: &Vec<u8>) -> Option<(PublicKey, Scalar)> {
    if key.subtype != 1 || key.prefix != b"bip352".to_vec() {
        return None;
    }
    let tweak: [u8; 32] = value.as_slice().try_into().ok()?;
    Some((PublicKey::from_slice(&key.key).ok()?, Scalar::from_be_bytes(tweak).ok()?))
}

/// spend secret + tweak for a field whose key the signer has and whose output the input spends
pub fn field_secret<C: Signing + Verification, K: GetKey>(
    inp: &psbt::Input,
    key: &ProprietaryKey,
    value: &Vec<u8>,
    k: &K,
    secp: &Secp256k1<C>,
) -> Option<SecretKey> {
    let (spend, tweak) = sp_field(key, value)?;
    let sk = match k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend)), secp) {
        Ok(Some(sk)) => sk.inner,
        _ => return None,
    };
    let full = spend.add_exp_tweak(secp, &tweak).ok()?;
    if full.x_only_public_key().0 != spent_key(inp)? {
        return None;
    }
    sk.add_tweak(&tweak).ok()
}

pub fn sp_secret<C: Signing + Verification, K: GetKey>(inp: &psbt::Input, k: &K, secp: &Secp256k1<C>) -> Option<SecretKey> {
    for (key, value) in inp.proprietary.iter() {
        if let Some(sk) = field_secret(inp, key, value, k, secp) {
            return Some(sk);
        }
    }
    None
}

/// a key by its derivation, else by itself
pub fn lookup<C: Signing, K: GetKey>(k: &K, source: &KeySource, own: KeyRequest, secp: &Secp256k1<C>) -> Result<Option<PrivateKey>, ()> {
    if let Ok(Some(sk)) = k.get_key(KeyRequest::Bip32(source.clone()), secp) {
        return Ok(Some(sk));
    }
    k.get_key(own, secp).map_err(|_| ())
}

/// secret of the taproot output key of the first key origin that is known
pub fn taproot_key<C: Signing + Verification, K: GetKey>(inp: &psbt::Input, k: &K, secp: &Secp256k1<C>) -> Result<SecretKey, ()> {
    for (x, (_, source)) in inp.tap_key_origins.iter() {
        match lookup(k, source, KeyRequest::XOnlyPubkey(*x), secp) {
            Ok(Some(sk)) => {
                let (internal, parity) = sk.inner.x_only_public_key(secp);
                let even = if parity == Parity::Odd { sk.negate() } else { sk };
                let t = TapTweakHash::from_key_and_tweak(internal, inp.tap_merkle_root).to_scalar();
                return Ok(even.inner.add_tweak(&t).unwrap());
            }
            Ok(None) => {}
            Err(_) => return Err(()),
        }
    }
    Err(())
}

pub fn plain_key<C: Signing + Verification, K: GetKey>(inp: &psbt::Input, k: &K, secp: &Secp256k1<C>) -> Result<SecretKey, ()> {
    for (p, source) in inp.bip32_derivation.iter() {
        match lookup(k, source, KeyRequest::Pubkey(bitcoin::PublicKey::new(*p)), secp) {
            Ok(Some(sk)) => return Ok(sk.inner),
            Ok(None) => {}
            Err(_) => return Err(()),
        }
    }
    Err(())
}

/// the input as it will be broadcast
pub fn finalized(inp: &psbt::Input, txin: &TxIn) -> Option<TxIn> {
    if inp.final_script_sig.is_none() && inp.final_script_witness.is_none() {
        return None;
    }
    let mut full = txin.clone();
    full.script_sig = inp.final_script_sig.clone().unwrap_or_default();
    full.witness = inp.final_script_witness.clone().unwrap_or_default();
    Some(full)
}

/// Ok(None): the input is not eligible.  Err: its key is not known or not the one it spends with.
pub fn input_secret<C: Signing + Verification, K: GetKey>(
    inp: &psbt::Input,
    txin: &TxIn,
    spk: &ScriptBuf,
    k: &K,
    secp: &Secp256k1<C>,
) -> Result<Option<SecretKey>, ()> {
    if let Some(sk) = sp_secret(inp, k, secp) {
        return Ok(Some(sk));
    }
    let full = finalized(inp, txin).ok_or(())?;
    match key(&full, spk) {
        None => Ok(None),
        Some((SpInputs::Tr, point)) => {
            let sk = taproot_key(inp, k, secp)?;
            if sk.x_only_public_key(secp).0.public_key(Parity::Even) == point {
                Ok(Some(sk))
            } else {
                Err(())
            }
        }
        Some((_, point)) => {
            let sk = plain_key(inp, k, secp)?;
            if sk.public_key(secp) == point {
                Ok(Some(sk))
            } else {
                Err(())
            }
        }
    }
}

pub fn derive<C: Signing + Verification, K: GetKey>(
    psbt: &mut Psbt,
    k: &K,
    codes: &[SilentPaymentCode],
    secp: &Secp256k1<C>,
) -> Result<(), SpSendError> {
    let mut keys = Vec::new();
    for (inp, txin) in psbt.inputs.iter().zip(&psbt.unsigned_tx.input) {
        let spk = spent(inp, txin).ok_or(E)?;
        if let Some(sk) = input_secret(inp, txin, &spk, k, secp).map_err(|_| E)? {
            keys.push((spk, sk));
        }
    }
    if keys.is_empty() {
        return Err(E);
    }
    let mut least: Option<&bitcoin::OutPoint> = None;
    for (_, i) in psbt.inputs.iter().zip(&psbt.unsigned_tx.input) {
        least = match least {
            None => Some(&i.previous_output),
            Some(l) => Some(smaller(&i.previous_output, l)),
        };
    }
    let payments = outputs(partial_secret(&outpoint_bytes(least.unwrap()), &keys)?, codes);
    let before = psbt.unsigned_tx.output.clone();
    for (code, xs) in payments.iter() {
        let target = placeholder(code);
        let mut spots = Vec::new();
        for (i, o) in before.iter().enumerate() {
            if o.script_pubkey == target {
                spots.push(i);
            }
        }
        if spots.is_empty() {
            continue;
        }
        if spots.len() != xs.len() {
            return Err(E);
        }
        for (i, x) in spots.iter().zip(xs) {
            psbt.unsigned_tx.output[*i].script_pubkey =
                ScriptBuf::new_p2tr_tweaked(TweakedPublicKey::dangerous_assume_tweaked(*x));
        }
    }
    Ok(())
}

/// the outputs an input of the transaction spends
pub fn spent_outputs(psbt: &Psbt) -> Option<Vec<TxOut>> {
    let mut all = Vec::new();
    for (txin, inp) in psbt.unsigned_tx.input.iter().zip(&psbt.inputs) {
        all.push(match (&inp.witness_utxo, &inp.non_witness_utxo) {
            (Some(utxo), _) => utxo.clone(),
            (None, Some(tx)) => tx.output.get(txin.previous_output.vout as usize)?.clone(),
            (None, None) => return None,
        });
    }
    Some(all)
}

/// key-path signature of every unsigned silent payment input whose key is known
pub fn sign<C: Signing + Verification, K: GetKey>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>) {
    let before = psbt.clone();
    let all = match spent_outputs(&before) {
        Some(all) => all,
        None => return,
    };
    for (i, inp) in before.inputs.iter().enumerate() {
        if inp.tap_key_sig.is_some() {
            continue;
        }
        for (key, value) in inp.proprietary.iter() {
            let sk = match field_secret(inp, key, value, k, secp) {
                Some(sk) => sk,
                None => continue,
            };
            let ty = TapSighashType::Default;
            let hash = SighashCache::new(&before.unsigned_tx).taproot_key_spend_signature_hash(i, &Prevouts::All(&all), ty);
            if let Ok(hash) = hash {
                let msg = Message::from_digest(hash.to_byte_array());
                let signature = secp.sign_schnorr_no_aux_rand(&msg, &Keypair::from_secret_key(secp, &sk));
                psbt.inputs[i].tap_key_sig = Some(Signature { signature, sighash_type: ty });
                break;
            }
        }
    }
}

/// the field a signer looks for
pub fn add_data(psbt: &mut Psbt, i: usize, spend: PublicKey, tweak: Scalar) {
    if i < psbt.inputs.len() {
        let name = ProprietaryKey { prefix: b"bip352".to_vec(), subtype: 1, key: spend.serialize().to_vec() };
        psbt.inputs[i].proprietary.insert(name, tweak.to_be_bytes().to_vec());
    }
}
