use bdk_sp::SpInputs;
use bitcoin::hashes::{sha256, Hash, HashEngine};
use bitcoin::key::{Parity, Secp256k1};
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey, XOnlyPublicKey};
use bitcoin::{OutPoint, ScriptBuf, Transaction, TxIn, TxOut};

pub const NUMS: [u8; 32] = [
    0x50, 0x92, 0x9b, 0x74, 0xc1, 0xa0, 0x49, 0x54, 0xb7, 0x8b, 0x4b, 0x60, 0x35, 0xe9, 0x7a, 0x5e,
    0x07, 0x8a, 0x5a, 0x0f, 0x28, 0xec, 0x96, 0xd5, 0x47, 0xbf, 0xee, 0x9a, 0xce, 0x80, 0x3a, 0xc0,
];

/// Which inputs take part in the derivation.
pub fn kind(txin: &TxIn, spk: &ScriptBuf) -> Option<SpInputs> {
    let has_witness = !txin.witness.is_empty();
    let has_sig = !txin.script_sig.is_empty();
    if spk.is_p2pkh() {
        return if has_sig && !has_witness { Some(SpInputs::Pkh) } else { None };
    }
    if spk.is_p2sh() {
        if !has_sig || !has_witness {
            return None;
        }
        return match txin.script_sig.redeem_script() {
            Some(inner) if inner.is_p2wpkh() => Some(SpInputs::ShWpkh),
            _ => None,
        };
    }
    if has_sig || !has_witness {
        return None;
    }
    if spk.is_p2wpkh() {
        return Some(SpInputs::Wpkh);
    }
    if spk.is_p2tr() {
        if let Some(control) = txin.witness.taproot_control_block() {
            if control.len() >= 33 && control[1..33] == NUMS {
                return None;
            }
        }
        return Some(SpInputs::Tr);
    }
    None
}

/// The key an eligible input contributes.
pub fn key(txin: &TxIn, spk: &ScriptBuf) -> Option<(SpInputs, PublicKey)> {
    let kind = kind(txin, spk)?;
    let point = match kind {
        SpInputs::Tr => {
            let x = XOnlyPublicKey::from_slice(&spk.as_bytes()[2..34]).ok()?;
            PublicKey::from_x_only_public_key(x, Parity::Even)
        }
        SpInputs::Wpkh | SpInputs::ShWpkh => {
            let last = txin.witness.last().unwrap();
            if last.len() != 33 {
                return None;
            }
            PublicKey::from_slice(last).ok()?
        }
        SpInputs::Pkh => {
            let mut found = None;
            for w in txin.script_sig.as_bytes().windows(33).rev() {
                if let Ok(p) = bitcoin::PublicKey::from_slice(w) {
                    let h: [u8; 20] = *p.pubkey_hash().as_byte_array();
                    if &h[..] == &spk.as_bytes()[3..23] {
                        found = Some(p.inner);
                        break;
                    }
                }
            }
            found?
        }
    };
    Some((kind, point))
}

pub fn outpoint_bytes(o: &OutPoint) -> [u8; 36] {
    let mut out = [0u8; 36];
    out[0..32].copy_from_slice(&o.txid.to_byte_array());
    out[32..36].copy_from_slice(&o.vout.to_le_bytes());
    out
}

/// -> the smaller of two outpoints in serialised order
pub fn smaller<'a>(a: &'a OutPoint, b: &'a OutPoint) -> &'a OutPoint {
    if outpoint_bytes(a) < outpoint_bytes(b) {
        a
    } else {
        b
    }
}

pub fn tagged(tag: &str, parts: &[u8]) -> [u8; 32] {
    unimplemented!()
}
