use bdk_sp::encoding::error::*;
use bdk_sp::encoding::{SilentPaymentCode, SP, SPRT, TSP};
use bitcoin::bech32::primitives::decode::CheckedHrpstring;
use bitcoin::bech32::primitives::iter::{ByteIterExt, Fe32IterExt};
use bitcoin::bech32::primitives::Bech32m;
use bitcoin::bech32::{Fe32, Hrp};
use bitcoin::hashes::{sha256, Hash};
use bitcoin::key::{Secp256k1, TweakedPublicKey};
use bitcoin::secp256k1::{self, PublicKey, Scalar};
use bitcoin::{Network, ScriptBuf};

/// network -> human readable part
pub fn prefix(n: Network) -> Hrp {
    match n {
        Network::Bitcoin => SP,
        Network::Regtest => SPRT,
        Network::Testnet => TSP,
        Network::Testnet4 => TSP,
        Network::Signet => TSP,
        _ => SPRT,
    }
}

pub fn encode(c: &SilentPaymentCode) -> String {
    let mut payload = Vec::new();
    payload.extend_from_slice(&c.scan.serialize());
    payload.extend_from_slice(&c.spend.serialize());
    payload
        .iter()
        .copied()
        .bytes_to_fes()
        .with_checksum::<Bech32m>(&prefix(c.network))
        .with_witness_version(Fe32::try_from(c.version()).unwrap())
        .chars()
        .collect::<String>()
}

/// spend key tweaked by the label, everything else kept
pub fn labelled(c: &SilentPaymentCode, label: Scalar) -> Result<SilentPaymentCode, secp256k1::Error> {
    let mut out = c.clone();
    out.spend = c.spend.add_exp_tweak(&Secp256k1::new(), &label)?;
    Ok(out)
}

/// P2TR of scan + sha256(spend)*G
pub fn placeholder(c: &SilentPaymentCode) -> ScriptBuf {
    let t = Scalar::from_be_bytes(sha256::Hash::hash(&c.spend.serialize()).to_byte_array()).unwrap();
    let p = c.scan.add_exp_tweak(&Secp256k1::new(), &t).unwrap();
    ScriptBuf::new_p2tr_tweaked(TweakedPublicKey::dangerous_assume_tweaked(p.x_only_public_key().0))
}

/// (version, scan, spend, network) of an accepted string
pub fn decode(s: &str) -> Option<(u8, PublicKey, PublicKey, Network)> {
    let checked = CheckedHrpstring::new::<Bech32m>(s).ok()?;
    let hrp = checked.hrp();
    let mut fes = checked.fe32_iter::<&mut dyn Iterator<Item = u8>>();
    let version = fes.next()?.to_u8();
    let bytes = fes.fes_to_bytes().collect::<Vec<u8>>();
    let sized = if version == 0 { bytes.len() == 66 } else { version < 31 && bytes.len() >= 66 };
    if !sized {
        return None;
    }
    let network = if hrp == SP {
        Network::Bitcoin
    } else if hrp == TSP {
        Network::Testnet
    } else if hrp == SPRT {
        Network::Regtest
    } else {
        return None;
    };
    let scan = PublicKey::from_slice(&bytes[0..33]).ok()?;
    let spend = PublicKey::from_slice(&bytes[33..66]).ok()?;
    Some((version, scan, spend, network))
}

pub fn fmt(c: &SilentPaymentCode, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    f.write_str(&encode(c))
}

/// a new code has version zero
pub fn new(scan: PublicKey, spend: PublicKey, network: Network) -> (u8, PublicKey, PublicKey, Network) {
    (0, scan, spend, network)
}
