//! The first command line wallet: what it stores, and the keys it takes from its descriptors.
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::SpOut;
use bitcoin::constants::genesis_block;
use bitcoin::key::Keypair;
use bitcoin::secp256k1::{Message, PublicKey, Scalar, Secp256k1, SecretKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::taproot::Signature;
use bitcoin::{Network, Psbt, ScriptBuf, TapSighashType, TxOut, XOnlyPublicKey};
use indexer::bdk_chain::{local_chain, tx_graph, ConfirmationBlockTime, Merge};
use indexer::{SpIndexes, SpIndexesChangeSet};
use miniscript::descriptor::{DescriptorSecretKey, DescriptorType};
use miniscript::{Descriptor, DescriptorPublicKey, ToPublicKey};
use std::str::FromStr;

pub struct ChangeSet {
    pub scan_descriptor: Option<Descriptor<DescriptorPublicKey>>,
    pub spend_descriptor: Option<Descriptor<DescriptorPublicKey>>,
    pub network: Option<Network>,
    pub local_chain: local_chain::ChangeSet,
    pub tx_graph: tx_graph::ChangeSet<ConfirmationBlockTime>,
    pub indexes: SpIndexesChangeSet,
}

/// Later values replace earlier ones, collections are joined, nothing is dropped.
pub fn merge(a: &mut ChangeSet, b: ChangeSet) {
    a.scan_descriptor = b.scan_descriptor.or(a.scan_descriptor.take());
    a.spend_descriptor = b.spend_descriptor.or(a.spend_descriptor.take());
    a.network = b.network.or(a.network);
    a.local_chain.merge(b.local_chain);
    a.tx_graph.merge(b.tx_graph);
    a.indexes.merge(b.indexes);
}

/// Only a change set without any content may be dropped.
pub fn is_empty(a: &ChangeSet) -> bool {
    if a.scan_descriptor.is_some() || a.spend_descriptor.is_some() || a.network.is_some() {
        return false;
    }
    a.local_chain.is_empty() && a.tx_graph.is_empty() && a.indexes.is_empty()
}

/// Both descriptors are taproot and name one key each: the internal keys of scan and spend, in this order.
pub fn code(
    scan: &Descriptor<DescriptorPublicKey>,
    spend: &Descriptor<DescriptorPublicKey>,
    network: Network,
) -> Result<SilentPaymentCode, ()> {
    if scan.has_wildcard() || spend.has_wildcard() {
        return Err(());
    }
    let scan = internal(scan)?;
    let spend = internal(spend)?;
    Ok(SilentPaymentCode::new_v0(scan, spend, network))
}

fn internal(d: &Descriptor<DescriptorPublicKey>) -> Result<PublicKey, ()> {
    match d.at_derivation_index(0) {
        Ok(Descriptor::Tr(tr)) => Ok(tr.internal_key().to_public_key().inner),
        _ => Err(()),
    }
}

/// The secret of the only key of a taproot descriptor, derived along its path.
pub fn scan_secret(text: String) -> Result<SecretKey, ()> {
    let secp = Secp256k1::signing_only();
    let Ok((descriptor, keys)) = Descriptor::parse_descriptor(&secp, &text) else {
        return Err(());
    };
    if descriptor.desc_type() != DescriptorType::Tr {
        return Err(());
    }
    let Some((_, key)) = keys.iter().next() else {
        return Err(());
    };
    match key {
        DescriptorSecretKey::XPrv(x) => x
            .xkey
            .derive_priv(&secp, &x.derivation_path)
            .map(|derived| derived.private_key)
            .map_err(|_| ()),
        _ => panic!("not a silent payment key"),
    }
}

/// Change is what was paid to the label with number zero.
pub fn is_change(found: &SpOut, _: ScriptBuf) -> bool {
    found.label == Some(0)
}

/// Every input that spends a recorded output gets the key-path signature over its own sighash, made with the spend
/// secret plus the tweak of that output; all other inputs stay as they are.
pub fn sign(psbt: String, descriptor: String, stored: SpIndexesChangeSet) -> Result<String, ()> {
    let Ok(mut psbt) = Psbt::from_str(&psbt) else {
        return Err(());
    };
    let secp = Secp256k1::new();
    let known = SpIndexes::from(stored);
    let secret = scan_secret(descriptor)?;
    let tx = psbt.unsigned_tx.clone();
    let spent: Vec<TxOut> = psbt.inputs.iter().map(|x| x.witness_utxo.clone().expect("psbt with utxos")).collect();
    for (at, input) in psbt.inputs.iter_mut().enumerate() {
        let Some(utxo) = &input.witness_utxo else {
            continue;
        };
        let Some(found) = known.script_to_spout.get(&utxo.script_pubkey) else {
            continue;
        };
        let Ok(key) = secret.add_tweak(&Scalar::from(found.tweak)) else {
            return Err(());
        };
        let pair = Keypair::from_secret_key(&secp, &key);
        let hash = SighashCache::new(&tx)
            .taproot_key_spend_signature_hash(at, &Prevouts::All(&spent), TapSighashType::Default)
            .expect("an input of the transaction");
        let signature = secp.sign_schnorr(&Message::from(hash), &pair);
        input.tap_key_sig = Some(Signature { signature, sighash_type: TapSighashType::Default });
        input.tap_internal_key = Some(XOnlyPublicKey::from_keypair(&pair).0);
    }
    Ok(psbt.to_string())
}

/// What a new wallet stores: both public descriptors, the network, the genesis block and the label of change.
pub fn init(scan: String, spend: String, network: Network) -> Result<ChangeSet, ()> {
    let secp = Secp256k1::new();
    let (scan_public, _) = Descriptor::parse_descriptor(&secp, &scan).map_err(|_| ())?;
    let (spend_public, _) = Descriptor::parse_descriptor(&secp, &spend).map_err(|_| ())?;
    let code = code(&scan_public, &spend_public, network)?;
    let secret = scan_secret(scan)?;
    let mut indexes = SpIndexes::default();
    if crate::index::v1_add_label(&mut indexes, code, secret, 0).is_none() {
        return Err(());
    }
    Ok(ChangeSet {
        scan_descriptor: Some(scan_public),
        spend_descriptor: Some(spend_public),
        network: Some(network),
        local_chain: local_chain::LocalChain::from_genesis_hash(genesis_block(network).block_hash()).1,
        tx_graph: tx_graph::ChangeSet::default(),
        indexes: indexes.into(),
    })
}

/// The labelled code, and what is known afterwards.
fn with_label(number: Option<u32>, scan: Option<String>, stored: ChangeSet) -> Result<(SilentPaymentCode, SpIndexes), ()> {
    let (Some(number), Some(scan), Some(network)) = (number, scan, stored.network) else {
        return Err(());
    };
    let (Some(scan_public), Some(spend_public)) = (stored.scan_descriptor, stored.spend_descriptor) else {
        return Err(());
    };
    let own = code(&scan_public, &spend_public, network)?;
    let secret = scan_secret(scan)?;
    let mut indexes = SpIndexes::from(stored.indexes);
    match crate::index::v1_add_label(&mut indexes, own, secret, number) {
        Some(labelled) => Ok((labelled, indexes)),
        None => Err(()),
    }
}

/// The labelled code that is handed out.
pub fn label_shown(number: Option<u32>, scan: Option<String>, stored: ChangeSet) -> Result<String, ()> {
    let (labelled, _) = with_label(number, scan, stored)?;
    Ok(labelled.to_string())
}

/// What is stored along with it.
pub fn label_kept(number: Option<u32>, scan: Option<String>, stored: ChangeSet) -> Result<ChangeSet, ()> {
    let (_, indexes) = with_label(number, scan, stored)?;
    Ok(ChangeSet {
        scan_descriptor: None,
        spend_descriptor: None,
        network: None,
        local_chain: local_chain::ChangeSet::default(),
        tx_graph: tx_graph::ChangeSet::default(),
        indexes: indexes.into(),
    })
}
