//! The repository's public entry points, called the way a user calls them.
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::scan::Scanner;
use bdk_sp::receive::*;
use bdk_sp::send::bip32::XprivSilentPaymentSender;
use bdk_sp::send::bip352::SpSender;
use bdk_sp::send::error::SpSendError;
use bdk_sp::send::psbt::derive_sp;
use bdk_sp::send::psbt::sign::{add_sp_data_to_input, sign_sp};
use bdk_sp::*;
use bitcoin::bip32::{DerivationPath, Xpriv};
use bitcoin::key::{Secp256k1, Verification};
use bitcoin::psbt::GetKey;
use bitcoin::secp256k1::{self, PublicKey, Scalar, SecretKey, Signing, XOnlyPublicKey};
use indexer::bdk_chain::{tx_graph, Anchor, Merge, TxGraph, TxPosInBlock};
use indexer::v2::indexes::{Label, SpIndex};
use indexer::v2::{ChangeSet, SpIndexerV2};
use indexer::{PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet};
use bdk_sp_oracles::bip157::tokio::sync::mpsc::UnboundedSender;
use bdk_sp_oracles::bip157::{BlockHash, Event, IndexedFilter, UnboundedReceiver};
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, FilterEvent, FilterSubscriber, UpdateError};
use bdk_sp_oracles::tweaks::blindbit::{BlindbitClient, BlindbitError, BlindbitSubscriber, InfoResponse, TweakEvent};
use bitcoin::absolute::Height;
use indexer::bdk_chain::ConfirmationBlockTime;
use redb::Database;
use std::sync::Mutex;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use bitcoin::{Block, Txid, Network, OutPoint, Psbt, ScriptBuf, Transaction, TxIn, TxOut};

type Payments = HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>;

pub fn c_kind(txin: &TxIn, spk: &ScriptBuf) -> Option<SpInputs> {
    tag_txin(txin, spk)
}

pub fn c_key(txin: TxIn, spk: &ScriptBuf) -> Option<(SpInputs, PublicKey)> {
    extract_pubkey(txin, spk)
}

pub fn c_least(points: &[OutPoint]) -> Option<[u8; 36]> {
    let mut l = LexMin::default();
    for p in points {
        l.update(p);
    }
    l.bytes().ok()
}

pub fn c_ecdh(sk: &SecretKey, pk: &PublicKey) -> PublicKey {
    compute_shared_secret(sk, pk)
}

pub fn c_label(scan: SecretKey, m: u32) -> Scalar {
    hashes::get_label_tweak(scan, m)
}

pub fn c_code_label(scan: SecretKey, m: u32) -> Scalar {
    SilentPaymentCode::get_label(scan, m)
}

pub fn c_input_hash(outpoint: &[u8; 36], sum: &PublicKey) -> Scalar {
    hashes::get_input_hash(outpoint, sum)
}

pub fn c_output_secret(shared: PublicKey, k: u32) -> SecretKey {
    hashes::get_shared_secret(shared, k)
}

pub fn c_tweak(tx: &Transaction, prevouts: &[TxOut]) -> Result<PublicKey, SpReceiveError> {
    compute_tweak_data(tx, prevouts)
}

pub fn c_script(spend: &PublicKey, shared: &PublicKey, k: u32, label: Option<&PublicKey>) -> ScriptBuf {
    get_silentpayment_script_pubkey(spend, shared, k, label)
}

pub fn c_scan(
    spend: PublicKey,
    labels: &BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    shared: PublicKey,
) -> Result<Vec<SpOut>, SpReceiveError> {
    scan_txouts(spend, labels, tx, shared)
}

pub fn c_scanner_shared(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    prevouts: &[TxOut],
) -> Result<PublicKey, SpReceiveError> {
    Scanner::new(scan_sk, spend, labels).get_shared_secret(tx, prevouts)
}

pub fn c_scanner_txouts(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    shared: PublicKey,
) -> Result<Vec<SpOut>, SpReceiveError> {
    Scanner::new(scan_sk, spend, labels).scan_txouts(tx, shared)
}

pub fn c_scanner_tx(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tx: &Transaction,
    prevouts: &[TxOut],
) -> Result<Vec<SpOut>, SpReceiveError> {
    Scanner::new(scan_sk, spend, labels).scan_tx(tx, prevouts)
}

pub fn c_scanner_spks(
    scan_sk: SecretKey,
    spend: PublicKey,
    labels: BTreeMap<PublicKey, (Scalar, u32)>,
    tweak: &PublicKey,
    k: u32,
) -> Vec<ScriptBuf> {
    Scanner::new(scan_sk, spend, labels).get_spks_from_tweak(tweak, k)
}

pub fn c_partial_secret(least: &[u8; 36], keys: &[(ScriptBuf, SecretKey)]) -> Result<SecretKey, SpSendError> {
    send::create_silentpayment_partial_secret(least, keys)
}

pub fn c_outputs(partial: SecretKey, codes: &[SilentPaymentCode]) -> Payments {
    send::create_silentpayment_scriptpubkeys(partial, codes)
}

pub fn c_sp_sender(spend_sk: SecretKey, inputs: &[SpOut], codes: &[SilentPaymentCode]) -> Result<Payments, SpSendError> {
    SpSender::new(spend_sk).send_to(inputs, codes)
}

pub fn c_xpriv_sender(
    xpriv: Xpriv,
    inputs: &[(OutPoint, (ScriptBuf, DerivationPath))],
    codes: &[SilentPaymentCode],
) -> Result<Payments, SpSendError> {
    XprivSilentPaymentSender::new(xpriv).send_to(inputs, codes)
}

pub fn c_derive<C: Signing + Verification, K: GetKey>(
    psbt: &mut Psbt,
    k: &K,
    codes: &[SilentPaymentCode],
    secp: &Secp256k1<C>,
) -> Result<(), SpSendError> {
    derive_sp(psbt, k, codes, secp)
}

pub fn c_add_data(psbt: &mut Psbt, i: usize, spend: PublicKey, tweak: Scalar) {
    add_sp_data_to_input(psbt, i, spend, tweak)
}

pub fn c_sign<C: Signing + Verification, K: GetKey>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>) {
    sign_sp(psbt, k, secp)
}

pub fn c_new_code(scan: PublicKey, spend: PublicKey, network: Network) -> SilentPaymentCode {
    SilentPaymentCode::new_v0(scan, spend, network)
}

pub fn c_version(c: &SilentPaymentCode) -> u8 {
    c.version()
}

pub fn c_labelled(c: &SilentPaymentCode, label: Scalar) -> Result<SilentPaymentCode, secp256k1::Error> {
    c.add_label(label)
}

pub fn c_placeholder(c: &SilentPaymentCode) -> ScriptBuf {
    c.get_placeholder_p2tr_spk()
}

pub fn c_decode(s: &str) -> Option<(u8, PublicKey, PublicKey, Network)> {
    match SilentPaymentCode::try_from(s) {
        Ok(c) => Some((c.version(), c.scan, c.spend, c.network)),
        Err(_) => None,
    }
}

pub fn c_encode(c: &SilentPaymentCode) -> String {
    c.to_string()
}

pub fn c_fmt(c: &SilentPaymentCode, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    core::fmt::Display::fmt(c, f)
}

pub fn c_spout_txout(s: &SpOut) -> TxOut {
    TxOut::from(s)
}

pub fn c_spout_meta(s: &SpOut) -> (SecretKey, Option<u32>) {
    let m = SpMeta::from(s);
    (m.tweak, m.label)
}

pub fn c_dleq_verify(a: PublicKey, b: PublicKey, c: PublicKey, proof: &[u8; 64], g: PublicKey, m: Option<&[u8; 32]>) -> Option<bool> {
    ::dleq::dleq_verify_proof(a, b, c, proof, g, m).ok()
}

pub fn c_dleq_prove(a: SecretKey, b: PublicKey, r: &[u8; 32], g: PublicKey, m: Option<&[u8; 32]>) -> Option<[u8; 64]> {
    ::dleq::dleq_generate_proof(a, b, r, g, m).ok()
}

// ---- second indexer
pub fn c_i2_add_label<A: Anchor>(s: &mut SpIndexerV2<A>, num: u32) -> ChangeSet<A> {
    s.add_label(num)
}

pub fn c_i2_index_label(s: &mut SpIndex, l: &Label) {
    s.index_label(l)
}

pub fn c_i2_record(s: &mut SpIndex, at: OutPoint, o: SpOut) {
    s.index_spout(at, o)
}

pub fn c_i2_address<A: Anchor>(s: &SpIndexerV2<A>, network: Network) -> SilentPaymentCode {
    s.get_address(network)
}

pub fn c_i2_labelled_address<A: Anchor>(s: &mut SpIndexerV2<A>, num: u32, network: Network) -> SilentPaymentCode {
    s.get_labeled_address(num, network)
}

pub fn c_i2_index_tx<A: Anchor>(s: &mut SpIndexerV2<A>, tx: &Transaction, partial: &PublicKey) -> ChangeSet<A> {
    s.index_tx(tx, partial)
}

pub fn c_i2_apply<A: Anchor>(s: &mut SpIndexerV2<A>, c: ChangeSet<A>) {
    s.apply_changeset(c)
}

pub fn c_i2_restore<A: Anchor>(c: ChangeSet<A>) -> Option<(SecretKey, PublicKey, SpIndex, TxGraph<A>)> {
    let s = SpIndexerV2::try_from(c).ok()?;
    Some((*s.scan_sk(), *s.spend_pk(), s.index().clone(), s.graph().clone()))
}

pub fn c_i2_new<A: Anchor>(scan_sk: SecretKey, spend_pk: PublicKey) -> (SecretKey, PublicKey, SpIndex, TxGraph<A>) {
    let s = SpIndexerV2::new(scan_sk, spend_pk);
    (*s.scan_sk(), *s.spend_pk(), s.index().clone(), s.graph().clone())
}

pub fn c_i2_snapshot<A: Anchor>(s: &SpIndexerV2<A>) -> ChangeSet<A> {
    s.initial_changeset()
}

pub fn c_i2_known_label(s: &SpIndex, num: u32) -> Option<Scalar> {
    s.get_label(num)
}

pub fn c_i2_watched<A: Anchor>(s: &SpIndexerV2<A>, tweak: &PublicKey) -> Vec<[u8; 34]> {
    s.derive_spks_for_tweak(tweak)
}

pub fn c_i2_anchor_at<A: Anchor>(s: &mut SpIndexerV2<A>, txid: Txid, a: A) -> ChangeSet<A> {
    s.insert_anchor(txid, a)
}

pub fn c_i2_seen<A: Anchor>(s: &mut SpIndexerV2<A>, txid: Txid, at: u64) -> ChangeSet<A> {
    s.insert_seen_at(txid, at)
}

pub fn c_i2_evicted<A: Anchor>(s: &mut SpIndexerV2<A>, txid: Txid, at: u64) -> ChangeSet<A> {
    s.insert_evicted_at(txid, at)
}

pub fn c_i2_evicted_batch<A: Anchor>(s: &mut SpIndexerV2<A>, ats: Vec<(Txid, u64)>) -> ChangeSet<A> {
    s.batch_insert_relevant_evicted_at(ats)
}

pub fn c_i2_block_relevant<A: Anchor + for<'b> From<TxPosInBlock<'b>>>(s: &mut SpIndexerV2<A>, b: &Block, p: HashMap<Txid, PublicKey>, h: u32) -> ChangeSet<A> {
    s.apply_block_relevant(b, p, h)
}

pub fn c_i2_block_all<A: Anchor + for<'b> From<TxPosInBlock<'b>>>(s: &mut SpIndexerV2<A>, b: &Block, p: HashMap<Txid, PublicKey>, h: u32) -> ChangeSet<A> {
    s.apply_block(b, p, h)
}

pub fn c_i2_insert_relevant<A: Anchor>(s: &mut SpIndexerV2<A>, txs: Vec<(Arc<Transaction>, PublicKey, Vec<A>)>) -> ChangeSet<A> {
    s.batch_insert_relevant(txs)
}

pub fn c_i2_insert_relevant_unconfirmed<A: Anchor>(s: &mut SpIndexerV2<A>, txs: Vec<(Arc<Transaction>, PublicKey, u64)>) -> ChangeSet<A> {
    s.batch_insert_relevant_unconfirmed(txs)
}

pub fn c_i2_insert_unconfirmed<A: Anchor>(s: &mut SpIndexerV2<A>, txs: Vec<(Arc<Transaction>, PublicKey, u64)>) -> ChangeSet<A> {
    s.batch_insert_unconfirmed(txs)
}

pub fn c_i2_merge<A: Ord>(c: &mut ChangeSet<A>, d: ChangeSet<A>) {
    c.merge(d)
}

pub fn c_i2_is_empty<A: Ord>(c: &ChangeSet<A>) -> bool {
    c.is_empty()
}

pub fn c_i2_by_script<'a>(s: &'a SpIndex, spk: &ScriptBuf) -> Option<&'a SecretKey> {
    s.get_by_script(spk)
}

pub fn c_i2_by_label(s: &SpIndex, m: Option<u32>) -> Vec<&SecretKey> {
    s.get_by_label(m).collect()
}

pub fn c_i2_by_xonly(s: &SpIndex) -> Vec<(XOnlyPublicKey, &OutPoint)> {
    s.by_xonly().collect()
}

pub fn c_i2_in_tx(s: &SpIndex, txid: Txid) -> Vec<&SecretKey> {
    s.txouts_in_tx(txid).collect()
}

// ---- first indexer
pub fn c_i1_add_label(s: &mut SpIndexes, code: SilentPaymentCode, scan: SecretKey, m: u32) -> Option<SilentPaymentCode> {
    s.add_label(code, scan, m).ok()
}

pub fn c_i1_label(s: &SpIndexes, m: u32) -> Option<Scalar> {
    s.get_label(m)
}

pub fn c_i1_in_tx(s: &SpIndexes, txid: Txid) -> Vec<&SpOut> {
    s.txouts_in_tx(txid).collect()
}

pub fn c_i1_txout(s: &SpIndexes, at: OutPoint) -> Option<TxOut> {
    s.txout(at)
}

pub fn c_i1_load(c: SpIndexesChangeSet) -> SpIndexes {
    SpIndexes::from(c)
}

pub fn c_i1_store(c: SpIndexes) -> SpIndexesChangeSet {
    SpIndexesChangeSet::from(c)
}

pub fn c_i1_merge(c: &mut SpIndexesChangeSet, d: SpIndexesChangeSet) {
    c.merge(d)
}

pub fn c_i1_is_empty(c: &SpIndexesChangeSet) -> bool {
    c.is_empty()
}

pub fn c_i1_index_tx<A: Anchor, T: PrevoutSource>(s: &mut SpIndexer<T, A>, tx: &Transaction) -> Option<tx_graph::ChangeSet<A>> {
    s.index_tx(tx).ok()
}

pub fn c_i1_spends<A: Anchor, T: PrevoutSource>(s: &SpIndexer<T, A>, tx: &Transaction) -> bool {
    s.spends_owned_spouts(tx)
}

pub fn c_o_store(db: Arc<Mutex<Database>>, filters: Vec<IndexedFilter>) -> Vec<BTreeMap<u32, BlockHash>> {
    let mut buffer = DatabaseBuffer::new(db);
    let mut out = vec![];
    for f in filters {
        out.extend(buffer.push_filter(f).map(|r| r.writes));
    }
    out.push(buffer.write_queue().writes);
    out
}

pub async fn c_o_filters(
    db: Arc<Mutex<Database>>,
    receiver: UnboundedReceiver<Event>,
    sender: UnboundedSender<FilterEvent>,
    birthday: u32,
) -> Result<(), UpdateError> {
    FilterSubscriber::new(DatabaseBuffer::new(db), receiver, sender, birthday).run().await
}

pub async fn c_o_tweaks(
    unspent: Vec<[u8; 34]>,
    indexer: SpIndexerV2<ConfirmationBlockTime>,
    host: String,
    requests: UnboundedReceiver<FilterEvent>,
    sender: UnboundedSender<TweakEvent>,
) -> Result<(), BlindbitError> {
    let (mut s, _) = BlindbitSubscriber::new(unspent, indexer, host, requests, sender)?;
    s.run().await;
    Ok(())
}

pub async fn c_o_get_tweaks(host: String, height: u32, dust: bitcoin::Amount) -> Result<Vec<PublicKey>, BlindbitError> {
    BlindbitClient::new(host)?.tweaks(height, dust).await
}

pub async fn c_o_get_height(host: String) -> Result<Height, BlindbitError> {
    BlindbitClient::new(host)?.block_height().await
}

pub async fn c_o_get_info(host: String) -> Result<InfoResponse, BlindbitError> {
    BlindbitClient::new(host)?.info().await
}

// ---- what is stored
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub fn c_put_label<S: Serializer>(l: &Label, s: S) -> Result<S::Ok, S::Error> {
    l.serialize(s)
}

pub fn c_get_label<'de, D: Deserializer<'de>>(d: D) -> Result<Label, D::Error> {
    Label::deserialize(d)
}

pub fn c_put_scalar<S: Serializer>(l: &indexer::v2::indexes::ScalarBytes, s: S) -> Result<S::Ok, S::Error> {
    l.serialize(s)
}

pub fn c_get_scalar<'de, D: Deserializer<'de>>(d: D) -> Result<indexer::v2::indexes::ScalarBytes, D::Error> {
    indexer::v2::indexes::ScalarBytes::deserialize(d)
}

pub fn c_put_changes<A: Ord + Serialize, S: Serializer>(x: &ChangeSet<A>, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn c_get_changes<'de, A: Ord + Deserialize<'de>, D: Deserializer<'de>>(d: D) -> Result<ChangeSet<A>, D::Error> {
    ChangeSet::deserialize(d)
}

pub fn c_put_index<S: Serializer>(x: &SpIndexesChangeSet, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn c_get_index<'de, D: Deserializer<'de>>(d: D) -> Result<SpIndexesChangeSet, D::Error> {
    SpIndexesChangeSet::deserialize(d)
}

pub fn c_put_found<S: Serializer>(x: &SpOut, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn c_get_found<'de, D: Deserializer<'de>>(d: D) -> Result<SpOut, D::Error> {
    SpOut::deserialize(d)
}

pub fn c_put_meta<S: Serializer>(x: &SpMeta, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn c_get_meta<'de, D: Deserializer<'de>>(d: D) -> Result<SpMeta, D::Error> {
    SpMeta::deserialize(d)
}

pub fn c_i1_prevouts(s: &indexer::Custom<'_>, tx: &Transaction) -> Vec<TxOut> {
    s.get_tx_prevouts(tx)
}

/// (version, scan, spend, network)
pub fn c_new(scan: PublicKey, spend: PublicKey, network: Network) -> (u8, PublicKey, PublicKey, Network) {
    let c = SilentPaymentCode::new_v0(scan, spend, network);
    (c.version(), c.scan, c.spend, c.network)
}
