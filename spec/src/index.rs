//! Indexers: what is recorded, what is looked up, what is persisted.
use crate::receive::{self, label, output_secret};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{SpOut, SpReceiveError};
use bitcoin::key::Secp256k1;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Block, Network, OutPoint, ScriptBuf, Transaction, TxOut, Txid, XOnlyPublicKey};
use indexer::bdk_chain::{tx_graph, Anchor, BlockId, Merge, TxGraph, TxPosInBlock};
use indexer::v2::indexes::{Label, SpIndex};
use indexer::v2::ChangeSet;
use indexer::{PrevoutSource, SpIndexes, SpIndexesChangeSet};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

/// The state of the second indexer (its fields are private).
pub struct Keys {
    pub scan_sk: SecretKey,
    pub spend_pk: PublicKey,
}

pub struct State<A> {
    pub sp_pub: Keys,
    pub index: SpIndex,
    pub graph: TxGraph<A>,
}

fn point(t: &Scalar) -> PublicKey {
    SecretKey::from_slice(&t.to_be_bytes()).unwrap().public_key(&Secp256k1::new())
}

fn empty<A>() -> ChangeSet<A> {
    ChangeSet {
        scan_sk: None,
        spend_pk: None,
        txid_to_partial_secret: BTreeMap::new(),
        label_lookup: BTreeSet::new(),
        graph: Default::default(),
    }
}

fn only_graph<A>(graph: tx_graph::ChangeSet<A>) -> ChangeSet<A> {
    ChangeSet { graph, ..empty() }
}

/// m's tweak is hash_Label(b_scan || m), its point tweak·G; both look-ups and the changeset get it
pub fn add_label<A: Anchor>(s: &mut State<A>, num: u32) -> ChangeSet<A> {
    let tweak = label(s.sp_pub.scan_sk, num);
    let p = point(&tweak);
    s.index.label_lookup.insert(p, (tweak, num));
    s.index.num_to_label.insert(num, p);
    let mut c = empty();
    c.label_lookup.insert(Label { num, tweak, point: p });
    c
}

pub fn index_label(s: &mut SpIndex, l: &Label) {
    s.num_to_label.insert(l.num, l.point);
    s.label_lookup.insert(l.point, (l.tweak, l.num));
}

pub fn address<A: Anchor>(s: &State<A>, network: Network) -> SilentPaymentCode {
    SilentPaymentCode::new_v0(s.sp_pub.scan_sk.public_key(&Secp256k1::new()), s.sp_pub.spend_pk, network)
}

/// the owned outputs of the transaction, each under every look-up, and the transaction's partial secret
pub fn index_tx<A: Anchor>(s: &mut State<A>, tx: &Transaction, partial: &PublicKey) -> ChangeSet<A> {
    let mut c = empty();
    let shared = receive::ecdh(&s.sp_pub.scan_sk, partial);
    if let Ok(found) = receive::scan(s.sp_pub.spend_pk, &s.index.label_lookup, tx, shared) {
        if !found.is_empty() {
            let txid = tx.compute_txid();
            s.index.txid_to_partial_secret.insert(txid, *partial);
            c.txid_to_partial_secret.insert(txid, *partial);
            for o in found {
                record(&mut s.index, o.outpoint, o);
            }
        }
    }
    c
}

pub fn record(s: &mut SpIndex, at: OutPoint, o: SpOut) {
    s.by_shared_secret.insert(at, o.tweak);
    s.by_label.insert((o.label, at));
    s.by_script.insert(o.script_pubkey, at);
}

/// an output of the transaction, or an outpoint it spends, is one of the recorded ones
pub fn relevant<A: Anchor>(s: &State<A>, tx: &Transaction) -> bool {
    let txid = tx.compute_txid();
    for i in 0..tx.output.len() as u32 {
        if s.index.by_shared_secret.contains_key(&OutPoint::new(txid, i)) {
            return true;
        }
    }
    for i in &tx.input {
        if s.index.by_shared_secret.contains_key(&i.previous_output) {
            return true;
        }
    }
    false
}

/// what the first indexer is made of (one field is private)
pub struct State1<T, A> {
    pub prevout_source: T,
    pub scanner: bdk_sp::receive::scan::Scanner,
    pub indexes: SpIndexes,
    pub tx_graph: TxGraph<A>,
}

/// a transaction without a shared secret pays nobody; every output found is recorded under every
/// look-up; the first time, the transaction, its secret and the outputs it spends are kept
pub fn v1_index_tx<A: Anchor, T: PrevoutSource>(s: &mut State1<T, A>, tx: &Transaction) -> Option<tx_graph::ChangeSet<A>> {
    let prevouts = s.prevout_source.get_tx_prevouts(tx);
    let mut c = tx_graph::ChangeSet::<A>::default();
    let shared = match s.scanner.get_shared_secret(tx, &prevouts) {
        Ok(k) => k,
        Err(_) => return Some(c),
    };
    let found = s.scanner.scan_txouts(tx, shared).ok()?;
    let txid = tx.compute_txid();
    if !found.is_empty() && !s.indexes.txid_to_shared_secret.contains_key(&txid) {
        s.indexes.txid_to_shared_secret.insert(txid, shared);
        c.merge(s.tx_graph.insert_tx(tx.clone()));
        for (txin, prevout) in tx.input.iter().zip(&prevouts) {
            c.merge(s.tx_graph.insert_txout(txin.previous_output, prevout.clone()));
        }
    }
    for o in found {
        s.indexes.script_to_spout.insert(o.script_pubkey.clone(), o.clone());
        s.indexes.label_to_spout.insert((o.label, o.clone()));
        s.indexes.spouts.insert(o.outpoint, o);
    }
    Some(c)
}

pub fn v1_spends<A: Anchor, T: PrevoutSource>(s: &State1<T, A>, tx: &Transaction) -> bool {
    for i in &tx.input {
        if s.indexes.spouts.contains_key(&i.previous_output) {
            return true;
        }
    }
    false
}

/// a changeset for other keys is ignored; the graph comes first, then the labels, and only then is
/// every transaction scanned again with its stored secret
pub fn apply<A: Anchor>(s: &mut State<A>, c: ChangeSet<A>) {
    if c.scan_sk != Some(s.sp_pub.scan_sk) || c.spend_pk != Some(s.sp_pub.spend_pk) {
        return;
    }
    s.graph.apply_changeset(c.graph);
    for l in &c.label_lookup {
        index_label(&mut s.index, l);
    }
    for (txid, partial) in &c.txid_to_partial_secret {
        if let Some(tx) = s.graph.get_tx(*txid) {
            index_tx(s, &tx, partial);
        }
    }
}

pub fn restore<A: Anchor>(c: ChangeSet<A>) -> Option<(SecretKey, PublicKey, SpIndex, TxGraph<A>)> {
    let scan_sk = c.scan_sk?;
    let spend_pk = c.spend_pk?;
    let mut s = State { sp_pub: Keys { scan_sk, spend_pk }, index: SpIndex::default(), graph: TxGraph::default() };
    apply(&mut s, c);
    Some((s.sp_pub.scan_sk, s.sp_pub.spend_pk, s.index, s.graph))
}

pub fn new<A: Anchor>(scan_sk: SecretKey, spend_pk: PublicKey) -> (SecretKey, PublicKey, SpIndex, TxGraph<A>) {
    (scan_sk, spend_pk, SpIndex::default(), TxGraph::default())
}

pub fn snapshot<A: Anchor>(s: &State<A>) -> ChangeSet<A> {
    let mut labels = BTreeSet::new();
    for (p, (tweak, num)) in &s.index.label_lookup {
        labels.insert(Label { num: *num, tweak: *tweak, point: *p });
    }
    ChangeSet {
        graph: s.graph.initial_changeset(),
        label_lookup: labels,
        txid_to_partial_secret: s.index.txid_to_partial_secret.clone(),
        scan_sk: Some(s.sp_pub.scan_sk),
        spend_pk: Some(s.sp_pub.spend_pk),
    }
}

pub fn labelled_address<A: Anchor>(s: &mut State<A>, num: u32, network: Network) -> SilentPaymentCode {
    let tweak = match known_label(&s.index, num) {
        Some(t) => t,
        None => {
            let _ = add_label(s, num);
            known_label(&s.index, num).unwrap()
        }
    };
    crate::code::labelled(&address(s, network), tweak).unwrap()
}

pub fn known_label(s: &SpIndex, num: u32) -> Option<Scalar> {
    let p = s.num_to_label.get(&num)?;
    let (tweak, _) = s.label_lookup.get(p)?;
    Some(*tweak)
}

/// the first output script of every label known, and of the unlabelled code
pub fn watched<A: Anchor>(s: &State<A>, tweak: &PublicKey) -> Vec<[u8; 34]> {
    let shared = receive::ecdh(&s.sp_pub.scan_sk, tweak);
    let mut out = Vec::new();
    for l in s.index.label_lookup.keys() {
        let spk = receive::script(&s.sp_pub.spend_pk, &shared, 0, Some(l));
        out.push(<[u8; 34]>::try_from(spk.into_bytes()).unwrap());
    }
    let spk = receive::script(&s.sp_pub.spend_pk, &shared, 0, None);
    out.push(<[u8; 34]>::try_from(spk.into_bytes()).unwrap());
    out
}

pub fn anchor_at<A: Anchor>(s: &mut State<A>, txid: Txid, a: A) -> ChangeSet<A> {
    only_graph(s.graph.insert_anchor(txid, a))
}

pub fn seen<A: Anchor>(s: &mut State<A>, txid: Txid, at: u64) -> ChangeSet<A> {
    only_graph(s.graph.insert_seen_at(txid, at))
}

pub fn evicted<A: Anchor>(s: &mut State<A>, txid: Txid, at: u64) -> ChangeSet<A> {
    only_graph(s.graph.insert_evicted_at(txid, at))
}

pub fn evicted_batch<A: Anchor>(s: &mut State<A>, ats: Vec<(Txid, u64)>) -> ChangeSet<A> {
    only_graph(s.graph.batch_insert_relevant_evicted_at(ats))
}

/// all of the block is scanned in order; a transaction that passes the filter after that enters the graph
pub fn block_with<A: Anchor + for<'b> From<TxPosInBlock<'b>>>(
    s: &mut State<A>,
    block: &Block,
    partial: HashMap<Txid, PublicKey>,
    height: u32,
    all: bool,
) -> ChangeSet<A> {
    let mut c = empty();
    let block_id = BlockId { height, hash: block.block_hash() };
    for (i, tx) in block.txdata.iter().enumerate() {
        if i == 0 {
            continue;
        }
        let txid = tx.compute_txid();
        if let Some(p) = partial.get(&txid) {
            let d = index_tx(s, tx, p);
            merge(&mut c, d);
        }
        if all || relevant(s, tx) {
            let a = A::from(TxPosInBlock { block, block_id, tx_pos: i });
            c.graph.merge(s.graph.insert_tx(tx.clone()));
            c.graph.merge(s.graph.insert_anchor(txid, a));
        }
    }
    c
}

pub fn block_relevant<A: Anchor + for<'b> From<TxPosInBlock<'b>>>(s: &mut State<A>, b: &Block, p: HashMap<Txid, PublicKey>, h: u32) -> ChangeSet<A> {
    block_with(s, b, p, h, false)
}

pub fn block_all<A: Anchor + for<'b> From<TxPosInBlock<'b>>>(s: &mut State<A>, b: &Block, p: HashMap<Txid, PublicKey>, h: u32) -> ChangeSet<A> {
    block_with(s, b, p, h, true)
}

/// first every transaction is scanned, then those relevant enter the graph with their anchors
pub fn insert_relevant<A: Anchor>(s: &mut State<A>, txs: Vec<(Arc<Transaction>, PublicKey, Vec<A>)>) -> ChangeSet<A> {
    let mut c = empty();
    for (tx, partial, _) in &txs {
        let d = index_tx(s, tx, partial);
        merge(&mut c, d);
    }
    for (tx, _, anchors) in txs {
        if relevant(s, &tx) {
            let txid = tx.compute_txid();
            c.graph.merge(s.graph.insert_tx(tx));
            for a in anchors {
                c.graph.merge(s.graph.insert_anchor(txid, a));
            }
        }
    }
    c
}

pub fn insert_relevant_unconfirmed<A: Anchor>(s: &mut State<A>, txs: Vec<(Arc<Transaction>, PublicKey, u64)>) -> ChangeSet<A> {
    let mut c = empty();
    for (tx, partial, _) in &txs {
        let d = index_tx(s, tx, partial);
        merge(&mut c, d);
    }
    let mut kept = Vec::new();
    for (tx, _, at) in txs {
        if relevant(s, &tx) {
            kept.push((tx, at));
        }
    }
    c.graph = s.graph.batch_insert_unconfirmed(kept);
    c
}

pub fn insert_unconfirmed<A: Anchor>(s: &mut State<A>, txs: Vec<(Arc<Transaction>, PublicKey, u64)>) -> ChangeSet<A> {
    let mut c = empty();
    let mut plain = Vec::new();
    for (tx, _, at) in &txs {
        plain.push((tx.clone(), *at));
    }
    c.graph = s.graph.batch_insert_unconfirmed(plain);
    for (tx, partial, _) in &txs {
        let d = index_tx(s, tx, partial);
        merge(&mut c, d);
    }
    c
}

/// nothing of either side is lost
pub fn merge<A: Ord>(c: &mut ChangeSet<A>, d: ChangeSet<A>) {
    if let Some(k) = d.scan_sk {
        // merging the records of two different wallets is a mistake of the caller
        debug_assert!(c.scan_sk.is_none() || c.scan_sk == d.scan_sk);
        c.scan_sk = Some(k);
    }
    if let Some(k) = d.spend_pk {
        debug_assert!(c.spend_pk.is_none() || c.spend_pk == d.spend_pk);
        c.spend_pk = Some(k);
    }
    for (k, v) in d.txid_to_partial_secret {
        c.txid_to_partial_secret.insert(k, v);
    }
    for l in d.label_lookup {
        c.label_lookup.insert(l);
    }
    c.graph.merge(d.graph);
}

pub fn is_empty<A: Ord>(c: &ChangeSet<A>) -> bool {
    c.scan_sk.is_none()
        && c.spend_pk.is_none()
        && c.txid_to_partial_secret.is_empty()
        && c.label_lookup.is_empty()
        && c.graph.is_empty()
}

// ---- look-ups
pub fn by_script<'a>(s: &'a SpIndex, spk: &ScriptBuf) -> Option<&'a SecretKey> {
    match s.by_script.get(spk) {
        Some(at) => s.by_shared_secret.get(at),
        None => None,
    }
}

pub fn by_label(s: &SpIndex, m: Option<u32>) -> Vec<&SecretKey> {
    let mut out = Vec::new();
    for (l, at) in &s.by_label {
        if *l == m {
            if let Some(k) = s.by_shared_secret.get(at) {
                out.push(k);
            }
        }
    }
    out
}

pub fn by_xonly(s: &SpIndex) -> Vec<(XOnlyPublicKey, &OutPoint)> {
    let mut out = Vec::new();
    for (spk, at) in &s.by_script {
        out.push((XOnlyPublicKey::from_slice(&spk.as_bytes()[2..]).unwrap(), at));
    }
    out
}

pub fn in_tx(s: &SpIndex, txid: Txid) -> Vec<&SecretKey> {
    let mut out = Vec::new();
    for (_, k) in s.by_shared_secret.range(OutPoint { txid, vout: 0 }..=OutPoint { txid, vout: u32::MAX }) {
        out.push(k);
    }
    out
}

// ---- first indexer
pub fn v1_add_label(s: &mut SpIndexes, code: SilentPaymentCode, scan: SecretKey, m: u32) -> Option<SilentPaymentCode> {
    let tweak = label(scan, m);
    let labelled = crate::code::labelled(&code, tweak).ok()?;
    let p = point(&tweak);
    s.label_to_tweak.insert(p, (tweak, m));
    s.num_to_label.insert(m, p);
    Some(labelled)
}

pub fn v1_label(s: &SpIndexes, m: u32) -> Option<Scalar> {
    let p = s.num_to_label.get(&m)?;
    Some(s.label_to_tweak.get(p)?.0)
}

pub fn v1_in_tx(s: &SpIndexes, txid: Txid) -> Vec<&SpOut> {
    let mut out = Vec::new();
    for (_, k) in s.spouts.range(OutPoint { txid, vout: 0 }..=OutPoint { txid, vout: u32::MAX }) {
        out.push(k);
    }
    out
}

pub fn v1_txout(s: &SpIndexes, at: OutPoint) -> Option<TxOut> {
    let o = s.spouts.get(&at)?;
    Some(TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() })
}

pub fn v1_load(c: SpIndexesChangeSet) -> SpIndexes {
    let mut label_to_tweak = BTreeMap::new();
    for (k, (t, m)) in c.label_to_tweak {
        label_to_tweak.insert(k, (Scalar::from(t), m));
    }
    SpIndexes {
        spouts: c.spouts,
        script_to_spout: c.script_to_spout,
        txid_to_shared_secret: c.txid_to_shared_secret,
        label_to_spout: c.label_to_spout,
        num_to_label: c.num_to_label,
        label_to_tweak,
    }
}

pub fn v1_store(c: SpIndexes) -> SpIndexesChangeSet {
    let mut label_to_tweak = BTreeMap::new();
    for (k, (t, m)) in c.label_to_tweak {
        label_to_tweak.insert(k, (SecretKey::from_slice(&t.to_be_bytes()).unwrap(), m));
    }
    SpIndexesChangeSet {
        spouts: c.spouts,
        script_to_spout: c.script_to_spout,
        txid_to_shared_secret: c.txid_to_shared_secret,
        label_to_spout: c.label_to_spout,
        num_to_label: c.num_to_label,
        label_to_tweak,
    }
}

pub fn v1_merge(c: &mut SpIndexesChangeSet, d: SpIndexesChangeSet) {
    for (k, v) in d.spouts {
        c.spouts.insert(k, v);
    }
    for (k, v) in d.script_to_spout {
        c.script_to_spout.insert(k, v);
    }
    for (k, v) in d.txid_to_shared_secret {
        c.txid_to_shared_secret.insert(k, v);
    }
    for v in d.label_to_spout {
        c.label_to_spout.insert(v);
    }
    for (k, v) in d.label_to_tweak {
        c.label_to_tweak.insert(k, v);
    }
    for (k, v) in d.num_to_label {
        c.num_to_label.insert(k, v);
    }
}

pub fn v1_is_empty(c: &SpIndexesChangeSet) -> bool {
    c.spouts.is_empty()
        && c.script_to_spout.is_empty()
        && c.txid_to_shared_secret.is_empty()
        && c.label_to_spout.is_empty()
        && c.label_to_tweak.is_empty()
        && c.num_to_label.is_empty()
}

/// the outputs spent by the inputs, as the node knows them
pub fn v1_prevouts(s: &indexer::Custom<'_>, tx: &Transaction) -> Vec<TxOut> {
    use bdk_bitcoind_rpc::bitcoincore_rpc::RpcApi;
    tx.input
        .iter()
        .map(|i| {
            let p = i.previous_output;
            let funding = s.0.get_raw_transaction_info(&p.txid, None).unwrap().transaction().unwrap();
            funding.tx_out(p.vout as usize).unwrap().clone()
        })
        .collect()
}
