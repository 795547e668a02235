//! What is written to and read back from storage.
use bdk_sp::receive::{SpMeta, SpOut};
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Amount, OutPoint, ScriptBuf, Txid};
use indexer::bdk_chain::tx_graph;
use indexer::v2::ChangeSet;
use indexer::SpIndexesChangeSet;
use indexer::v2::indexes::{Label, ScalarBytes};
use serde::de::{self, Deserializer, SeqAccess, Visitor};
use serde::ser::{SerializeTuple, Serializer};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

/// a label is written as (number, tweak, point)
pub fn put_label<S: Serializer>(l: &Label, s: S) -> Result<S::Ok, S::Error> {
    let mut t = s.serialize_tuple(3)?;
    t.serialize_element(&l.num)?;
    t.serialize_element(&ScalarBytes(l.tweak))?;
    t.serialize_element(&l.point)?;
    t.end()
}

/// and read in the same order
pub fn get_label<'de, D: Deserializer<'de>>(d: D) -> Result<Label, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
        type Value = Label;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("label")
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<Label, A::Error> {
            let num = match s.next_element::<u32>()? {
                Some(x) => x,
                None => return Err(de::Error::invalid_length(0, &self)),
            };
            let tweak = match s.next_element::<ScalarBytes>()? {
                Some(x) => x.0,
                None => return Err(de::Error::invalid_length(1, &self)),
            };
            let point = match s.next_element::<PublicKey>()? {
                Some(x) => x,
                None => return Err(de::Error::invalid_length(2, &self)),
            };
            Ok(Label { num, tweak, point })
        }
    }
    d.deserialize_tuple(3, V)
}

/// a tweak is written as its 32 big-endian bytes
pub fn put_scalar<S: Serializer>(x: &ScalarBytes, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_bytes(&x.0.to_be_bytes())
}

/// and read from exactly 32 bytes, given as a byte string or one by one, that are below the group order
pub fn get_scalar<'de, D: Deserializer<'de>>(d: D) -> Result<ScalarBytes, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
        type Value = [u8; 32];
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("scalar")
        }
        fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<[u8; 32], E> {
            match <[u8; 32]>::try_from(b) {
                Ok(a) => Ok(a),
                Err(_) => Err(E::invalid_length(b.len(), &self)),
            }
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<[u8; 32], A::Error> {
            let mut a = [0u8; 32];
            for i in 0..32 {
                a[i] = match s.next_element::<u8>()? {
                    Some(x) => x,
                    None => return Err(de::Error::invalid_length(i, &self)),
                };
            }
            match s.next_element::<u8>()? {
                None => Ok(a),
                Some(_) => Err(de::Error::invalid_length(33, &self)),
            }
        }
    }
    let b = d.deserialize_bytes(V)?;
    match Scalar::from_be_bytes(b) {
        Ok(x) => Ok(ScalarBytes(x)),
        Err(e) => Err(de::Error::custom(e)),
    }
}

/// every part of the second indexer's change set is written under its own name
#[derive(Serialize, Deserialize)]
#[serde(rename = "ChangeSet")]
#[serde(bound(deserialize = "A: Ord + serde::Deserialize<'de>", serialize = "A: Ord + serde::Serialize"))]
pub struct Changes<A> {
    pub scan_sk: Option<SecretKey>,
    pub spend_pk: Option<PublicKey>,
    pub txid_to_partial_secret: BTreeMap<Txid, PublicKey>,
    pub label_lookup: BTreeSet<Label>,
    pub graph: tx_graph::ChangeSet<A>,
}

/// so is every part of the first one's
#[derive(Serialize, Deserialize)]
#[serde(rename = "SpIndexesChangeSet")]
pub struct IndexChanges {
    pub spouts: BTreeMap<OutPoint, SpOut>,
    pub script_to_spout: BTreeMap<ScriptBuf, SpOut>,
    pub txid_to_shared_secret: BTreeMap<Txid, PublicKey>,
    pub label_to_spout: BTreeSet<(Option<u32>, SpOut)>,
    pub label_to_tweak: BTreeMap<PublicKey, (SecretKey, u32)>,
    pub num_to_label: BTreeMap<u32, PublicKey>,
}

/// and of an output found
#[derive(Serialize, Deserialize)]
#[serde(rename = "SpOut")]
pub struct Found {
    pub outpoint: OutPoint,
    pub tweak: SecretKey,
    pub script_pubkey: ScriptBuf,
    pub amount: Amount,
    pub label: Option<u32>,
}

#[derive(Serialize, Deserialize)]
#[serde(rename = "SpMeta")]
pub struct Meta {
    pub tweak: SecretKey,
    pub label: Option<u32>,
}

pub fn put_changes<A: Ord + Serialize, S: Serializer>(x: &Changes<A>, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn get_changes<'de, A: Ord + Deserialize<'de>, D: Deserializer<'de>>(d: D) -> Result<ChangeSet<A>, D::Error> {
    let x = Changes::<A>::deserialize(d)?;
    Ok(ChangeSet { scan_sk: x.scan_sk, spend_pk: x.spend_pk, txid_to_partial_secret: x.txid_to_partial_secret, label_lookup: x.label_lookup, graph: x.graph })
}

pub fn put_index<S: Serializer>(x: &IndexChanges, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn get_index<'de, D: Deserializer<'de>>(d: D) -> Result<SpIndexesChangeSet, D::Error> {
    let x = IndexChanges::deserialize(d)?;
    Ok(SpIndexesChangeSet { spouts: x.spouts, script_to_spout: x.script_to_spout, txid_to_shared_secret: x.txid_to_shared_secret, label_to_spout: x.label_to_spout, label_to_tweak: x.label_to_tweak, num_to_label: x.num_to_label })
}

pub fn put_found<S: Serializer>(x: &Found, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn get_found<'de, D: Deserializer<'de>>(d: D) -> Result<SpOut, D::Error> {
    let x = Found::deserialize(d)?;
    Ok(SpOut { outpoint: x.outpoint, tweak: x.tweak, script_pubkey: x.script_pubkey, amount: x.amount, label: x.label })
}

pub fn put_meta<S: Serializer>(x: &Meta, s: S) -> Result<S::Ok, S::Error> {
    x.serialize(s)
}

pub fn get_meta<'de, D: Deserializer<'de>>(d: D) -> Result<SpMeta, D::Error> {
    let x = Meta::deserialize(d)?;
    Ok(SpMeta { tweak: x.tweak, label: x.label })
}
