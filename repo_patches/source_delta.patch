From bec330a7152373ff7b732749cd3e608065f76ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 01/14] fix: return an error for silent payment codes without
 version character

---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..53c3846 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = payload
+            .next()
+            .ok_or(VersionError::WrongPayloadLength)?
+            .to_u8();
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From e3cecc488fdde69ca8002d56f01e036da153af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 02/14] fix: do not panic on taproot control blocks shorter
 than 33 bytes

---
 silentpayments/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..5fbeebc 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,7 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| control_block.get(1..33) == Some(&NUMS_H[..]))
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From 8ea3038adc9f7cdef411cd31d1d0f3ed508278a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 03/14] fix: use the untweaked key for inputs which are not
 taproot in XprivSilentPaymentSender

---
 silentpayments/src/send/bip32.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..240558b 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -35,6 +35,12 @@ impl XprivSilentPaymentSender {
             lex_min.update(outpoint);
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
+            // Only taproot outputs commit to a tweaked key
+            if !spk.is_p2tr() {
+                spks_with_keys.push((spk.clone(), bip32_privkey.private_key));
+                continue;
+            }
+
             let mut internal_privkey = bip32_privkey.private_key;
             let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
 
-- 
2.43.0


From edf997aa2a1605a5da84757312976c5501358fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 04/14] fix: sum input keys whose partial sums cancel when
 sending

---
 silentpayments/src/send/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..3688833 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use bitcoin::{
     key::{Parity, Secp256k1},
-    secp256k1::{PublicKey, Scalar, SecretKey},
+    secp256k1::{self, PublicKey, Scalar, SecretKey},
     ScriptBuf, XOnlyPublicKey,
 };
 use std::collections::HashMap;
@@ -45,12 +45,15 @@ pub fn create_silentpayment_partial_secret(
         return Err(SpSendError::MissingInputsForSharedSecretDerivation);
     }
 
-    // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
-    // Then skip first element to avoid reuse
-    for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
+    // The sum of the first keys may be zero (None) even if the sum of all of them is not
+    let mut partial_sum: Option<SecretKey> = None;
+    for sk in available_keys {
+        partial_sum = match partial_sum {
+            Some(sum) => sum.add_tweak(&Scalar::from(sk)).ok(),
+            None => Some(sk),
+        };
     }
+    let a_sum = partial_sum.ok_or(secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From 0828df7d6479945b5145ecc54ae99e12658827c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 05/14] fix: keep the final script sig of nested segwit PSBT
 inputs

---
 silentpayments/src/send/psbt/mod.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..496d9a9 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -327,19 +327,16 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Returns a complete [`TxIn`] with witness or script_sig populated, or a [`SpSendError`] if
 /// neither final witness nor script_sig is available.
 fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSendError> {
-    if let Some(ref witness) = psbt_input.final_script_witness {
-        Ok(TxIn {
-            witness: witness.clone(),
-            ..txin.clone()
-        })
-    } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-        Ok(TxIn {
-            script_sig: script_sig.clone(),
-            ..txin.clone()
-        })
-    } else {
-        Err(SpSendError::MissingWitness)
+    // P2SH-P2WPKH inputs have both
+    if psbt_input.final_script_witness.is_none() && psbt_input.final_script_sig.is_none() {
+        return Err(SpSendError::MissingWitness);
     }
+
+    Ok(TxIn {
+        witness: psbt_input.final_script_witness.clone().unwrap_or_default(),
+        script_sig: psbt_input.final_script_sig.clone().unwrap_or_default(),
+        ..txin.clone()
+    })
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-- 
2.43.0


From 5eae48b365223637ebe92bf22cf148e162a20eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 06/14] fix: fail when the key of an eligible PSBT input is not
 known

---
 silentpayments/src/send/psbt/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 496d9a9..6951ae8 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -253,12 +253,15 @@ where
                                     Err(SpSendError::KeyError)
                                 }
                             }
-                            Ok(None) => Ok(None),
+                            // The receiver will count this input
+                            Ok(None) => Err(SpSendError::MissingInputsForSharedSecretDerivation),
                             Err(_) => Err(SpSendError::KeyError),
                         }
                     }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
+                    _ => match get_non_taproot_secret(psbt_input, k, secp) {
+                        Ok(None) => Err(SpSendError::MissingInputsForSharedSecretDerivation),
+                        maybe_secret => maybe_secret.map_err(|_| SpSendError::KeyError),
+                    },
                 })
                 .transpose()?
                 .flatten()
-- 
2.43.0


From 4cecb2618a2c5f45141dc1fdc9a278f5608713c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 07/14] fix: check that PSBT keys match the public key of their
 input

---
 silentpayments/src/send/psbt/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 6951ae8..524e164 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -258,7 +258,10 @@ where
                             Err(_) => Err(SpSendError::KeyError),
                         }
                     }
-                    _ => match get_non_taproot_secret(psbt_input, k, secp) {
+                    (_, pubkey) => match get_non_taproot_secret(psbt_input, k, secp) {
+                        Ok(Some(secret)) if secret.public_key(secp) != pubkey => {
+                            Err(SpSendError::KeyError)
+                        }
                         Ok(None) => Err(SpSendError::MissingInputsForSharedSecretDerivation),
                         maybe_secret => maybe_secret.map_err(|_| SpSendError::KeyError),
                     },
-- 
2.43.0


From f2629fce66d661624a2ec05765ee7c2e687eebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:29 +0000
Subject: [PATCH 08/14] fix: skip malformed silent payment fields of PSBT
 inputs instead of panicking

---
 silentpayments/src/send/psbt/mod.rs  | 37 +++++++++++++++++-----------
 silentpayments/src/send/psbt/sign.rs | 36 +++++++++++++++++----------
 2 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 524e164..e9c8ffe 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -366,20 +366,28 @@ where
 {
     for (key, value) in psbt_input.proprietary.clone() {
         if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
-            } else {
+            // Anyone can add fields to a PSBT: skip the ones which are not well formed
+            let Ok(spend_pk) = PublicKey::from_slice(&key.key) else {
+                continue;
+            };
+            let Ok(scalar) = <[u8; 32]>::try_from(value.as_slice()) else {
+                continue;
+            };
+            let Ok(tweak) = Scalar::from_be_bytes(scalar) else {
+                continue;
+            };
+            let output_key = match &psbt_input.witness_utxo {
+                Some(txout) if txout.script_pubkey.is_p2tr() => {
+                    match XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..]) {
+                        Ok(output_key) => output_key,
+                        Err(_) => continue,
+                    }
+                }
+                _ => continue,
+            };
+            let Ok(tweaked_spend_pk) = spend_pk.add_exp_tweak(secp, &tweak) else {
                 continue;
             };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
             let spend_sk = if let Ok(Some(sk)) =
                 k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
             {
@@ -388,8 +396,9 @@ where
                 continue;
             };
             if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
-                return Ok(Some(sk));
+                if let Ok(sk) = spend_sk.inner.add_tweak(&tweak) {
+                    return Ok(Some(sk));
+                }
             }
         }
     }
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..059e3f6 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -40,20 +40,28 @@ where
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
             if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
-
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
-                } else {
+                // Anyone can add fields to a PSBT: skip the ones which are not well formed
+                let Ok(spend_pk) = PublicKey::from_slice(&key.key) else {
+                    continue;
+                };
+                let Ok(scalar) = <[u8; 32]>::try_from(value.as_slice()) else {
+                    continue;
+                };
+                let Ok(tweak) = Scalar::from_be_bytes(scalar) else {
+                    continue;
+                };
+                let output_key = match &psbt.inputs[i].witness_utxo {
+                    Some(txout) if txout.script_pubkey.is_p2tr() => {
+                        match XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..]) {
+                            Ok(output_key) => output_key,
+                            Err(_) => continue,
+                        }
+                    }
+                    _ => continue,
+                };
+                let Ok(tweaked_spend_pk) = spend_pk.add_exp_tweak(secp, &tweak) else {
                     continue;
                 };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
                 let spend_sk = if let Ok(Some(sk)) =
                     k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
                 {
@@ -79,7 +87,9 @@ where
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
+                    let Ok(sk) = spend_sk.inner.add_tweak(&tweak) else {
+                        continue;
+                    };
                     let keypair = Keypair::from_secret_key(secp, &sk);
 
                     let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
-- 
2.43.0


From 9bd66416e74c013ef75a56401df8e730c36ef03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 09/14] fix: do not panic when signing a PSBT with an input
 without witness utxo

---
 silentpayments/src/send/psbt/sign.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index 059e3f6..94049bf 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -73,16 +73,21 @@ where
                     && tweaked_spend_pk.x_only_public_key().0 == output_key
                 {
                     let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
-                        .inputs
-                        .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
+                    // The signature commits to every spent output
+                    let Ok(prevouts) = psbt
+                        .iter_funding_utxos()
+                        .map(|utxo| utxo.cloned())
+                        .collect::<Result<Vec<TxOut>, _>>()
+                    else {
+                        continue;
+                    };
                     let prevouts = Prevouts::All(&prevouts);
 
-                    let sighash = cache
-                        .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
-                        .expect("failed to construct sighash");
+                    let Ok(sighash) =
+                        cache.taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                    else {
+                        continue;
+                    };
 
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
-- 
2.43.0


From 9c966012ff8d5e5a05f0ed6d65e2a859ac325856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:03 +0000
Subject: [PATCH 10/14] fix: index_tx of a transaction without eligible inputs
 no longer panics

---
 indexer/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..01a8832 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,10 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        // A transaction without eligible inputs has no shared secret: it cannot pay the wallet.
+        let Ok(ecdh_shared_secret) = self.scanner.get_shared_secret(tx, &prevouts) else {
+            return Ok(tx_graph::ChangeSet::default());
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From 96e3186669d709cce27830c6e6ea8485e0ae9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:03 +0000
Subject: [PATCH 11/14] fix: a change set that carries keys is not empty

---
 indexer/src/v2/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..384199c 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -437,7 +437,9 @@ impl<A: Ord> Merge for ChangeSet<A> {
     }
 
     fn is_empty(&self) -> bool {
-        self.txid_to_partial_secret.is_empty()
+        self.scan_sk.is_none()
+            && self.spend_pk.is_none()
+            && self.txid_to_partial_secret.is_empty()
             && self.label_lookup.is_empty()
             && self.graph.is_empty()
     }
-- 
2.43.0


From 8f88f08bec0eb0c0a3e73dc4e6fce45e2b1a80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 12/14] fix: a label's tweak can be read back from formats
 without byte strings

---
 indexer/src/v2/indexes.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..59b9b88 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // Formats without a byte string type (JSON) write the bytes as a sequence.
+            fn visit_seq<S>(self, mut seq: S) -> Result<Self::Value, S::Error>
+            where
+                S: de::SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (i, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+                }
+                if seq.next_element::<u8>()?.is_some() {
+                    return Err(de::Error::invalid_length(33, &self));
+                }
+                Ok(arr)
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From 7127b6341ec331273f61ee429383812b136aed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 13/14] fix: every input sign-psbt signs is signed for its own
 position

---
 cli/v1/src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index a0bc788..0137e33 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -919,13 +919,6 @@ fn main() -> anyhow::Result<()> {
                 .collect::<Vec<TxOut>>();
             let prevouts = Prevouts::All(&prevouts);
 
-            let sighash = SighashCache::new(&mut psbt.unsigned_tx)
-                .taproot_key_spend_signature_hash(0, &prevouts, sighash_type)
-                .expect("failed to construct sighash");
-
-            // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-            let msg = Message::from(sighash);
-
             for i in 0..psbt.inputs.len() {
                 let psbt_input = &mut psbt.inputs[i];
                 if let Some(txout) = &psbt_input.witness_utxo {
@@ -934,6 +927,13 @@ fn main() -> anyhow::Result<()> {
                         let keypair = Keypair::from_secret_key(&secp, &sk);
                         let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
 
+                        let sighash = SighashCache::new(&psbt.unsigned_tx)
+                            .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                            .expect("failed to construct sighash");
+
+                        // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+                        let msg = Message::from(sighash);
+
                         let signature = secp.sign_schnorr(&msg, &keypair);
 
                         let signature = Signature {
-- 
2.43.0


From bedfb6d44f8a095c33389ad57578bb057e475869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 14/14] fix: scan records transactions that only spend

---
 cli/v1/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 0137e33..095fdee 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -536,7 +536,9 @@ fn main() -> anyhow::Result<()> {
 
                 let block_id = BlockId { hash, height };
                 for (tx_pos, tx) in txdata.iter().enumerate().skip(1) {
-                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
+                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr())
+                        && !sp_indexer.spends_owned_spouts(tx)
+                    {
                         continue;
                     }
                     let tx_graph_stage = sp_indexer.index_tx(tx)?;
-- 
2.43.0

