#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import obligations

R = "silentpayments/src/receive/mod.rs"
L = "silentpayments/src/lib.rs"
S = "silentpayments/src/send/mod.rs"
H = "silentpayments/src/hashes.rs"
E = "silentpayments/src/encoding/mod.rs"
SC = "silentpayments/src/receive/scan.rs"
B32 = "silentpayments/src/send/bip32.rs"
PS = "silentpayments/src/send/psbt/mod.rs"
SG = "silentpayments/src/send/psbt/sign.rs"
B352 = "silentpayments/src/send/bip352.rs"

PROPS = []


def p(pid, title, statement, over, text, why, files, mech, state=None, technique="", note=""):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    PROPS.append((d, technique, note))


VF = "value-flow normal form of the compiler's MIR compared with a reference statement (translation validation)"
VN = ("Decides the whole input space of the entry point: all paths are summarised from MIR, loops by closed forms. Trusts the "
      "reference statement in /verif/spec, the models of library functions and the assumption that hash outputs are generic.")

p("C01", "Only the four eligible input kinds take part in shared secret derivation",
  "For every input and the script it spends, the input is classified as taproot key-or-script path, native segwit key hash, "
  "nested segwit key hash or legacy key hash exactly when the spent script, signature script and witness together have that form, and otherwise "
  "contributes nothing. A taproot script-path spend whose control block commits to the unspendable point is excluded, with or without an annex.",
  ["inputs"], "all transaction inputs (signature script, witness stack of any depth and content) and all spent scripts",
  "The vectors exercise a few well formed spends; classification depends on arbitrary witness stacks, annexes, control block lengths and script forms.",
  [L], [("tag_txin", L), ("SpInputs", L)], technique=VF, note=VN)

p("C02", "Each eligible input contributes exactly the public key its script commits to",
  "For every eligible input the contributed key is the key the spent script commits to: the x-only output key with even parity for taproot, the compressed last "
  "witness element for both segwit forms, and for legacy spends the last 33-byte window of the signature script whose hash equals the script's. "
  "Uncompressed or malformed keys contribute nothing rather than a wrong key.",
  ["inputs"], "all inputs and spent scripts, including malleated signature scripts and malformed keys",
  "Tests use fixed transactions; malleated signature scripts, uncompressed keys and extra pushes form an unbounded input space.",
  [R], [("extract_pubkey", R), ("tag_txin", L)], technique=VF, note=VN)

p("C03", "The smallest outpoint is chosen by its consensus serialization",
  "For every list of outpoints, the outpoint used for derivation is the least in byte order of the 36-byte consensus serialization (transaction id bytes, then "
  "little-endian output number), whatever the order of the list. An empty list yields no outpoint.",
  ["inputs"], "all lists of outpoints of any length and order",
  "Little-endian output numbers make byte order differ from numeric order only for some values; vectors cover a handful of lists.",
  [L], [("LexMin::update", L), ("LexMin::bytes", L)], [("LexMin", "running minimum over outpoint serializations")], VF, VN)

p("C04", "The receiver's tweak is input hash times the sum of all eligible keys",
  "For every transaction with its spent outputs, the public tweak is the input hash times the sum of the keys of all eligible inputs, where the input hash commits to the "
  "smallest outpoint over all inputs (eligible or not) and to that sum; the shared secret is the tweak times the scan key. "
  "It is an error, never a wrong point, when no input is eligible or the keys cancel.",
  ["inputs"], "all transactions and spent outputs (one per input) and all scan keys",
  "The vectors have at most a few inputs of fixed kinds; mixing, ordering and cancelling keys are not enumerable.",
  [R, SC, L], [("compute_tweak_data", R), ("Scanner::get_shared_secret", SC), ("compute_shared_secret", L), ("get_input_hash", H)], technique=VF, note=VN)

p("C05", "The sender's secret is input hash times the sum of parity-adjusted input keys",
  "For every set of input scripts and private keys, the sender's partial secret is the input hash times the sum of the keys of eligible inputs, where a taproot key is negated "
  "exactly when its public key has odd parity and no other key is ever negated. Every eligible input takes part once, and having none is an error.",
  ["inputs"], "all lists of scripts with keys and all smallest outpoints",
  "A wrong negation or a skipped input shows only for particular parities and mixes of script kinds.",
  [S], [("create_silentpayment_partial_secret", S), ("get_input_hash", H)], technique=VF, note=VN)

p("C06", "Derivation hashes follow the specified tag and byte layout",
  "The label tweak, input hash and output tweak are the tagged hashes of exactly the specified fields in the specified order and encoding: scan key and big-endian label number; "
  "36-byte outpoint and compressed key sum; compressed shared point and big-endian output counter. Distinct purposes use distinct tags.",
  ["inputs"], "all scan keys, label numbers, outpoints, key sums, shared points and counters",
  "A layout error that only shows for large counters or label numbers is outside the vectors, which use small numbers.",
  [H], [("get_label_tweak", H), ("get_input_hash", H), ("get_shared_secret", H)], technique=VF, note=VN)

p("C07", "Outputs to one scan key are numbered consecutively from zero, none reused",
  "For every list of recipient codes, each recipient's output key is its spend key plus the output tweak for its counter, where the counter runs 0, 1, 2, ... over all recipients that share a scan key in "
  "the order given, also when their spend keys or labels differ. Every listed recipient, including repeated ones, gets exactly one output and the outputs are returned under its code in order.",
  ["inputs"], "all partial secrets and all lists of recipient codes, with repeats, shared scan keys and labels",
  "Tests send to a few recipients; numbering errors need interleaved groups, labels or repeats.",
  [S], [("create_silentpayment_scriptpubkeys", S)], technique=VF, note=VN)

p("C08", "Scanning finds exactly the outputs payable with the wallet's keys",
  "For every transaction and label table, scanning with counter k = 0, 1, ... reports the first taproot output whose key, in either parity, equals the k-th output key or differs from it by a known label "
  "point, removes that output from further matching, and stops at the first k without match. Each reported output carries its true outpoint, script, amount, label and the tweak that spends it.",
  ["inputs"], "all transactions, label tables, spend keys and shared secrets",
  "The vectors have at most a few outputs in given orders; completeness and the per-output metadata must hold for any number, order, parity and label mix.",
  [R, SC], [("scan_txouts", R), ("Scanner::scan_txouts", SC), ("Scanner::scan_tx", SC)], technique=VF, note=VN)

p("C09", "Predicted scripts cover the base key and every registered label",
  "For every tweak and counter the wallet predicts the taproot script of its unlabelled output and of the output for each registered label, using the output key the sender would derive. "
  "The script for a label is the key-path script of the unlabelled output key plus the label point.",
  ["inputs"], "all tweaks, counters, key pairs and label tables",
  "A filter match missed for one label or one parity loses funds silently; tests look at one script at a time.",
  [R, SC], [("get_silentpayment_script_pubkey", R), ("Scanner::get_spks_from_tweak", SC)], technique=VF, note=VN)

p("C10", "Payment codes are written and read by the same tables",
  "A payment code is written with the human readable part of its network, its version character and the scan key before the spend key, in the long-checksum format; reading accepts exactly codes with a known human readable part, "
  "a supported version, the payload size rule of that version (extra bytes only from version one on) and two valid keys, and recovers the same fields.",
  ["inputs"], "all strings and all payment codes",
  "Round trips of a few sample addresses cannot exclude a field swap or an accepted malformed string.",
  [E], [("SilentPaymentCode::try_from", E), ("Display for SilentPaymentCode", E)], technique=VF, note=VN)

VP = "value-flow evaluation of the compiler's MIR: the path condition of every panicking construct reached is refuted"
VPN = ("Every unwrap, index, slice, assertion and arithmetic overflow reached from the entry point carries its path condition, loops included; each is refuted by the "
       "conditions themselves, by length facts of the library types, or by the hash assumption. Panics inside library code that is not modelled are not seen.")

p("C11", "Parsing payment codes and stored data never panics",
  "No text makes the parser of silent payment codes panic, and no stored or received data makes the reader of a persisted record (labels, scalars, found outputs, "
  "change sets, keychain state) panic: malformed input always ends in an error value. This covers empty payloads, short payloads of any version, and sequences with missing items.",
  ["inputs"], "all strings given to the parser, all data given to the readers of stored records",
  "Malformed inputs form an unbounded space; a panic needs just one unusual length, version character or missing item that no vector contains.",
  [E, "indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs", "indexer/src/lib.rs", R], [("TryFrom<&str>", E), ("Deserialize", R), ("Bytes32Visitor", "indexer/src/v2/indexes.rs")],
  technique=VP, note=VPN)

p("C12", "Scanning and indexing never panic, whatever a transaction contains",
  "No transaction, block, spent output, tweak or stored change set makes input classification, tweak computation, output scanning or indexing panic. Anyone can put such data "
  "on the chain, so a wallet that panics on it can be stopped from syncing by a stranger.",
  ["inputs", "histories"], "all transactions and all blocks with at least one transaction (any scripts, witnesses, control blocks, output order and number), all tweaks and label tables",
  "An attacker chooses scripts and witnesses; the one length or form that reaches an unguarded slice or unwrap is not among the vectors.",
  [L, R, SC, "indexer/src/v2/mod.rs", "indexer/src/lib.rs"], [("tag_txin", L), ("scan_txouts", R), ("index_tx", "indexer/src/v2/mod.rs")],
  technique=VP, note=VPN)

p("C32", "PSBT roles and proof verification never panic on what other parties send",
  "For every PSBT whose per-input and per-output maps match its unsigned transaction, deriving silent payment outputs, recording spend data and signing never panic: unusable fields, missing "
  "utxos, foreign proprietary keys and malformed values end in an error or are skipped. Verifying a DLEQ proof never panics for any bytes.",
  ["inputs"], "all PSBTs with matching map counts, all recipient lists, all key providers, all proof bytes",
  "PSBTs and proofs arrive from other parties; tests use PSBTs the library made itself.",
  [PS, SG, "dleq/src/lib.rs"], [("derive_sp", PS), ("sign_sp", SG), ("dleq_verify_proof", "dleq/src/lib.rs")], technique=VP, note=VPN)

p("C13", "PSBT derivation uses every eligible input's own key and fills only placeholders",
  "Deriving outputs in a PSBT uses, for every eligible input of the finalized transaction, the secret of exactly the key that input spends with (spend key plus tweak for silent payment inputs), commits to the smallest outpoint over all "
  "inputs, and fails when such a key is unknown or different. On success exactly the outputs with a recipient's placeholder script get that recipient's derived scripts in order and keep their amounts; all other outputs are unchanged. "
  "A recipient whose number of placeholder outputs (when any) differs from its number of derived keys is an error.",
  ["inputs"], "all PSBTs with one PSBT input per transaction input, key providers and recipient lists",
  "A key left out or taken for the wrong input shows only for particular mixes of script kinds, key origins and finalization data.",
  [PS], [("derive_sp", PS), ("collect_input_data", PS), ("update_outputs", PS)], technique=VF, note=VN)

p("C14", "The placeholder script commits to both keys of its payment code",
  "The placeholder of a payment code is the taproot key-path script of the scan key plus the hash of the spend key times the generator, so that outputs of recipients with different keys are told apart.",
  ["inputs"], "all payment codes",
  "Tests use two or three codes; a collision needs codes that agree in one key.",
  [E], [("SilentPaymentCode::get_placeholder_p2tr_spk", E)], technique=VF, note=VN)

p("C15", "PSBT signing signs exactly the silent payment inputs whose key is known",
  "Signing sets the key-path signature of an input exactly when it has none yet, spends a taproot output, carries a well formed silent payment field whose tweaked spend key is that output's key, and the signer has the spend secret. "
  "The signature is made with spend secret plus tweak over the default sighash of that input and all spent outputs. Adding silent payment data writes exactly the field that signing and derivation read, on the named input only.",
  ["inputs"], "all PSBTs with one PSBT input per transaction input, all proprietary fields and key providers",
  "Tests sign one well formed input; several inputs, foreign or malformed fields and missing outputs are not sampled.",
  [SG], [("sign_sp", SG), ("add_sp_data_to_input", SG)], technique=VF, note=VN)

p("C23", "Labelled addresses use the label tweak of the scan key and keep everything else",
  "The labelled form of a payment code keeps version, network and scan key and adds the label tweak times the generator to the spend key, where the tweak is the label hash of the scan secret and label number. "
  "The same label number and scan secret always give the same tweak wherever it is computed.",
  ["inputs"], "all payment codes, scan secrets and label numbers",
  "Tests use a few label numbers.",
  [E, H], [("SilentPaymentCode::add_label", E), ("SilentPaymentCode::get_label", E), ("get_label_tweak", H)], technique=VF, note=VN)

p("C30", "Wallet senders use, for each input, the secret that signs for it",
  "A sender that spends silent payment outputs uses for each the spend key plus that output's tweak; a sender that spends derived keys uses the taproot-tweaked secret for taproot inputs and the plain derived "
  "secret for all others. Both commit to the smallest outpoint over all inputs and fail when there are none.",
  ["inputs"], "all keys, derivation paths, inputs of any script kind, and recipient lists",
  "The integration tests spend taproot inputs of a fixed wallet; other script kinds and parities are not reached.",
  [B32, B352], [("XprivSilentPaymentSender::send_to", B32), ("SpSender::send_to", B352)], technique=VF, note=VN)

D = "dleq/src/lib.rs"
I1 = "indexer/src/lib.rs"
I2 = "indexer/src/v2/mod.rs"
IX = "indexer/src/v2/indexes.rs"

p("C16", "A DLEQ proof verifies exactly when the BIP374 equation holds",
  "Verification accepts a proof exactly when both halves are valid scalars, both reconstructed commitments are points, and the first half equals the BIP374 challenge over all three points, the generator, both commitments and the optional message. "
  "A malformed proof is rejected or an error, never accepted.",
  ["inputs"], "all points, generators, 64-byte proofs and optional messages",
  "Vectors hold a few proofs; acceptance of a forged one hinges on which values enter the challenge and how.",
  [D], [("dleq_verify_proof", D), ("dleq_challenge", D)], technique=VF, note=VN)

p("C17", "A DLEQ proof is made from the BIP374 nonce and reveals only the blinded secret",
  "The proof is the challenge followed by nonce plus challenge times secret, where the nonce is the BIP374 nonce hash of the auxiliary-randomness-masked secret, both public points and the message. "
  "The proof is returned only after it verified for the same statement, and the same inputs give the same proof.",
  ["inputs"], "all secrets, points, auxiliary randomness, generators and messages",
  "A nonce that omits one of its inputs still yields valid proofs in every test, but repeats across statements and leaks the secret.",
  [D], [("dleq_generate_proof", D), ("dleq_challenge", D)], technique=VF, note=VN)

p("C18", "Every indexer mutation is mirrored in the change set it returns",
  "Whatever a call changes in the indexer's labels, transaction secrets or graph is in the change set it returns, and nothing else is. "
  "Adding a label, scanning a transaction or block, and anchoring, seeing or evicting a transaction each return exactly what they recorded.",
  ["inputs", "histories"], "all indexer states, transactions, blocks, secrets and event times",
  "A change left out of the returned set is invisible until the wallet is loaded again; which of the calls and states loses it is unbounded.",
  [I2], [("SpIndexerV2::add_label", I2), ("SpIndexerV2::index_tx", I2), ("SpIndexerV2::apply_block_with_filter", I2)],
  [("SpIndexerV2", "index, label table and transaction graph")], VF, VN)

p("C19", "Applying a change set rebuilds the indexer it came from",
  "Restoring takes keys from the change set, applies the graph first, then the labels, and only then scans each recorded transaction again with its stored secret. "
  "A change set for other keys changes nothing, and the initial change set lists the keys, all labels, all transaction secrets and the whole graph.",
  ["inputs", "histories"], "all change sets and indexer states",
  "An order in which a transaction is scanned before its label is known loses outputs only for wallets with labelled receipts; tests restore small states.",
  [I2], [("SpIndexerV2::apply_changeset", I2), ("SpIndexerV2::initial_changeset", I2), ("SpIndexerV2::try_from", I2)],
  [("ChangeSet", "what is persisted")], VF, VN)

p("C20", "Merging change sets loses nothing; only one without content is empty",
  "Merging keeps every entry of both change sets, later entries replacing earlier ones under the same key, including keys and graph. A change set is empty exactly when each of its parts is, so staged changes are never discarded as empty. "
  "Conversion of the first indexer's state to and from its change set keeps every field.",
  ["inputs", "histories"], "all pairs of change sets",
  "A forgotten field shows only when exactly that field is the sole content of a change set.",
  [I1, I2], [("Merge for ChangeSet", I2), ("Merge for SpIndexesChangeSet", I1), ("SpIndexes::from", I1)], technique=VF, note=VN)

p("C21", "Relevant transactions, and only those, enter the graph with their anchor",
  "A transaction is kept exactly when one of its outputs is owned or one of its inputs spends an owned output, judged after it and everything before it in the batch or block was scanned. "
  "In a block each kept transaction gets an anchor with its own position and the block's height and hash; the coinbase is never scanned.",
  ["inputs", "histories"], "all blocks, batches, secrets and indexer states",
  "Spends without own outputs, outputs found through a label and chains within a block are combinations that samples miss.",
  [I2], [("SpIndexerV2::is_tx_relevant", I2), ("SpIndexerV2::apply_block_with_filter", I2), ("SpIndexerV2::batch_insert_relevant", I2)], technique=VF, note=VN)

p("C22", "All look-ups of the indexes agree on the same outputs",
  "Recording an output enters it under its outpoint, script and label at once, with the secret of that output; each look-up returns exactly the recorded entries with that script, label, transaction or outpoint. "
  "A label number leads to the tweak stored with its point.",
  ["inputs", "histories"], "all index states and queries",
  "An entry left out of one map or a range that misses the last output shows only for particular outpoints.",
  [I1, IX], [("SpIndex::index_spout", IX), ("SpIndex::get_by_label", IX), ("SpIndexes::txouts_in_tx", I1)],
  [("SpIndex", "outputs by outpoint, script and label"), ("SpIndexes", "the same for the first indexer")], VF, VN)

p("C24", "The first indexer records exactly the outputs found, once per transaction",
  "Scanning a transaction records every output found under outpoint, label and script, and the first time also its shared secret, the transaction and each spent output under the outpoint it was spent from. "
  "A transaction without eligible inputs changes nothing, and a spend is owned exactly when one of its inputs spends a recorded output.",
  ["inputs", "histories"], "all transactions, prevout sources and indexer states",
  "Tests index a few transactions with regular inputs; mismatched prevout pairing and transactions without eligible inputs are not sampled.",
  [I1], [("SpIndexer::index_tx", I1), ("SpIndexer::spends_owned_spouts", I1), ("SpIndexes::add_label", I1)], technique=VF, note=VN)

KY = "oracles/src/filters/kyoto.rs"
BB = "oracles/src/tweaks/blindbit.rs"

p("C25", "A filter is stored and committed before it is announced, and none is lost",
  "Every block filter handed to the buffer is written under its height, in a transaction that is committed, before the range that names it is returned; the range maps exactly the heights written to their block hashes. "
  "The buffer keeps what is not yet written, is written out when it holds more than its limit or when asked, and is empty afterwards.",
  ["histories", "crash_points"], "all sequences of filters, with their heights and hashes, and every point at which the buffer is written out",
  "No test runs the buffer; a filter dropped at the limit, a commit left out or a range naming other blocks shows only once a reader asks for a missing filter.",
  [KY], [("DatabaseBuffer::write_queue", KY), ("DatabaseBuffer::push_filter", KY)], [("queue", "filters received and not written yet"), ("TABLE_DEF", "stored filters by height")], VF,
  VN + " Only the order and content of the database calls is decided, not what redb does with them.")

p("C26", "Every filter from the birthday on is announced before the tip it belongs to",
  "For every sequence of node events each filter at or above the birthday is buffered and announced exactly once, older ones are ignored, and on a sync event everything buffered is written and announced before the synced tip. "
  "When the receiver of the announcements is gone the loop ends with the channel error, and when the node stops it ends with the node error.",
  ["histories"], "all sequences of node events, birthdays and answers of the channel",
  "No test runs the subscriber; the order of announcements and the boundary at the birthday depend on the whole event history.",
  [KY], [("FilterSubscriber::run", KY)], technique=VF, note=VN)

p("C27", "Announced blocks that may concern the wallet are reported, then the tip",
  "For each announced block all its tweaks are fetched and the watched scripts of every tweak, together with the unspent scripts, are matched against its stored filter; on a match the block's hash and the tweak of every script are passed on. "
  "A tip is passed on as synced only after every block announced before it was handled, and a block whose tweaks could not be fetched is not taken for one without tweaks.",
  ["histories", "inputs", "fault_sequences"], "all sequences of filter events, server answers including failures, stored filters, keys and labels",
  "No test runs the subscriber; a script or block left out shows only for blocks paying just that script.",
  [BB], [("BlindbitSubscriber::run", BB), ("BlindbitSubscriber::process_changes", BB)], technique=VF + "; case comparison of effects under failing and empty answers",
  note=VN + " Futures run concurrently are taken in some order; the order of reports within one announced range is not decided.")

p("C28", "Tweak server requests go below the configured address and failures are errors",
  "Whatever base address is configured, with or without a trailing slash, requests go to tweaks/<height> with the given dust limit, block-height and info below that address. "
  "An address that does not parse, a request that fails or an answer that is not the expected document is returned as an error of its kind, never as an empty answer.",
  ["inputs", "fault_sequences"], "all base addresses, heights, dust limits and server answers",
  "No test contacts a server; base addresses with a path but no trailing slash are not sampled.",
  [BB], [("BlindbitClient::new", BB), ("BlindbitClient::tweaks", BB), ("BlindbitClient::info", BB)], technique=VF, note=VN)


p("C29", "What is stored is read back as it was",
  "A label is written and read as number, tweak and point in this order, a tweak as its 32 big-endian bytes, read from exactly 32 bytes below the group order whether the format has byte strings or lists them one by one. "
  "Every part of the change sets of both indexers and of a found output is written and read under its own name, in the same order, and none is left out or filled in.",
  ["inputs", "histories"], "all values and all formats",
  "Tests write and read a few values in one format; formats without byte strings and truncated data are not sampled.",
  ["indexer/src/v2/indexes.rs", I2, I1, "silentpayments/src/receive/mod.rs"],
  [("Serialize for Label", "indexer/src/v2/indexes.rs"), ("Deserialize for Label", "indexer/src/v2/indexes.rs"), ("scalar_serde::deserialize", "indexer/src/v2/indexes.rs"), ("ChangeSet", I2), ("SpIndexesChangeSet", I1)],
  technique=VF, note=VN)

p("C31", "Prevouts are looked up for every input, in input order",
  "The prevouts a node-backed source hands to scanning are, input by input, the output of the previous transaction that the input spends.",
  ["inputs"], "all transactions",
  "No test contacts a node.",
  [I1], [("Custom::get_tx_prevouts", I1)], technique=VF, note=VN)

p("C35", "Filters are matched against the first output of every address of the wallet",
  "For every tweak the watched scripts are exactly the first-output scripts of the unlabelled address and of every known label, so a block that pays any address of the wallet is not skipped.",
  ["inputs"], "all tweaks, keys and label tables",
  "Dropping one label or using another counter shows only for blocks paying just that address.",
  [I2], [("SpIndexerV2::derive_spks_for_tweak", I2)], technique=VF, note=VN)

p("C36", "Addresses handed out by the indexer are ones it will detect",
  "The address carries the public scan key and the spend key of the indexer and the requested network; a labelled address is that address with the label's tweak, and its label is in the table of labels scanned for before it is handed out.",
  ["inputs", "histories"], "all keys, label numbers and indexer states",
  "Tests use new wallets; label tables that hold other labels are not sampled.",
  [I2], [("SpIndexerV2::get_address", I2), ("SpIndexerV2::get_labeled_address", I2)], technique=VF, note=VN)


p("C40", "The command line wallet stores everything it learns",
  "Merging two change sets of the first command line wallet keeps both descriptors, the network, the chain, the transaction graph and the indexes, later values replacing earlier ones. A change set counts as empty exactly when none of these has content, so nothing that was learnt is discarded before it is appended to the file.",
  ["inputs", "histories"], "all pairs of change sets",
  "The program has no tests; a part that is forgotten shows only after a restart.",
  ["cli/v1/src/main.rs"], [("impl Merge for ChangeSet", "cli/v1/src/main.rs")], technique=VF, note=VN)

p("C41", "The command line wallet uses the keys its descriptors name",
  "The payment code of the first command line wallet has the internal keys of its scan and spend descriptors, in this order, and the configured network; descriptors that are not taproot or name many keys are refused. The scan secret is the key derived along the path of the scan descriptor, and an output is change exactly when it was paid to label zero.",
  ["inputs"], "all descriptors and networks",
  "The program has no tests; wrong keys show only as payments that are never found.",
  ["cli/v1/src/main.rs"], [("get_sp_code_from_descriptors", "cli/v1/src/main.rs"), ("get_sk_from_sp_descriptor", "cli/v1/src/main.rs"), ("is_change", "cli/v1/src/main.rs")],
  technique=VF, note=VN)

p("C42", "Every input that sign-psbt signs is signed for its own position",
  "The signing command of the first command line wallet prints the given PSBT in which every input that spends a recorded output carries the key-path signature over the signature hash of its own position, made with the spend secret plus the tweak recorded for that output. All other inputs and all other fields are printed as they were given.",
  ["inputs"], "all PSBTs whose inputs carry their spent outputs, all descriptors and stored wallets",
  "The program has no tests; a wrong signature shows only when nodes reject the transaction.",
  ["cli/v1/src/main.rs"], [("main", "cli/v1/src/main.rs")],
  technique=VF, note=VN)

p("C43", "A code the command line wallet hands out is stored before it is shown",
  "A new wallet of the first command line program stores the public descriptors, the network, the genesis block and the label of change. A labelled code it prints is its own code tweaked by the label, and it is printed only after the label is stored along with everything indexed before.",
  ["inputs", "crash_points"], "all descriptors, networks, labels and stored wallets",
  "The program has no tests; a label that is not stored shows only as a payment never found after a restart.",
  ["cli/v1/src/main.rs"], [("main", "cli/v1/src/main.rs"), ("init_or_load", "cli/v1/src/main.rs")],
  technique=VF, note=VN)

p("C44", "Scanning blocks records transactions that only spend, in their block",
  "The scan of the first command line wallet does not require an output of a particular kind of a transaction that spends a recorded output: such a transaction is recorded too, so that spent money leaves the balance. Every transaction after the coinbase is looked at, and what is recorded carries its own txid and is anchored in the block that holds it.",
  ["inputs", "histories"], "all blocks and transactions, all stored wallets",
  "The program has no tests; a missed spend shows only as a balance that is too high.",
  ["cli/v1/src/main.rs"], [("main", "cli/v1/src/main.rs"), ("spends_owned_spouts", "indexer/src/lib.rs")],
  technique=VF, note=VN)

# ------------------------------------------------------------------ stated, but out of reach of static analysis
p("C33", "A payment made to a code is found by the wallet of that code",
  "For every payment code, label, set of input keys and number of recipients, an output made by the sender of this crate for the code is found by its scanner with the code's scan secret, under the right label and counter, and the tweak recorded with it spends it.",
  ["inputs", "histories"], "all keys, labels, input sets and recipient lists",
  "Tests pay a few fixed codes from a few fixed inputs.",
  [S, R], [("create_silentpayment_partial_secret", S), ("scan_txouts", SC)],
  note="Needs an equational proof over curve points that composes sender and receiver (a*B = b*A and the symmetry of the key sum), which no source analysis here provides. Both sides are decided separately against the specification (C01-C09, C13, C23).")

p("C34", "Every payment code survives being written and read again",
  "For every payment code of a supported version, reading its text gives the same version, network and keys, and every text that differs in one to four characters is rejected.",
  ["inputs"], "all payment codes and all corruptions of their text",
  "Tests write and read a few codes.",
  [E], [("SilentPaymentCode::try_from", E), ("Display for SilentPaymentCode", E)],
  note="Rests on the code distance of the long bech32m checksum and on value equality through the foreign bech32 and secp256k1 crates, whose sources are outside the repository. The tables and layouts used on each side are decided by C10.")

p("C37", "Nobody without the secret can make a DLEQ proof that verifies",
  "No party can produce an accepted proof for a pair of points without a common discrete logarithm, and a proof reveals nothing about the secret beyond the statement.",
  ["inputs"], "all provers",
  "A test can only show proofs that are accepted or rejected.",
  ["dleq/src/lib.rs"], [("dleq_verify_proof", "dleq/src/lib.rs")],
  note="A cryptographic assumption (discrete logarithm, random oracle), not a matter of the source. C16 and C17 decide that the equations are the ones of BIP374.")

p("C38", "Synchronisation reaches the tip of the chain",
  "As long as the node and the tweak server answer, the wallet eventually handles every block up to the tip, whatever the order and number of reorganisations and restarts.",
  ["schedules", "fault_sequences"], "all sequences of node events and restarts",
  "No test runs a node.",
  ["oracles/src/filters/kyoto.rs", "oracles/src/tweaks/blindbit.rs"], [("FilterSubscriber::run", "oracles/src/filters/kyoto.rs"), ("BlindbitSubscriber::run", "oracles/src/tweaks/blindbit.rs")],
  note="Liveness of a foreign node, of channels and of a remote server over unbounded time has no static argument in reach. The order of what is announced and handled is decided by C25 to C27.")

p("C39", "A bnb or coin selection of the wallet crate pays exactly the amounts asked for",
  "The transaction built by the wallet and command line crates pays every recipient its amount, returns the change to the wallet and pays the fee rate asked for.",
  ["inputs"], "all coin sets, recipients and fee rates",
  "The crates have no tests of the selection.",
  ["cli/v1/src/main.rs", "wallet/src/lib.rs"], [("SpWallet", "wallet/src/lib.rs")],
  note="The amounts come out of a foreign coin selection crate with floating-point metrics, and the wallet and cli v2 crates do not build offline, so that there is no compiled form to analyse.")

exec(open(os.path.join(HERE, "docs_more.py")).read()) if os.path.exists(os.path.join(HERE, "docs_more.py")) else None



def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _ in PROPS:
            f.write(json.dumps(d) + "\n")
    checks = []
    na = []
    for d, tech, note in PROPS:
        if d["id"] in obligations.PROPS:
            checks.append(dict(property=d["id"], quick_cmd="python3 check.py %s" % d["id"],
                               thorough_cmd="python3 check.py %s --tier thorough" % d["id"],
                               technique=tech, level="other", level_note=note))
        else:
            na.append(dict(property=d["id"], reason=note))
    m = dict(version=1, setup_cmd="python3 sa/extract.py --setup", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for d, _, _ in PROPS:
        assert len(d["title"]) <= 80, d["id"]
        assert d["statement"].count(". ") <= 2, d["id"]
    print(len(PROPS), "properties", len(checks), "claimed")


main()
