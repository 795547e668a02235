"""The obligations of every property.  An obligation names a public entry point of the repository (through a
one-line wrapper in /verif/spec/src/api.rs, so that it is anchored on what users call) and what has to hold of
its normal form."""
from collections import OrderedDict

PROPS = OrderedDict()


def prop(pid, *obls):
    PROPS.setdefault(pid, []).extend(obls)


class Same:
    """the entry point's normal form equals the reference function's"""
    def __init__(self, code, spec, kind="all", eqlen="", what=""):
        # a function no other crate can call (of a program) is named itself
        self.code, self.spec, self.kind = (code if "::" in code else "sp_spec::api::" + code), "sp_spec::" + spec, kind
        self.eqlen = [tuple(x.split("=")) for x in eqlen.split(",") if x]
        self.what = what
        self.name = "%s = %s" % (code, spec)

    def rule(self):
        return "normal form of the entry point equals the reference (%s)" % {
            "all": "whole value", "ok": "same accepting condition, same accepted value", "some": "same Some condition and value"}[self.kind]


class Quiet:
    """no panic is reachable from the entry point"""
    def __init__(self, code, eqlen="", what=""):
        self.code = "sp_spec::api::" + code
        self.eqlen = [tuple(x.split("=")) for x in eqlen.split(",") if x]
        self.what = what
        self.name = "%s panics nowhere" % code

    def rule(self):
        return "every panicking construct reached has a contradictory path condition"


class Reported:
    """every public method that changes a persisted part of the state hands the change back to its caller"""
    def __init__(self, crate, type_, parts, carrier, restoring=(), what=""):
        self.crate, self.type_, self.parts, self.carrier = crate, type_, parts, carrier
        self.restoring = restoring  # methods whose changes come from what is stored already
        self.name = "changes of %s are handed back" % type_

    def rule(self):
        return "a public method of %s whose final state differs from its initial one in %s returns a %s" % (
            self.type_, ", ".join(self.parts), self.carrier)


class Told:
    """a request that failed is treated differently from one that was answered with nothing"""
    def __init__(self, code, request, fn, what=""):
        self.code, self.request, self.fn = "sp_spec::api::" + code, request, fn
        self.what = what
        self.name = "a failed request of %s is noticed" % fn

    def rule(self):
        return "the effects with the failing request and with an empty answer differ"


class Anchored:
    """the transactions a program records from a block are anchored in that block, and spending alone is reason enough"""
    def __init__(self, code, call, what=""):
        self.code, self.call, self.what = code, call, what
        self.name = "%s records what pays or spends" % code.split("::")[0]

    def rule(self):
        return "%s is reached without any condition on the outputs being true, for the txid of one transaction and the block it is in" % self.call


BLOCK = "a1.txdata=+"  # a block starts with its coinbase transaction
class Shown:
    """what a command of a program prints or stores is the value of the reference for its arguments and what was stored"""
    def __init__(self, code, enum, variant, spec, args, stored="", way="display", after="", what=""):
        self.code, self.enum, self.variant, self.spec = code, enum, variant, "sp_spec::" + spec
        self.args, self.stored, self.way, self.after, self.what = args.split(), stored, way, after, what
        self.name = "%s %s %s %s" % (code.split("::")[0], variant, "prints" if way == "display" else "stores", spec)

    def rule(self):
        return "a value %s under the command %s equals the reference wherever that has one" % (
            "printed" if self.way == "display" else "handed to " + self.way, self.variant)


PSBT = "a0.inputs=a0.unsigned_tx.input"

# ---------------------------------------------------------------- silentpayments
prop("C01", Same("c_kind", "inputs::kind", what="classification of an input"))
prop("C02", Same("c_key", "inputs::key", what="key an input contributes"))
prop("C03", Same("c_least", "send::least", what="smallest outpoint"))
prop("C04", Same("c_tweak", "receive::tweak", "ok", "a1=a0.input"),
     Same("c_scanner_shared", "receive::scanner_shared", "ok", "a4=a3.input"),
     Same("c_ecdh", "receive::ecdh"))
prop("C05", Same("c_partial_secret", "send::partial_secret", "ok"))
prop("C06", Same("c_label", "receive::label"), Same("c_input_hash", "receive::input_hash"),
     Same("c_output_secret", "receive::output_secret"))
prop("C07", Same("c_outputs", "send::outputs"))
prop("C08", Same("c_scan", "receive::scan", "ok"), Same("c_scanner_txouts", "receive::scanner_txouts", "ok"),
     Same("c_scanner_tx", "receive::scanner_tx", "ok", "a4=a3.input"))
prop("C09", Same("c_script", "receive::script"), Same("c_scanner_spks", "receive::scanner_spks"))
prop("C10", Same("c_new", "code::new"), Same("c_fmt", "code::fmt"), Same("c_decode", "code::decode"))
prop("C11", Quiet("c_decode"), *[Quiet("c_get_" + n) for n in ("label", "scalar", "changes", "index", "found", "meta")])
prop("C12", Quiet("c_kind"), Quiet("c_key"), Quiet("c_tweak", "a1=a0.input"), Quiet("c_scanner_shared", "a4=a3.input"), Quiet("c_ecdh"),
     Quiet("c_scan"), Quiet("c_scanner_txouts"), Quiet("c_scanner_tx", "a4=a3.input"), Quiet("c_script"), Quiet("c_scanner_spks"),
     Quiet("c_i2_index_tx"), Quiet("c_i2_block_all", BLOCK), Quiet("c_i2_block_relevant", BLOCK), Quiet("c_i2_insert_unconfirmed"), Quiet("c_i2_apply"),
     Quiet("c_i2_restore"), Quiet("c_i1_index_tx"))
prop("C32", Quiet("c_derive", PSBT + ",a0.outputs=a0.unsigned_tx.output"), Quiet("c_placeholder"), Quiet("c_sign", PSBT), Quiet("c_add_data"), Quiet("c_dleq_verify"))
prop("C13", Same("c_derive", "psbt::derive", "ok", PSBT))
prop("C14", Same("c_placeholder", "code::placeholder"))
prop("C15", Same("c_sign", "psbt::sign", eqlen=PSBT), Same("c_add_data", "psbt::add_data"))
prop("C23", Same("c_labelled", "code::labelled", "ok"), Same("c_code_label", "receive::label"),
     Same("c_label", "receive::label"))
prop("C30", Same("c_sp_sender", "send::sp_sender", "ok"), Same("c_xpriv_sender", "send::xpriv_sender", "ok"))


# ---------------------------------------------------------------- dleq
prop("C16", Same("c_dleq_verify", "dleq::verify"))
prop("C17", Same("c_dleq_prove", "dleq::prove"))

# ---------------------------------------------------------------- indexers
def same2(*names):
    return [Same("c_i2_" + n, "index::" + n, eqlen=BLOCK if n.startswith("block_") else "") for n in names]


def same1(*names):
    return [Same("c_i1_" + n, "index::v1_" + n) for n in names]


prop("C18", *same2("add_label", "index_tx", "anchor_at", "seen", "evicted", "evicted_batch", "block_all", "insert_unconfirmed"),
     Reported("indexer", "SpIndexerV2", ["index.label_lookup", "index.txid_to_partial_secret", "graph"], "ChangeSet", ("apply_changeset",)))
prop("C19", *same2("apply", "restore", "snapshot", "new"))
prop("C20", *same2("merge", "is_empty"), *same1("merge", "is_empty", "load", "store"))
prop("C21", *same2("block_relevant", "insert_relevant", "insert_relevant_unconfirmed"))
prop("C22", *same2("record", "index_label", "known_label", "by_script", "by_label", "by_xonly", "in_tx"), *same1("label", "in_tx", "txout"))
prop("C24", *same1("index_tx", "spends", "add_label"))
prop("C29", *[Same("c_put_" + n, "stored::put_" + n) for n in ("label", "scalar", "changes", "index", "found", "meta")],
     *[Same("c_get_" + n, "stored::get_" + n, "ok") for n in ("label", "scalar", "changes", "index", "found", "meta")])
prop("C31", Same("c_i1_prevouts", "index::v1_prevouts"))
prop("C35", *same2("watched"))
prop("C36", *same2("address", "labelled_address"))


# ---------------------------------------------------------------- oracles
prop("C25", Same("c_o_store", "oracle::store", what="filters are written and committed before they are reported"))
prop("C26", Same("c_o_filters", "oracle::filters", what="node events to filter events"))
prop("C27", Same("c_o_tweaks", "oracle::tweaks", what="filter events to matches"),
     Told("c_o_tweaks", "RequestBuilder::send", "BlindbitSubscriber::run"))
prop("C28", Same("c_o_get_tweaks", "oracle::get_tweaks"), Same("c_o_get_height", "oracle::get_height"),
     Same("c_o_get_info", "oracle::get_info"))

# ---------------------------------------------------------------- first command line wallet
prop("C40", Same("sp_cli1::<ChangeSet as Merge>::merge", "cli::merge"), Same("sp_cli1::<ChangeSet as Merge>::is_empty", "cli::is_empty"))
prop("C41", Same("sp_cli1::get_sp_code_from_descriptors", "cli::code", "ok"), Same("sp_cli1::get_sk_from_sp_descriptor", "cli::scan_secret", "ok"),
     Same("sp_cli1::is_change", "cli::is_change"))
prop("C42", Shown("sp_cli1::main", "sp_cli1::Commands", "SignPsbt", "cli::sign", "psbt spend_descriptor", "indexes"))
prop("C44", Anchored("sp_cli1::main", "TxGraph::insert_anchor"))
prop("C43", Shown("sp_cli1::main", "sp_cli1::Commands", "Init", "cli::init", "scan_descriptor spend_descriptor network", way="Store::append"),
     Shown("sp_cli1::main", "sp_cli1::Commands", "Code", "cli::label_kept", "label scan_descriptor", "*", "Store::append"),
     Shown("sp_cli1::main", "sp_cli1::Commands", "Code", "cli::label_shown", "label scan_descriptor", "*", after="Store::append"))

# opaque library calls that appear in the repository's own entry points on the confirmed tree
KNOWN_CALLS = set()

ASSUMPTIONS = [
    "hash outputs are valid non-zero scalars and adding a hash-derived point never yields infinity",
    "library functions (bitcoin, secp256k1, std, bdk_chain, redb, tokio) behave as documented; those the normal form "
    "interprets are listed in sa/models.py and sa/crypto.py, all others are kept as uninterpreted functions of their arguments",
    "collections held in memory have fewer than 2^32 elements",
    "the analysed source is what cargo +nightly check sees with all features of the members that build offline",
]
