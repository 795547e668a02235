"""Canonical algebra for the secp256k1 / bitcoin key operations.

Points:   pt+(multiset)  pt-(p)  pt*(multiset of scalars, p)  G*(s)  lift(x, parity)
Scalars:  sk+(multiset)  sk-(s)  sk*(multiset)  num(bytes)
Fallible operations return ite(condition, Ok(term), Err(secpErr)); the condition is an atom over the
resulting term, so every spelling of one operation has one normal form.
"""
from core import *
import core
from models import (MODELS, valmodel, m0, Ok, Err, Some, NONE, is_ok, unok, unsome, is_some, OPT, RES, length, cat, slice_,
                    eqv, to_seq, segments, named, asbytes, index)

PARITY = "secp256k1::key::Parity"
SECPERR = named("secp::Error")
BPK = "bitcoin::crypto::key::PublicKey"


def atom(name, x):
    def one(y):
        if name == "ptok" and y.k == "app" and y.a[0] == "G*":
            return nz(y.a[1])
        return nonvoid(y, node(mkv("app", name, y), T, F))
    return mapleaf(x, one)


def nonvoid(y, g):
    """the empty sum is the neutral element"""
    if y.k == "app" and y.a[0] in ("sksum", "ptsum"):
        return ite(eqv(length(y.a[1]), Int(0)), F, g)
    return g


def fallible(g, v):
    return ite(g, Ok(v), Err(SECPERR))


def _flat(name, xs):
    out = []
    for x in xs:
        if x.k == "app" and x.a[0] == name:
            out += x.a[1:]
        else:
            out.append(x)
    return sorted(out, key=lambda v: v.id)


def ptsum(*ps):
    return app("pt+", *ps)


def _pt_add(xs):
    ps = _flat("pt+", xs)
    # p + (-p) cancels
    res = []
    for p in ps:
        n = ptneg(p)
        if n in res:
            res.remove(n)
        else:
            res.append(p)
    if len(res) == 1 and len(ps) > 1:
        return res[0]
    if len(res) == 1:
        return res[0]
    return mkv("app", "pt+", *res)


def ptneg(p):
    return app("pt-", p)


def _pt_neg(xs):
    p = xs[0]
    if p.k == "app" and p.a[0] == "pt-":
        return p.a[1]
    if p.k == "app" and p.a[0] == "pt+":
        return app("pt+", *[ptneg(q) for q in p.a[1:]])
    return None


def ptmul(p, s):
    return app("pt*", p, s)


def _pt_mul(xs):
    p, s = xs[0], list(xs[1:])
    if p.k == "app" and p.a[0] == "pt*":
        s = s + list(p.a[2:])
        p = p.a[1]
    fl = []
    for x in s:
        if x.k == "app" and x.a[0] == "sk*":
            fl += x.a[1:]
        else:
            fl.append(x)
    fl = sorted(fl, key=lambda v: v.id)
    if p.k == "app" and p.a[0] == "G*":
        return app("G*", app("sk*", p.a[1], *fl))
    return mkv("app", "pt*", p, *fl)


def G(s):
    return app("G*", s)


def sksum(*xs):
    return app("sk+", *xs)


def _sk_add(xs):
    ps = _flat("sk+", xs)
    if len(ps) == 1:
        return ps[0]
    return mkv("app", "sk+", *ps)


def _sk_mul(xs):
    ps = _flat("sk*", xs)
    if len(ps) == 1:
        return ps[0]
    return mkv("app", "sk*", *ps)


def skneg(s):
    return app("sk-", s)


def _sk_neg(xs):
    s = xs[0]
    if s.k == "app" and s.a[0] == "sk-":
        return s.a[1]
    return None


core.APPRULES.update({"pt+": _pt_add, "pt-": _pt_neg, "pt*": _pt_mul, "sk+": _sk_add, "sk*": _sk_mul, "sk-": _sk_neg})


def xonly(p):
    return app("xonly", p)


def _xonly(xs):
    p = xs[0]
    if p.k == "app" and p.a[0] == "lift":
        return p.a[1]
    if p.k == "app" and p.a[0] == "pt-":
        return app("xonly", p.a[1])
    return None


def parity(p):
    return app("parity", p)


def _parity(xs):
    p = xs[0]
    if p.k == "app" and p.a[0] == "lift":
        return p.a[2]
    return None


def lift_x(x, par):
    return app("lift", x, par)


def _lift(xs):
    x, par = xs
    if x.k == "app" and x.a[0] == "xonly" and par.k == "app" and par.a[0] == "parity" and par.a[1] is x.a[1]:
        return x.a[1]
    return None


core.APPRULES.update({"xonly": _xonly, "parity": _parity, "lift": _lift})


def ser33(p):
    return app("ser33", p)


def head_byte(p):
    """the first byte of a compressed key"""
    return ite(isv(app("parity", p), 0, 2), Int(2), Int(3))


core.HEADBYTE.append(head_byte)


def num(b):
    return app("num", b)


def _num(xs):
    b = xs[0]
    if b.k == "app" and b.a[0] == "b32":
        return b.a[1]
    return None


def b32(s):
    return app("b32", s)


def _b32(xs):
    s = xs[0]
    if s.k == "app" and s.a[0] == "num" and length(s.a[1]) is Int(32):
        return s.a[1]
    return None


def _ser32(xs):
    x = xs[0]
    if x.k == "app" and x.a[0] == "num32x" and length(x.a[1]) is Int(32):
        return x.a[1]
    return None


core.APPRULES.update({"num": _num, "b32": _b32})
from models import FIXEDLEN
FIXEDLEN.update({"ser33": 33, "ser65": 65, "b32": 32, "ser32": 32, "ecdhxy": 64})


def _is(x, *names):
    return x.k == "app" and x.a[0] in names


# ---------------------------------------------------------------- point operations
@valmodel("PublicKey::combine")
def _(cx, a, b):
    return lift(lambda xs: fallible(atom("ptok", ptsum(*xs)), ptsum(*xs)), [a, b]) or None


@valmodel("PublicKey::combine_keys")
def _(cx, ks):
    def one(x):
        ops = None
        if x.k == "array":
            ops = list(x.a)
        elif x.k == "seq" and all(o.k == "op" and o.a[0] is T and o.a[1] == "push" for o in x.a[1:]):
            ops = [o.a[2] for o in x.a[1:]]
        if ops:
            s = ptsum(*ops)
            return mapleaf(s, lambda y: fallible(atom("ptok", y), y))
        s = mkv("app", "ptsum", x)
        # an empty list has no sum
        return ite(eqv(length(x), Int(0)), Err(SECPERR), fallible(atom("ptok", s), s))
    return mapleaf(ks, one)


@valmodel("PublicKey::negate")
def _(cx, a, *r):
    return ptneg(a)


@valmodel("PublicKey::add_exp_tweak")
def _(cx, a, s, t):
    if _secp(a):
        a, s = s, a
    x = ptsum(a, G(t))
    return mapleaf(x, lambda y: fallible(atom("ptok", y), y))


def nz(s):
    def one(x):
        if x.k == "app" and x.a[0] in ("skv",):
            return T
        if x.k == "app" and x.a[0] == "num" and x.a[1].k == "app" and x.a[1].a[0] == "H":
            return T      # a digest is never the zero scalar
        return nonvoid(x, node(mkv("app", "nz", x), T, F))
    return mapleaf(s, one)


@valmodel("PublicKey::mul_tweak")
def _(cx, a, s, t):
    x = ptmul(a, t)
    return fallible(nz(t), x)


@valmodel("SecretKey::public_key")
def _(cx, s, c):
    return G(s)


@valmodel("PublicKey::from_secret_key")
def _(cx, c, s):
    return G(s)


@valmodel("PublicKey::from_secret_key_global", "SecretKey::public_key_global")
def _(cx, s):
    return G(s)


def _secp(x):
    return x.k == "named" or (x.k == "param") and False


@valmodel("PublicKey::from_keypair", "Keypair::public_key")
def _(cx, k):
    return G(app("kpsk", k))


@valmodel("Keypair::from_secret_key")
def _(cx, c, s):
    return app("keypair", s)


@valmodel("SecretKey::keypair")
def _(cx, s, c):
    return app("keypair", s)


core.APPRULES["kpsk"] = lambda xs: xs[0].a[1] if xs[0].k == "app" and xs[0].a[0] == "keypair" else None


@valmodel("Keypair::secret_key", "SecretKey::from_keypair")
def _(cx, k):
    return app("kpsk", k)


@valmodel("Keypair::x_only_public_key", "XOnlyPublicKey::from_keypair")
def _(cx, k):
    p = G(app("kpsk", k))
    return tup(xonly(p), parity(p))


@valmodel("PublicKey::x_only_public_key")
def _(cx, p):
    return tup(xonly(p), parity(p))


@valmodel("SecretKey::x_only_public_key")
def _(cx, s, c):
    p = G(s)
    return tup(xonly(p), parity(p))


@valmodel("XOnlyPublicKey::public_key")
def _(cx, x, par):
    return lift_x(x, par)


@valmodel("PublicKey::from_x_only_public_key")
def _(cx, x, par):
    return lift_x(x, par)


@valmodel("PublicKey::serialize")
def _(cx, p):
    return ser33(p)


@valmodel("PublicKey::serialize_uncompressed")
def _(cx, p):
    return app("ser65", p)


@valmodel("XOnlyPublicKey::serialize")
def _(cx, p):
    return app("ser32", p)


@valmodel("SecretKey::secret_bytes", "Scalar::to_be_bytes", "SecretKey::to_secret_bytes", "Keypair::secret_bytes",
          "SecretKey::as_ref")
def _(cx, s):
    return b32(app("kpsk", s) if s.k == "app" and s.a[0] == "keypair" else s)


@valmodel("ToPublicKey::to_x_only_pubkey", "PublicKey::to_x_only_pubkey")
def _(cx, p):
    return xonly(p)


# ---------------------------------------------------------------- scalars
@valmodel("SecretKey::add_tweak", "Scalar::add_tweak")
def _(cx, s, t):
    x = sksum(s, t)
    return mapleaf(x, lambda y: fallible(nz(y), y))


@valmodel("SecretKey::mul_tweak")
def _(cx, s, t):
    x = app("sk*", s, t)
    return fallible(nz(t), x)


@valmodel("SecretKey::negate")
def _(cx, s):
    return skneg(s)


@valmodel("PrivateKey::negate")
def _(cx, k):
    return setfield(k, "inner", skneg(field(k, "inner")))


def frombytes(b, zero_ok):
    def one(x):
        if x.k == "app" and x.a[0] == "b32":
            return Ok(x.a[1])
        n = num(x)
        g = node(mkv("app", "ltn", x), T, F)
        if not zero_ok:
            g = land(g, nz(n))
        L = length(x)
        if L.k != "int":
            g = land(g, eqv(L, Int(32)))
        elif L.a[0] != 32:
            g = F
        return fallible(g, n)
    return mapleaf(asbytes(b), one)


@valmodel("Scalar::from_be_bytes")
def _(cx, b):
    return frombytes(b, True)


@valmodel("SecretKey::from_slice", "SecretKey::from_byte_array", "SecretKey::from_bytes")
def _(cx, b):
    return frombytes(b, False)


def _parity_byte(x):
    """the 33 bytes of a key put together from a parity byte and an x coordinate"""
    if x.k in ("log", "seq") and len(x.a) == 2 and x.a[0].k == "app" and x.a[0].a[0] == "ser33":
        # the same key with the other parity
        o = x.a[1]
        even = isv(app("parity", x.a[0].a[1]), 0, 2)
        if o.k == "op" and o.a[0] is T and o.a[1] == "setat" and o.a[2] is Int(0) and o.a[3] is ite(even, Int(3), Int(2)):
            return Ok(ptneg(x.a[0].a[1]))
    if x.k == "cat" and len(x.a) == 2:
        h, t = x.a
        tag = h.a[0][0] if h.k == "bytes" and len(h.a[0]) == 1 else h.a[0].a[0] if h.k == "array" and len(h.a) == 1 and h.a[0].k == "int" else None
        n = length(t)
        if tag in (2, 3) and n.k == "int" and n.a[0] == 32:
            par = mkv("adt", PARITY, tag - 2)
            if t.k == "app" and t.a[0] == "ser32":
                return Ok(lift_x(t.a[1], par))
            return fallible(node(mkv("app", "isx", t), T, F), lift_x(app("xof", t), par))
    return None


def pk_from(b):
    def one(x):
        if x.k == "app" and x.a[0] in ("ser33", "ser65"):
            return Ok(x.a[1])
        if x.k == "cat" and len(x.a) == 2 and x.a[0].k in ("bytes", "array") and _is(x.a[1], "ecdhxy"):
            h = x.a[0]
            if (h.k == "bytes" and h.a[0] == b"\x04") or (h.k == "array" and h.a[0] is Int(4)):
                return Ok(x.a[1].a[1])
        p = _parity_byte(x)
        if p is not None:
            return p
        L = length(x)
        g = node(mkv("app", "ispt", x), T, F)
        if L.k == "int":
            if L.a[0] not in (33, 65):
                g = F
        else:
            g = land(g, lor(eqv(L, Int(33)), eqv(L, Int(65))))
        return fallible(g, app("ptof", x))
    return mapleaf(b, one)


@valmodel("PublicKey::from_slice", "PublicKey::from_byte_array_compressed")
def _(cx, b):
    return pk_from(b)


BPKERR = named("btc::FromSliceError")


@valmodel("BtcPublicKey::from_slice")
def _(cx, b):
    def one(x):
        r = pk_from(x)
        L = length(x)
        l33 = eqv(L, Int(33))
        l65 = eqv(L, Int(65))
        ok = land(is_ok(r), lor(l33, land(l65, eqv(index(x, Int(0)), Int(4)))))
        pk = adt(BPK, 0, l33, unok(r))
        return ite(ok, Ok(pk), Err(BPKERR))
    return mapleaf(b, one)


@valmodel("BtcPublicKey::new")
def _(cx, p):
    return adt(BPK, 0, T, p)


@valmodel("BtcPublicKey::new_uncompressed")
def _(cx, p):
    return adt(BPK, 0, F, p)


@valmodel("BtcPublicKey::pubkey_hash")
def _(cx, p):
    def one(x):
        return app("hash160", bpk_ser(x))
    return mapleaf(p, one)


def bpk_ser(x):
    c, i = field(x, "compressed"), field(x, "inner")
    return ite(tobool(c), ser33(i), app("ser65", i))


@valmodel("BtcPublicKey::to_bytes")
def _(cx, p):
    return bpk_ser(p)


@valmodel("XOnlyPublicKey::from_slice", "XOnlyPublicKey::from_byte_array")
def _(cx, b):
    def one(x):
        if x.k == "app" and x.a[0] == "ser32":
            return Ok(x.a[1])
        L = length(x)
        g = node(mkv("app", "isx", x), T, F)
        if L.k == "int":
            if L.a[0] != 32:
                g = F
        else:
            g = land(g, eqv(L, Int(32)))
        return fallible(g, app("xof", x))
    return mapleaf(asbytes(b), one)


# ---------------------------------------------------------------- ECDH
@valmodel("ecdh::shared_secret_point")
def _(cx, p, s):
    r = app("ecdhxy", ptmul(p, s))
    return r


@valmodel("SharedSecret::new")
def _(cx, p, s):
    return app("ecdhhash", ptmul(p, s))


@valmodel("SecretKey::display_secret")
def _(cx, s):
    return app("display_secret", s)


# ---------------------------------------------------------------- scripts
@valmodel("TweakedPublicKey::dangerous_assume_tweaked")
def _(cx, x):
    return app("twk", x)


@valmodel("TweakedPublicKey::to_x_only_public_key", "TweakedPublicKey::to_inner", "TweakedPublicKey::as_x_only_public_key")
def _(cx, x):
    return mapleaf(x, lambda y: y.a[1] if y.k == "app" and y.a[0] == "twk" else mkv("app", "untwk", y))


@valmodel("ScriptBuf::new_p2tr_tweaked")
def _(cx, t):
    return app("p2tr", app("untwk", t))


core.APPRULES["untwk"] = lambda xs: xs[0].a[1] if xs[0].k == "app" and xs[0].a[0] == "twk" else None

SPK = ("is_p2pk", "is_p2pkh", "is_p2sh", "is_p2wpkh", "is_p2wsh", "is_p2tr", "is_op_return")
SPKLEN = {"is_p2pkh": 25, "is_p2sh": 23, "is_p2wpkh": 22, "is_p2wsh": 34, "is_p2tr": 34}
SPKFORM = {"p2tr": "is_p2tr", "p2pkh": "is_p2pkh", "p2wpkh": "is_p2wpkh", "p2sh": "is_p2sh"}


def spk_bytes(name, b):
    return {"is_p2tr": len(b) == 34 and b[:2] == b"\x51\x20", "is_p2wpkh": len(b) == 22 and b[:2] == b"\x00\x14",
            "is_p2wsh": len(b) == 34 and b[:2] == b"\x00\x20", "is_op_return": b[:1] == b"\x6a",
            "is_p2sh": len(b) == 23 and b[:2] == b"\xa9\x14" and b[22:] == b"\x87",
            "is_p2pkh": len(b) == 25 and b[:3] == b"\x76\xa9\x14" and b[23:] == b"\x88\xac",
            "is_p2pk": len(b) in (35, 67) and b[-1:] == b"\xac"}[name] and T or F


def spkpred(name):
    def one(x):
        if x.k == "app" and x.a[0] in SPKFORM:
            return T if SPKFORM[x.a[0]] == name else F
        if x.k == "bytes":
            return spk_bytes(name, x.a[0])
        return node(mkv("app", name, x), T, F)
    return lambda cx: mapleaf(cx.val(0), one)


for _n in SPK:
    MODELS["Script::" + _n] = spkpred(_n)
    MODELS["ScriptBuf::" + _n] = spkpred(_n)


def spk_form(name):
    def f(xs):
        x = xs[0]
        if x.k == "app" and x.a[0] in SPKFORM:
            return T if SPKFORM[x.a[0]] == name else F
        if x.k == "bytes":
            return spk_bytes(name, x.a[0])
        return None
    return f


def _none_of_empty(xs):
    x = xs[0]
    if x.k == "seq" and len(x.a) == 1 and x.a[0] is EMPTY or x.k == "bytes" and not x.a[0]:
        return NONE
    return None


for _n in ("Witness::taproot_control_block", "Script::redeem_script", "Witness::tapscript", "Witness::nth", "Witness::second_to_last"):
    core.APPRULES[_n] = _none_of_empty


@valmodel("ScriptBuf::new")
def _(cx):
    return Bytes(b"")


@valmodel("Witness::new")
def _(cx):
    return mkv("seq", EMPTY)


for _n in SPK:
    core.APPRULES[_n] = spk_form(_n)
    core.ATOMGROUP[_n] = "spk"


@valmodel("TapTweakHash::to_scalar")
def _(cx, h):
    return app("num", app("hashbytes32", h))


@valmodel("OutPoint::new")
def _(cx, t, v):
    return adt("bitcoin::blockdata::transaction::OutPoint", 0, t, v)


# ---------------------------------------------------------------- transactions and PSBTs
@valmodel("Transaction::tx_out")
def _(cx, tx, i):
    outs = field(tx, "output")
    from models import lt, index
    return ite(lt(i, length(outs)), Ok(index(outs, i)), Err(app("OutputsIndexError", i, length(outs))))


@valmodel("Psbt::iter_funding_utxos")
def _(cx, psbt):
    from models import zipped, zel, lt, index, eqv, It
    ins, tx = field(psbt, "inputs"), field(psbt, "unsigned_tx")
    txins = field(tx, "input")
    cx.panic("assert", neg(eqv(length(ins), length(txins))), [ins, txins])
    src, a, b = both(txins, ins)
    w, n, v = field(b, "witness_utxo"), field(b, "non_witness_utxo"), field(field(a, "previous_output"), "vout")
    outs = field(unsome(n), "output")
    el = ite(is_some(w), Ok(unsome(w)), ite(is_some(n), ite(lt(v, length(outs)), Ok(index(outs, v)), Err(app("PsbtUtxoOutOfbounds"))),
                                            Err(app("MissingUtxo"))))
    return It(mkv("seq", EMPTY, comp(T, src, mkv("b", src, 0), op(T, "push", el))))


def both(x, y):
    """x and y walked in step -> (source, element of x, element of y)"""
    from models import zipped, zel
    src = zipped(x, y)
    b = mkv("b", src, 0)
    return src, zel(b, x), zel(b, y)


@valmodel("Message::from_digest")
def _(cx, d):
    return app("message", d)


@valmodel("Message::from_digest_slice")
def _(cx, d):
    return ite(eqv(length(d), Int(32)), Ok(app("message", d)), Err(SECPERR))


core.APPRULES["into:Message"] = lambda xs: app("message", app("hashbytes32", xs[0]))


@valmodel("SighashCache::new")
def _(cx, tx):
    return app("sighashcache", tx)


def _sighash(name):
    def m(cx):
        c = cx.val(0)
        return mapleaf(c, lambda x: mkv("app", name, x.a[1] if _is(x, "sighashcache") else x, *[cx.val(i) for i in range(1, len(cx.args))]))
    return m


for _n in ("taproot_key_spend_signature_hash", "taproot_script_spend_signature_hash", "taproot_signature_hash", "legacy_signature_hash",
           "p2wpkh_signature_hash", "p2wsh_signature_hash", "segwit_signature_hash"):
    MODELS["SighashCache::" + _n] = _sighash(_n)


# ---------------------------------------------------------------- taproot tweaks of the key libraries
def _taptweak(x, root):
    return app("num", app("hashbytes32", app("TapTweakHash::from_key_and_tweak", x, root)))


def _even(s):
    return ite(core.isv(parity(G(s)), 0, 2), s, skneg(s))


@valmodel("Keypair::add_xonly_tweak")
def _(cx, k, c, t):
    return mapleaf(sksum(_even(app("kpsk", k)), t), lambda y: fallible(nz(y), app("keypair", y)))


@valmodel("Keypair::tap_tweak")
def _(cx, k, c, root):
    s = app("kpsk", k)
    return app("keypair", sksum(_even(s), _taptweak(xonly(G(s)), root)))


@valmodel("TweakedKeypair::to_keypair", "TweakedKeypair::to_inner", "TweakedKeypair::dangerous_assume_tweaked", "Keypair::dangerous_assume_tweaked")
def _(cx, k):
    return k


def _xtweak(x, t):
    return ptsum(lift_x(x, adt(PARITY, 0)), G(t))


@valmodel("XOnlyPublicKey::add_tweak")
def _(cx, x, c, t):
    return mapleaf(_xtweak(x, t), lambda y: fallible(atom("ptok", y), tup(xonly(y), parity(y))))


@valmodel("XOnlyPublicKey::tap_tweak")
def _(cx, x, c, root):
    y = _xtweak(x, _taptweak(x, root))
    return mapleaf(y, lambda q: tup(app("twk", xonly(q)), parity(q)))
