"""Panic sites: every panicking construct reached by an evaluation carries its path condition; a site is
discharged when that condition is contradictory under the axioms below (facts of the libraries used and
the hash assumption: a digest is a valid scalar and adding a point derived from one never hits infinity)."""
from core import *
import core

SPKLEN = {"is_p2pkh": 25, "is_p2sh": 23, "is_p2wpkh": 22, "is_p2tr": 34, "is_p2wsh": 34}


def has_hash(v):
    return any(x.k == "app" and x.a[0] in ("H", "finish", "digest", "hashbytes32") for x in subterms(v))


def deep_atoms(g):
    return atoms(g)


def _len_of(a):
    """le(len(X), c) -> (X, c)"""
    if a.k == "le" and a.a[0].k == "app" and a.a[0].a[0] == "len":
        return a.a[0].a[1], a.a[1]
    return None


def axioms(g):
    """a constraint every real execution satisfies, over the atoms of g"""
    c = T
    ats = atoms(g)
    for a in ats:
        n = node(a, T, F)
        if a.k == "app" and a.a[0] in ("ltn", "nz", "ptok") and has_hash(a):
            c = land(c, n)
        lx = _len_of(a)
        if lx:
            x, k = lx
            for p, n_ in SPKLEN.items():
                q = mkv("app", p, x)
                if q in ats:
                    c = land(c, implies(node(q, T, F), n if n_ <= k else neg(n)))
            if x.k == "b" and x.a[0].k.startswith("it:"):
                w = window_len(x.a[0])
                if w is not None:
                    c = land(c, n if w <= k else neg(n))
        if a.k == "is" and a.a[0].k == "app" and a.a[0].a[0] in ("Witness::last", "slice::last"):
            w = mkv("le", mkv("app", "len", a.a[0].a[1]), 0)
            if w in ats:
                empty = node(w, T, F)
                some = n if a.a[1] == 1 else neg(n)
                c = land(c, implies(neg(empty), some))
    return c


def window_len(s):
    while s.k == "it:rev":
        s = s.a[0]
    if s.k == "it:windows" and s.a[1].k == "int":
        return s.a[1].a[0]
    return None


def membership(b, seq):
    """what is known about an element b of a list built by one comprehension"""
    if seq.k != "seq" or len(seq.a) != 2 or seq.a[1].k != "cmp" or seq.a[0] is not EMPTY:
        return T
    c = seq.a[1]
    if len(c.a) != 4 or c.a[3].k != "op" or c.a[3].a[1] != "push":
        return T
    x, el = c.a[2], c.a[3].a[2]
    if el is x:
        at = b
    elif el.k == "tuple" and x in el.a:
        at = field(b, el.a.index(x))
    else:
        return T
    if any(t.k == "idx" for t in subterms(c.a[3].a[0])):
        return T
    g = subst(c.a[3].a[0], {x: at})
    return T if any(t is x for t in subterms(g)) and x not in subterms(b) else g


def remaining(p):
    """the part of the panic's path condition the axioms do not refute"""
    g = p["guard"]
    if p.get("parts"):
        for b in {t for a in atoms(g) for t in subterms(a) if t.k == "b" and t.a[0] in p["parts"]}:
            g = land(g, membership(b, p["parts"][b.a[0]]))
    if p["kind"].startswith("overflow") and counter(g):
        return F
    for _ in range(3):
        g2 = land(g, axioms(g))
        if g2 is g:
            break
        g = g2
    return g


def counter(g):
    """the only way to the panic is a step of one past the last value of a counter that starts at a
    constant and grows by one per element held in memory"""
    for a in atoms(g):
        if a.k == "ovf" or (a.k == "app" and a.a[0] == "ovf"):
            xs = [x for x in a.a if isinstance(x, V)]
            if any(x.k == "int" and x.a[0] == 1 for x in xs) and not any(x.k == "param" for x in xs):
                return land(g, node(a, F, T)) is F
    return False


LOUD = ("unwrap", "panic", "assert", "expect")
LOOPY = {"fold", "foldv", "prefix", "while", "mu", "mv", "itn", "wlast"}


def evident(p):
    """the condition of the panic is a matter of values and not of the bookkeeping of positions"""
    if p["kind"] in LOUD:
        return True
    c = p.get("cond")
    if p["kind"] not in ("slice", "copylen", "index") or c is None:
        return False
    for a in atoms(c):
        x = _len_of(a)
        if a.k == "app" and a.a[0] == "contains":
            continue
        if x is None or not isinstance(x[1], int) or any(t.k in ("log", "seq", "prefix") for t in subterms(x[0])):
            return False
    return True


def unsettled(r):
    """speaks about the state inside a loop without a closed form"""
    return any(t.k in LOOPY for t in subterms(r))


def unexpected(got, want, inside, differ, match):
    """a panic of the analysed function, inside the runs its reference returns from, that is not one of the reference"""
    ws = [w["guard"] for w in want]
    known = lor(*ws)
    for p in got:
        own = r = remaining(p)
        if r is F or not evident(p):
            continue
        r = land(r, neg(known), inside)
        for _ in range(3):
            r2 = land(r, axioms(r))
            if r2 is r:
                break
            r = r2
        if r is F or unsettled(r):
            continue
        if any(differ(p["guard"], w) is None for w in ws):
            continue
        # the same conditions may be spelled differently where this panic is met
        if land(r, neg(match(own, known, r))) is F:
            continue
        return p, r
    return None
