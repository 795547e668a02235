"""Canonical forms of the folds that are left after comprehensions and counters are closed.

  scalarise     struct / tuple accumulators become one accumulator per component
  sum           acc := acc + x            -> sksum(sequence) / ptsum(sequence)
  least         acc := if x < acc { x }   -> argmin(sequence, order)
Everything else stays a `fold` record over exactly the accumulators it depends on.
"""
from core import *
import core

OPT = "core::option::Option"
AV = mkv("mv", -2, 0)


def components(init, v):
    """field list when the accumulator may be split"""
    if init.k == "tuple" and init.a:
        return [("t", i) for i in range(len(init.a))]
    if init.k == "adt" and init.a[0] in core.STRUCTS:
        names = core.FIELDNAMES.get((init.a[0], init.a[1]))
        if names and len(names) == len(init.a) - 2:
            return [("s", n) for n in names]
    return None


def touched(init, mu, v):
    """the fields a struct kept elsewhere changes in one round, when only whole fields change"""
    fs = set()
    if init.k in ("log", "seq"):
        return None
    for _, lf in leaves(v):
        if lf is mu or lf.k == "undef":
            continue
        if lf.k != "upd" or lf.a[0] is not mu:
            return None
        fs |= {f for f, _ in lf.a[1:]}
    return [("u", f) for f in sorted(fs, key=str)] or None


def build(init, parts, cs=None):
    if cs and cs[0][0] == "u":
        for c, p in zip(cs, parts):
            init = core.setfield(init, c[1], p)
        return init
    if init.k == "tuple":
        return tup(*parts)
    return mkv("adt", init.a[0], init.a[1], *parts)


def scalarise(st_init, todo, M, uid):
    """-> (map mu -> composite, extra keys).  Splits struct/tuple accumulators in place."""
    comps = {}
    work = list(todo)
    while work:
        k = work.pop()
        mu = M[k]
        cs = components(st_init[k], todo[k]) or touched(st_init[k], mu, todo[k])
        if cs is None:
            continue
        parts = []
        keys = []
        for c in cs:
            kk = ("c", k, c[1])
            m2 = mkv("mu", uid, str(kk))
            keys.append(kk)
            parts.append(m2)
            M[kk] = m2
            st_init[kk] = field(st_init[k], c[1])
        whole = build(st_init[k], parts, cs)
        comps[k] = (mu, whole, keys, cs)
        sub = {mu: whole}
        for q in list(todo):
            todo[q] = subst(todo[q], sub)
        nv = todo.pop(k)
        for kk, c in zip(keys, cs):
            todo[kk] = field(nv, c[1])
            work.append(kk)
    return comps


def seq_of(src, b, g, x):
    return log(EMPTY, [comp(T, src, b, op(g, "push", x))])


def strip_skip(src, b, x, init, P):
    """acc starts with element 0 and runs over the rest: it is the fold over the whole sequence.
    -> the whole sequence value or None"""
    if P is not T or src.k != "it:skip":
        return None
    s0, n = src.a
    if not (n.k == "int" and n.a[0] == 1):
        return None
    from models import index
    if x is b:
        return s0 if init is index(s0, Int(0)) else None
    w = seq_of(s0, b, T, x)
    if init is index(w, Int(0)) or init is subst(x, {b: index(s0, Int(0))}):
        return w
    if init.k == "app" and init.a[0] == "index" and init.a[2] is Int(0):
        q = init.a[1]
        if q.k == "seq" and len(q.a) == 2 and q.a[1].k == "cmp" and q.a[1].a[0] is T and q.a[1].a[1] is s0 and len(q.a[1].a) == 4:
            o = q.a[1].a[3]
            if o.a[0] is T and subst(o.a[2], {q.a[1].a[2]: b}) is x:
                return q
    return None


def addend(name, lf, mu):
    """x when lf is x + mu"""
    if lf.k == "app" and lf.a[0] == name and mu in lf.a[1:]:
        rest = list(lf.a[1:])
        rest.remove(mu)
        if mu in rest or not rest:
            return None
        return rest[0] if len(rest) == 1 else mkv("app", name, *rest)
    return None


SUMS = {"sk+": "sksum", "pt+": "ptsum"}


def total(name, seq):
    if seq.k == "seq" and all(o.k == "op" and o.a[0] is T and o.a[1] == "push" for o in seq.a[1:]) and len(seq.a) > 1:
        return app(name, *[o.a[2] for o in seq.a[1:]])
    return mkv("app", SUMS[name], seq)


def special(eng, src, b, mu, init, v):
    """canonical final value of a single-accumulator fold, or None"""
    from models import anyof, firstof, Some, NONE, to_seq, is_some, unsome
    # ---- plain sums
    for name in SUMS:
        P, x, ok = F, None, True
        for lg, lf in leaves(v):
            if mu in freevars(lg):
                ok = False
                break
            if lf is mu:
                continue
            y = addend(name, lf, mu)
            if y is None or mu in freevars(y):
                ok = False
                break
            x = y if x is None else ite(lg, y, x)
            P = lor(P, lg)
        if ok and x is not None:
            whole = strip_skip(src, b, x, init, P)
            if whole is not None:
                return total(name, whole)
            return app(name, init, total(name, seq_of(src, b, P, x)))
    # ---- the first value stays
    if any(t.k == "is" and t.a[0] is mu for t in atoms(v)):
        n0 = subst(v, {mu: NONE})
        n1 = subst(v, {mu: Some(AV)})
        P = is_some(n0)
        if n1 is Some(AV) and mu not in freevars(n0):
            hit = firstof(src, b, P)
            e = restrict(subst(restrict(unsome(n0), P), {b: hit}), subst(P, {b: hit}))
            return ite(land(neg(is_some(init)), anyof(src, b, P)), Some(e), init)
        # ---- a value once there is replaced by later ones
        P1, w, fixed = F, None, is_some(n1) is T and mu not in freevars(n0)
        for lg, lf in leaves(n1):
            if occurs(AV, lg) or lf is not Some(AV) and occurs(AV, lf):
                fixed = False
            elif lf is not Some(AV):
                P1, w = lor(P1, lg), lf if w is None else ite(lg, lf, w)
        if fixed and w is not None:
            if P is F:
                return ite(is_some(init), mkv("lastif", src, b, P1, w, init), init)
            if land(P1, neg(P)) is F:
                hit = firstof(src, b, P)
                e = restrict(subst(restrict(unsome(n0), P), {b: hit}), subst(P, {b: hit}))
                return mkv("lastif", src, b, P1, w, ite(is_some(init), init, ite(anyof(src, b, P), Some(e), NONE)))
    # ---- Option accumulators
    if init.k == "adt" and init.a[0] == OPT and init.a[1] == 0:
        n0 = subst(v, {mu: NONE})
        n1 = subst(v, {mu: Some(AV)})
        P = is_some(n0)
        if mu in freevars(P) or P is F:
            return None
        E = restrict(unsome(n0), P)
        if not (is_some(n1) is T):
            return zero_monoid(src, b, P, E, n1)
        w = unsome(n1)
        # outside P the accumulator is kept
        if restrict(w, neg(P)) is not AV and P is not T:
            return None
        w = restrict(w, P)
        r = combine_kind(eng, src, b, P, E, w, None)
        if r is not None:
            return ite(anyof(src, b, P), Some(r), NONE)
        return None
    # ---- least element, starting from the first
    w = subst(v, {mu: AV})
    s0 = None
    if src.k == "it:skip" and src.a[1].k == "int" and src.a[1].a[0] == 1:
        s0 = src.a[0]
    if s0 is not None:
        from models import index
        # candidate element expression: the leaf that is not the accumulator
        cand = [lf for _, lf in leaves(w) if lf is not AV]
        if len(cand) == 1 and init is subst(cand[0], {b: index(s0, Int(0))}):
            sq = to_seq(eng, s0)
            if sq.k == "seq" and len(sq.a) == 2 and sq.a[1].k == "cmp" and len(sq.a[1].a) == 4 and sq.a[1].a[0] is T:
                c = sq.a[1]
                P = c.a[3].a[0]
                m = {b: c.a[3].a[2]}
                r = combine_kind(eng, c.a[1], c.a[2], P, subst(cand[0], m), subst(w, m), None)
                if r is not None:
                    return r
    return None


def zero_monoid(src, b, P, E, n1):
    """None stands for the neutral element: None + x = Some(x), Some(s) + x = the sum unless it vanishes"""
    from models import Some, NONE
    import crypto
    for name, add, keep in (("sk+", crypto.sksum, crypto.nz), ("pt+", crypto.ptsum, lambda y: crypto.atom("ptok", y))):
        want = ite(P, mapleaf(add(E, AV), lambda y: ite(keep(y), Some(y), NONE)), Some(AV))
        if n1 is want or restrict(n1, P) is restrict(want, P) and restrict(n1, neg(P)) is Some(AV):
            tot = total(name, seq_of(src, b, P, E))
            return mapleaf(tot, lambda y: ite(keep(y), Some(y), NONE))
    return None


def combine_kind(eng, src, b, P, E, w, _):
    """w: the next accumulator given accumulator AV and an element E"""
    for name in SUMS:
        ok = w is not AV
        for lg, lf in leaves(w):
            y = addend(name, lf, AV)
            if y is None or occurs(AV, lg) or not (y is E or same_under(y, E, lg)):
                ok = False
                break
        if ok:
            return total(name, seq_of(src, b, P, E))
    # argmin: leaves are E or AV
    g = F
    for lg, lf in leaves(w):
        if lf is AV:
            continue
        if lf is not E:
            # the element may have been rebuilt inside the guard
            if not same_under(lf, E, lg):
                return None
        g = lor(g, lg)
    if g is F or g is T:
        return None
    g = order_canon(g)
    return mkv("argmin", src, b, P, E, g)


def same_under(a, b, g):
    return restrict(a, g) is restrict(b, g)


def order_canon(g):
    """drop the tie case: with every compared component equal both candidates are the same"""
    eqs = [t for t in atoms(g) if t.k == "eq" and occurs(AV, t)]
    if eqs:
        tie = land(*[node(t, T, F) for t in eqs])
        g = ite(tie, F, g)
    return g


def _rebuild_argmin(args):
    return mkv("argmin", *args)


core.REBUILD["argmin"] = _rebuild_argmin


def cones(todo, mus_of):
    """accumulators each accumulator depends on (transitively)"""
    dep = {}
    inv = {m: k for k, m in mus_of.items()}
    for k, v in todo.items():
        dep[k] = {inv[m] for m in freevars(v) if m in inv and inv[m] in todo} | {k}
    ch = True
    while ch:
        ch = False
        for k in dep:
            n = set().union(*[dep[q] for q in dep[k]])
            if n != dep[k]:
                dep[k] = n
                ch = True
    return dep
