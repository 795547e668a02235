"""Comparison of normal forms: repository function against its reference statement."""
from core import *
import models
import core
from engine import Engine, Unsupported, State, ref
from models import is_ok, unok, is_some, unsome, OPT, RES
from program import human


class Outcome:
    pass


def outcome(P, body, names=None, barriers=(), eqlen=()):
    """normal form of a function: return value, final state of &mut parameters, world effects"""
    E = Engine(P, barriers=barriers)
    names = names or ["a%d" % i for i in range(body.argc)]
    core.EQLEN.clear()
    start = T
    for x, rep in eqlen:
        if rep == "+":
            start = land(start, neg(models.isempty(term(x))))
        else:
            core.EQLEN[term(x)] = term(rep)
    try:
        s = E.run_named(body, names, start)
    finally:
        core.EQLEN.clear()
    o = Outcome()
    o.E, o.body = E, body
    st, g, ret = s.st, s.g, s.ret
    while ret.k == "coroutine" and P.bodies.get(ret.a[0]) is not None:
        # what an asynchronous function does is what running it to its end does
        b = P.bodies[ret.a[0]]
        ret, st, g = E.exec_fn(b, [ret, mkv("resume")][:b.argc], st, g)
    s.st, s.g, s.ret = st, g, ret
    o.ret = s.retval()
    o.roots = {k[1]: v for k, v in s.st.env.items() if isinstance(k, tuple) and k[0] == "root"}
    o.world = s.st.env["W"]
    o.guard = s.g
    o.panics = E.panics
    return o


def term(path):
    """'a0.input' -> field of a parameter"""
    p = path.split(".")
    t = mkv("param", p[0])
    for f in p[1:]:
        t = field(t, int(f) if f.isdigit() else f)
    return t


def ok_part(v):
    return ("result", is_ok(v), unok(v))


_sem = {}
_amatch = {}


def _match_atoms(a, b, care):
    """replace atoms of b that mean the same, inside care, as an atom of a (they may differ in don't-care parts)"""
    key = (a, b, care)
    r = _amatch.get(key)
    if r is not None:
        return r
    aa = atoms(a)
    sa = set(aa)
    m = {}
    for t in atoms(b):
        if t in sa:
            continue
        for u in aa:
            if u.k == t.k and u not in m.values() and len(u.a) == len(t.a) and (u.k != "app" or u.a[0] == t.a[0]) \
                    and (u.k not in ("le", "is") or u.a[1:] == t.a[1:]):
                if leaf_eq(u, t, care, "") is None:
                    m[t] = u
                    break
    r = b
    if m:
        r = _replace_atoms(b, m)
    _amatch[key] = r
    return r


def _replace_atoms(v, m):
    memo = {}

    def rec(x):
        if x.k != "ite":
            return x
        y = memo.get(x)
        if y is None:
            t = m.get(x.a[0], x.a[0])
            y = ite(t if t.k == "ite" or t in (T, F) else node(t, T, F), rec(x.a[1]), rec(x.a[2]))
            memo[x] = y
        return y
    return rec(v)


def differ(a, b, care=T, path=""):
    """None when a and b mean the same inside care; otherwise (where, got, want)"""
    if a is b or care is F:
        return None
    key = (a, b, care)
    if key in _sem:
        return _sem[key]
    _sem[key] = None
    r = _differ(a, b, care, path)
    if r is not None and (a.k == "ite" or b.k == "ite"):
        for c in (T, care) if care is not T else (T,):
            b2 = _match_atoms(a, b, c)
            if r is not None and b2 is not b:
                r = _differ(a, b2, care, path)
    _sem[key] = r
    return r


def _differ(a, b, care, path):
    t = core._top(a, b)
    if t is None:
        if care.k == "ite" and False:
            pass
        return leaf_eq(a, b, care, path)
    for bl in (True, False):
        m = {t: bl}
        m.update((core._pos_assign(t) if bl else core._neg_assign(t)) or {})
        mk_ = core._mk(m)
        c2 = core._assign(care, m, mk_)
        if c2 is F:
            continue
        c2 = land(c2, node(t, T, F) if bl else node(t, F, T))
        r = differ(core._assign(a, m, mk_), core._assign(b, m, mk_), c2, path)
        if r is not None:
            return r
    return None


def under(v, care):
    """v with everything care decides removed"""
    return restrict(v, care) if v.k == "ite" else v


def happens(o, care):
    """an operation can take place inside care"""
    c = land(o.a[0], care)
    if c is F or o.k == "cmp" and o.a[1].k == "wlast" and land(c, neg(models.isempty(o.a[1]))) is F:
        return False
    return o.k == "op" or any(happens(q, c) for q in o.a[3:])


def leaf_eq(a, b, care, path):
    if a is b:
        return None
    if a in (T, F) or b in (T, F):
        return path, a, b
    if a.k != b.k and (a.k == "log" or b.k == "log"):
        # a log none of whose operations can take place is the value it started from
        for l in (a, b):
            if l.k == "log" and not any(happens(o, care) for o in l.a[1:]):
                return differ(a.a[0] if l is a else a, b.a[0] if l is b else b, care, path)
    if a.k != b.k and "wlast" in (a.k, b.k):
        # lists that are both empty
        if all(land(care, neg(models.isempty(v))) is F for v in (a, b) if v.k in ("wlast", "seq")) and {a.k, b.k} <= {"wlast", "seq"}:
            return None
    if a.k != b.k:
        # Some(x's payload), where x is Some, is x
        for s_, u in ((a, b), (b, a)):
            if s_.k == "adt" and s_.a[0] not in core.STRUCTS and len(s_.a) > 2 and u.k != "adt" \
                    and all(p is mkv("proj", u, s_.a[1], i) for i, p in enumerate(s_.a[2:])):
                return None
        # one struct spelled out, the other as an update of a value
        for s_, u in ((a, b), (b, a)):
            tupl = s_.k == "tuple"
            if s_.k == "adt" and s_.a[0] in core.STRUCTS and u.k == "upd" or tupl and u.k not in ("int", "bytes", "seq", "log"):
                vals = s_.a if tupl else s_.a[2:]
                names = list(range(len(vals))) if tupl else core.FIELDNAMES.get((s_.a[0], s_.a[1]), [])
                if len(names) == len(vals):
                    for n, v in zip(names, vals):
                        w = field(u, n)
                        r = differ(v, w, care, path + "/." + str(n)) if s_ is a else differ(w, v, care, path + "/." + str(n))
                        if r:
                            return r
                    return None
        return path, a, b
    k = a.k
    if k == "app":
        if a.a[0] != b.a[0] or len(a.a) != len(b.a):
            return path, a, b
        lab = "/" + str(a.a[0])
    else:
        lab = "/" + k
    if k in ("seq", "log"):
        r = differ(a.a[0], b.a[0], care, path + lab)
        if r:
            return r
        la = [o for o in a.a[1:] if happens(o, care)]
        lb = [o for o in b.a[1:] if happens(o, care)]
        return ops_eq(la, lb, care, path + lab, a, b)
    if k in ("op", "cmp"):
        return op_eq(a, b, care, path)
    if k == "while":
        if len(a.a[1]) != len(b.a[1]):
            return path + "/while", a, b
        r = differ(a.a[0], b.a[0], T, path + "/while-condition")
        for i, (p, q) in enumerate(zip(a.a[1], b.a[1])):
            r = r or differ(p, q, T, path + "/while-init%d" % i)
        for i, (p, q) in enumerate(zip(a.a[2], b.a[2])):
            r = r or differ(p, q, a.a[0], path + "/while-next%d" % i)
        return r
    if len(a.a) != len(b.a):
        return path, a, b
    if k == "adt":
        lab = "/" + core.short(a.a[0])
    if k in ("any", "first", "cnt", "last", "lastif") and isinstance(a.a[1], V):
        # one element variable for both
        if a.a[1] is not b.a[1]:
            r = differ(a.a[0], b.a[0], T, path + lab + "/of")
            if r:
                return r
            b = mkv(k, a.a[0], a.a[1], *[subst(x, {b.a[1]: a.a[1]}) if isinstance(x, V) else x for x in b.a[2:]])
            if a is b:
                return None
    if k == "fold":
        r = differ(a.a[0], b.a[0], T, path + "/fold-of")
        if len(a.a[2]) != len(b.a[2]):
            return path + "/fold", a, b
        for i, (p, q) in enumerate(zip(a.a[2], b.a[2])):
            r = r or differ(p, q, care, path + "/fold-init%d" % i)
        for i, (p, q) in enumerate(zip(a.a[3], b.a[3])):
            r = r or differ(p, subst(q, {b.a[1]: a.a[1]}), T, path + "/fold-next%d" % i)
        return r
    if k == "eq" or (k == "app" and a.a[0] in ("pt+", "sk+", "sk*", "pt*")):
        st = 0 if k == "eq" else (2 if a.a[0] == "pt*" else 1)
        if st == 2:
            r = differ(under(a.a[1], care), under(b.a[1], care), care, path + lab)
            if r:
                return r
        rest = list(b.a[st:])
        last = None
        for x in a.a[st:]:
            for y in rest:
                r = differ(under(x, care), under(y, care), care, path + lab)
                if r is None:
                    rest.remove(y)
                    break
                last = r
            else:
                return last or (path, a, b)
        return None
    for i, (x, y) in enumerate(zip(a.a, b.a)):
        if isinstance(x, V) and isinstance(y, V):
            r = differ(under(x, care), under(y, care), care, path + lab)
            if r:
                return r
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return path + lab, a, b
            for p, q in zip(x, y):
                if isinstance(p, V) and isinstance(q, V):
                    r = differ(under(p, care), under(q, care), care, path + lab)
                    if r:
                        return r
                elif p != q:
                    return path + lab, a, b
        elif x != y:
            return path, a, b
    return None


def op_eq(x, y, care, path):
    if x.k != y.k or len(x.a) != len(y.a):
        return path, x, y
    r = differ(x.a[0], y.a[0], care, path + "/guard")
    if r:
        return r
    c = land(care, x.a[0])
    if x.k == "op":
        if x.a[1] != y.a[1]:
            return path, x, y
        for p, q in zip(x.a[2:], y.a[2:]):
            if isinstance(p, V) and isinstance(q, V):
                r = differ(under(p, c), under(q, c), c, path + "/" + str(x.a[1]))
                if r:
                    return r
            elif p != q:
                return path, x, y
        return None
    if x.k == "cmp" and (x.a[1].k == "zip") != (y.a[1].k == "zip"):
        for x2, y2 in [(w, y) for w in unzipped(x, c)] + [(x, w) for w in unzipped(y, c)]:
            if op_eq(x2, y2, care, path) is None:
                return None
    ly = list(y.a[3:])
    if x.a[1] is not y.a[1] or x.a[2] is not y.a[2]:
        r = differ(x.a[1], y.a[1], c, path + "/for")
        if r:
            return r
        m = {y.a[2]: x.a[2]}
        ly = [subst(o, m) for o in ly]
    def within(k):
        ks = [o for o in x.a[3:] if happens(o, k)], [o for o in ly if happens(o, k)]
        return ops_eq(*ks, k, path + "/for", x, y)
    r = within(c)
    if r is not None:
        more = of_each(c, x.a[1], x.a[2], x.a[3:] + tuple(ly))
        if more is not c:
            return within(more)
    return r


def of_each(care, src, b, ops):
    """what holds of no element does not hold of this one"""
    todo = set(atoms(care))
    for o in ops:
        todo.update(atoms(cond(o)))
    for t in sorted(todo, key=lambda t: t.id):
        if t.k == "any" and t.a[0] is src:
            care = land(care, lor(node(t, T, F), neg(subst(t.a[2], {t.a[1]: b}))))
    return care


def unzipped(o, care):
    """lists of the same length walked in step, as a walk over what one of them was made from"""
    if o.k != "cmp" or o.a[1].k != "zip":
        return
    zs, b = o.a[1].a, o.a[2]
    for s in zs:
        sc = models.single_comp(s) if s.k == "seq" else None
        if sc is None or sc[0] is not T:
            continue
        _, src, ba, gd, ea = sc
        some = land(care, models.anyof(src, ba, gd))
        if any(z is not s and land(some, neg(eqv(models.length(z), models.length(s)))) is not F for z in zs):
            continue
        at = models.place(ba) if gd is T else mkv("cnt", src, ba, gd, "before")
        m = {mkv("zel", b, z): ea if z is s else models.index(z, at) for z in zs}
        m[mkv("idx", b)] = at
        ops = [models.guard_op(subst(q, m), gd) for q in o.a[3:]]
        if any(occurs(b, q) for q in ops):
            continue
        yield comp(o.a[0], src, ba, *ops)


def cond(o):
    """a condition without which the operation does not take place"""
    if o.k == "op":
        return o.a[0]
    return land(o.a[0], lor(*[T if o.a[2] in freevars(c) else c for c in (cond(q) for q in o.a[3:])]))


def ops_eq(la, lb, care, path, a, b, depth=0):
    """the same operations, in the same order as far as they can happen in the same run"""
    r = ops_same(la, lb, care, path, a, b)
    if r is None or depth > 8:
        return r
    for o in la + lb:
        # case distinction on a condition that the comparison has left open
        c = cond(o)
        c1 = land(care, c)
        if c1 is care or c1 is F:
            continue
        for c2 in (c1, land(care, neg(c))):
            q = ops_eq([o for o in la if happens(o, c2)], [o for o in lb if happens(o, c2)], c2, path, a, b, depth + 1)
            if q is not None:
                return q
        return None
    return r


def ops_same(la, lb, care, path, a, b):
    if len(la) != len(lb):
        return path, a, b
    lb = list(lb)
    for x in la:
        first = None
        for i, y in enumerate(lb):
            if i and any(land(cond(z), cond(y), care) is not F for z in lb[:i]):
                continue
            r = op_eq(x, y, care, path)
            if r is None:
                del lb[i]
                break
            first = first or r
        else:
            return first or (path, a, b)
    return None


BOUND = ("any", "first", "last", "lastif", "cnt", "fold", "argmin")


def align(oa, ob):
    """quantified terms of ob that mean the same as one of oa are replaced by it (they may be spelled differently
    where it does not matter), so that the case distinctions of both sides are about the same things"""
    va = [oa.ret, oa.world] + list(oa.roots.values())
    ta = sorted({t for v in va for t in subterms(v) if t.k in BOUND}, key=lambda t: t.id)
    sa = set(ta)
    for _ in range(20):
        vb = [ob.ret, ob.world] + list(ob.roots.values())
        tb = sorted({t for v in vb for t in subterms(v) if t.k in BOUND} - sa, key=lambda t: t.id)
        m = {}
        for t in tb:
            for u in ta:
                if u.k == t.k and len(u.a) == len(t.a) and leaf_eq(u, t, T, "") is None:
                    m[t] = u
                    break
            if m:
                break
        if not m:
            return
        ob.ret, ob.world = subst(ob.ret, m), subst(ob.world, m)
        ob.roots = {k: subst(v, m) for k, v in ob.roots.items()}


def facts(oc, os_):
    """what holds of the loops and searches of both outcomes, whatever their inputs"""
    seen = set()
    for o in (oc, os_):
        for v in [o.ret, o.world] + list(o.roots.values()):
            seen |= {t for t in subterms(v) if t.k in ("wlast", "any")}
    r = T
    some = {t for t in seen if t.k == "any"}
    for w in sorted((t for t in seen if t.k == "wlast"), key=lambda t: t.id):
        cond0, inits = w.a[0].a[0], w.a[0].a[1]
        empty = models.isempty(inits[w.a[1]])
        if empty is F:
            continue
        ds = {m.a[0] for m in subterms(cond0) if m.k == "mv" and m.a[0] >= 0}
        if len(ds) != 1:
            continue
        d = ds.pop()
        # a loop that is not entered leaves things as they are
        cond0 = subst(cond0, {mkv("mv", d, i): v for i, v in enumerate(inits)})
        m = {}
        for t in atoms(cond0):
            sc = models.single_comp(t.a[0]) if t.k == "any" and t.a[0].k == "seq" else None
            if sc is not None:
                m[t] = land(sc[0], models.anyof(sc[1], sc[2], land(sc[3], subst(t.a[2], {t.a[1]: sc[4]}))))
        cond0 = _replace_atoms(cond0, m)
        some |= {t for t in atoms(cond0) if t.k == "any"}
        r = land(r, lor(cond0, neg(empty), models.isempty(w)))
    some = sorted(some, key=lambda t: t.id)
    for t in some:
        for u in some:
            if t is not u and t.a[0] is u.a[0] and t.a[1] is u.a[1] and land(t.a[2], neg(u.a[2])) is F:
                r = land(r, lor(node(t, F, T), node(u, T, F)))
    return r


def compare_outcomes(oc, os_, kind, known=T):
    """None, or (where, got, want)"""
    care = land(oc.guard, os_.guard, known)
    d = cmp_values(kind, oc.ret, os_.ret, care)
    if d is not None:
        return d
    done = land(care, is_ok(oc.ret), is_ok(os_.ret)) if kind == "ok" else care
    for k in oc.roots:
        d = differ(oc.roots[k], os_.roots.get(k, UNDEF), done, "state " + k)
        if d:
            return d
    return differ(oc.world, os_.world, done, "effects")


def clip(v, n=600):
    s = show(v)
    return s if len(s) <= n else s[:n] + "…"


def cmp_values(kind, got, want, care=T):
    """kind: 'all' | 'ok' | 'some'"""
    if kind == "ok":
        g1, g2 = is_ok(got), is_ok(want)
        d = differ(g1, g2, care, "accept-condition")
        if d:
            return d
        return differ(unok(got), unok(want), land(care, g1), "Ok")
    if kind == "some":
        g1, g2 = is_some(got), is_some(want)
        d = differ(g1, g2, care, "some-condition")
        if d:
            return d
        return differ(unsome(got), unsome(want), land(care, g1), "Some")
    return differ(got, want, care, "value")
