"""Value domain: interned terms, multi-terminal decision diagrams over boolean atoms.

A value is either a leaf term or an `ite` node (atom, hi, lo) ordered by atom id, so two values that
are the same function of the same atoms are the same object.  Guards are values with leaves T/F.
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_cnt = [0]


class V:
    __slots__ = ("k", "a", "id", "_fv", "_lv")

    def __repr__(self):
        return show(self)


def mkv(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = _cnt[0]
        v._fv = None
        v._lv = None
        _cnt[0] += 1
        _tab[key] = v
    return v


T = mkv("true")
F = mkv("false")
UNIT = mkv("tuple")
UNDEF = mkv("undef")


def Int(n):
    return mkv("int", n)


def Bytes(b):
    return mkv("bytes", b)


def is_leaf(v):
    return v.k != "ite"


# ---------------------------------------------------------------- atom groups / implications
_groups = {}
_atomgroup = {}
ATOMGROUP = {}   # names of mutually exclusive boolean predicates over one argument


def _register(a):
    if a in _atomgroup:
        return
    g = None
    if a.k == "is":
        g = ("is", a.a[0])
    elif a.k == "le":
        g = ("le", a.a[0])
    elif a.k == "any":
        g = ("le", mkv("app", "len", a.a[0]))
    elif a.k == "app" and a.a[0] in ATOMGROUP:
        g = (ATOMGROUP[a.a[0]], a.a[1])
    elif a.k == "eq":
        for i in (0, 1):
            if is_const(a.a[i]):
                g = ("eq", a.a[1 - i])
                break
    _atomgroup[a] = g
    if g is not None:
        _groups.setdefault(g, []).append(a)


def is_const(v):
    if v.k in ("int", "bytes", "true", "false", "undef"):
        return True
    if v.k == "adt":
        return all(is_const(x) for x in v.a[2:] if isinstance(x, V))
    if v.k in ("tuple", "array"):
        return all(is_const(x) for x in v.a if isinstance(x, V))
    if v.k == "app" and v.a[0] in ("Hrp::parse_unchecked",):
        return is_const(v.a[1])
    return False


def _implied(a, val, group):
    """assignments of other atoms of the group implied by a=val"""
    out = {}
    kind = group[0]
    for o in _groups[group]:
        if o is a:
            continue
        if kind == "is":
            if val:
                out[o] = False
        elif kind == "le" and (a.k == "any" or o.k == "any"):
            # a collection with a matching element is not empty
            if a.k == "any" and o.k == "le" and val and o.a[1] == 0:
                out[o] = False
            elif a.k == "le" and o.k == "any" and val and a.a[1] == 0:
                out[o] = False
        elif kind == "le":
            if val and o.a[1] > a.a[1]:
                out[o] = True
            elif not val and o.a[1] < a.a[1]:
                out[o] = False
        elif val:
            out[o] = False
    return out


_assign_memo = {}


def _assign(v, m, mkey):
    """cofactor v by the assignment m (atom->bool)"""
    if v.k != "ite":
        return v
    key = (v, mkey)
    r = _assign_memo.get(key)
    if r is not None:
        return r
    a, h, l = v.a
    if a in m:
        r = _assign(h if m[a] else l, m, mkey)
    else:
        h2 = _assign(h, m, mkey)
        l2 = _assign(l, m, mkey)
        r = v if (h2 is h and l2 is l) else _raw_ite(a, h2, l2)
    _assign_memo[key] = r
    return r


def _raw_ite(a, h, l):
    if h is l:
        return h
    return mkv("ite", a, h, l)


def node(a, h, l):
    if h is l:
        return h
    _register(a)
    g = _atomgroup[a]
    if g is not None and len(_groups[g]) > 1:
        if h.k == "ite":
            m = _implied(a, True, g)
            if m:
                h = _assign(h, m, tuple(sorted((o.id, b) for o, b in m.items())))
        if l.k == "ite":
            m = _implied(a, False, g)
            if m:
                l = _assign(l, m, tuple(sorted((o.id, b) for o, b in m.items())))
        if h is l:
            return h
        # the test is redundant when one branch, specialised to the other side, is the other branch
        if l.k == "ite":
            m = _implied(a, True, g)
            if m and _assign(l, m, _mk(m)) is h:
                return l
        if h.k == "ite":
            m = _implied(a, False, g)
            if m and _assign(h, m, _mk(m)) is l:
                return h
    if h is l:
        return h
    return mkv("ite", a, h, l)


def _top(*vs):
    t = None
    for v in vs:
        if v.k == "ite":
            a = v.a[0]
            if t is None or a.id < t.id:
                t = a
    return t


def _cof(v, a, b):
    if v.k == "ite" and v.a[0] is a:
        return v.a[1] if b else v.a[2]
    return v


_ite_memo = {}
CTORS = {}      # constructor functions of tuple structs and variants -> (adt path, variant)
PLAIN = {}  # private structs of the code: path -> the place of each field in the tuple they are judged as (None: the field itself)
PLAIN_USED = set()
STRUCTS = set()  # adt paths that are structs (filled by the program loader)


def ite(g, a, b):
    if g is T:
        return a
    if g is F:
        return b
    if a is b:
        return a
    if a is T and b is F:
        return g
    key = (g, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    r = None
    if a.k != "ite" and b.k != "ite":
        r = _merge_leaf(g, a, b)
    if r is None:
        t = _top(g, a, b)
        r = node(t, ite(_cof(g, t, True), _cof(a, t, True), _cof(b, t, True)),
                 ite(_cof(g, t, False), _cof(a, t, False), _cof(b, t, False)))
    _ite_memo[key] = r
    return r


def _merge_leaf(g, a, b):
    if a.k == "undef":
        return b
    if b.k == "undef":
        return a
    if a is HOLE or b is HOLE:
        return None
    if a.k == "tuple" and b.k == "tuple" and len(a.a) == len(b.a) and a.a:
        return mkv("tuple", *[ite(g, x, y) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if x.k == "upd" and y.k == "tuple" and y.a and all(isinstance(f, int) for f, _ in x.a[1:]):
            return mkv("tuple", *[ite(g, field(a, i), field(b, i)) for i in range(len(y.a))])
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] and a.a[0] in STRUCTS and len(a.a) == len(b.a):
        return mkv("adt", a.a[0], a.a[1], *[ite(g, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.k == "array" and b.k == "array" and len(a.a) == len(b.a):
        return mkv("array", *[ite(g, x, y) for x, y in zip(a.a, b.a)])
    # struct updates of one base
    if a.k == "upd" or b.k == "upd":
        ba, da = (a.a[0], dict(a.a[1:])) if a.k == "upd" else (a, {})
        bb, db = (b.a[0], dict(b.a[1:])) if b.k == "upd" else (b, {})
        if ba is bb:
            ks = sorted(set(da) | set(db), key=str)
            new = {}
            for f in ks:
                x = da.get(f)
                y = db.get(f)
                if x is None:
                    x = field(ba, f)
                if y is None:
                    y = field(ba, f)
                new[f] = ite(g, x, y)
            return upd(ba, new)
    la, lb = a.k in ("log", "seq"), b.k in ("log", "seq")
    if la or lb:
        ba, oa = (a.a[0], a.a[1:]) if la else (a, ())
        bb, ob = (b.a[0], b.a[1:]) if lb else (b, ())
        if ba is bb:
            n = 0
            while n < len(oa) and n < len(ob) and oa[n] is ob[n]:
                n += 1
            pre = oa[:n]
            mid = []
            ra, rb = list(oa[n:]), list(ob[n:])
            # same-shape suffix ops differing only in guard
            suf = []
            while ra and rb and ra[-1] is rb[-1]:
                suf.append(ra.pop())
                rb.pop()
            suf.reverse()
            for o in ra:
                mid.append(guard_op(o, g))
            for o in rb:
                mid.append(guard_op(o, neg(g)))
            return log(ba, list(pre) + mid + suf)
    return None


def neg(g):
    return ite(g, F, T)


def land(*gs):
    r = T
    for g in gs:
        r = ite(r, g, F)
    return r


def lor(*gs):
    r = F
    for g in gs:
        r = ite(r, T, g)
    return r


def implies(a, b):
    return ite(a, b, T)


HOLE = mkv("hole")
_join_memo = {}
_fill_memo = {}
_restrict_memo = {}
_exists_memo = {}


def join(x, y):
    """the common extension of two diagrams with holes, or None"""
    if x is y or y is HOLE:
        return x
    if x is HOLE:
        return y
    t = _top(x, y)
    if t is None:
        return None
    key = (x, y)
    if key in _join_memo:
        return _join_memo[key]
    r = None
    h = join(_cof(x, t, True), _cof(y, t, True))
    if h is not None:
        l = join(_cof(x, t, False), _cof(y, t, False))
        if l is not None:
            r = node(t, h, l)
    _join_memo[key] = r
    return r


def fill(f):
    """drop every test the holes make unnecessary (tests nearest the root first)"""
    if f.k != "ite":
        return f
    r = _fill_memo.get(f)
    if r is None:
        a, h, l = f.a
        j = join(h, l)
        r = fill(j) if j is not None else ite(node(a, T, F), fill(h), fill(l))
        _fill_memo[f] = r
    return r


def support(f):
    return set(atoms(f))


def exists_outside(c, keep):
    """existential quantification of the atoms of c that are not in keep"""
    key = (c, frozenset(keep))
    r = _exists_memo.get(key)
    if r is not None:
        return r
    memo = {}

    def rec(x):
        if x.k != "ite":
            return x
        y = memo.get(x)
        if y is None:
            h, l = rec(x.a[1]), rec(x.a[2])
            y = node(x.a[0], h, l) if x.a[0] in keep else lor(h, l)
            if y.k == "ite" and x.a[0] in keep:
                y = ite(node(x.a[0], T, F), h, l)
            memo[x] = y
        return y
    r = rec(c)
    _exists_memo[key] = r
    return r


def restrict(f, c):
    """simplify f under the care set c; never tests anything f does not test"""
    if c is T or f.k != "ite" or c is F:
        return f
    key = (f, c)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    keep = support(f)
    # members of the same exclusion group speak about the same thing
    gs = {_atomgroup.get(a) for a in keep} - {None}
    if gs:
        keep = keep | {a for a in atoms(c) if _atomgroup.get(a) in gs}
    c2 = exists_outside(c, keep)
    if c2 is T or c2 is F:
        r = f
    else:
        r = fill(ite(c2, f, HOLE))
        if r is HOLE:
            r = f
    _restrict_memo[key] = r
    return r


def assume_op(o, c):
    g = restrict(o.a[0], c) if o.a[0].k == "ite" else o.a[0]
    if o.k == "cmp":
        inner = [assume_op(x, c) for x in o.a[3:]]
        return o if g is o.a[0] and all(x is y for x, y in zip(inner, o.a[3:])) else comp(g, o.a[1], o.a[2], *inner)
    return o if g is o.a[0] else mkv(o.k, g, *o.a[1:])


def assume(v, c):
    """v where c is known to hold: values and the guards of state changes alike"""
    if c is T or c is F:
        return v
    if v.k == "ite":
        return mapleaf(restrict(v, c), lambda x: assume(x, c))
    if v.k in ("log", "seq"):
        ops = [assume_op(o, c) for o in v.a[1:]]
        base = assume(v.a[0], c)
        if base is v.a[0] and all(x is y for x, y in zip(ops, v.a[1:])):
            return v
        return log(base, ops)
    if v.k == "upd":
        r = assume(v.a[0], c)
        for f, y in v.a[1:]:
            r = setfield(r, f, assume(y, c))
        return r
    if v.k in ("tuple", "adt"):
        args = [assume(x, c) if isinstance(x, V) else x for x in v.a]
        return v if all(x is y for x, y in zip(args, v.a)) else mkv(v.k, *args)
    return v


def select(gs):
    """for disjoint path guards: simplest guards that agree with them on their union"""
    s = HOLE
    for i, g in enumerate(gs):
        s = ite(g, Int(i), s)
    s = fill(s)
    out = []
    for i in range(len(gs)):
        me = Int(i)
        out.append(mapleaf(s, lambda l: T if l is me else F))
    return out


def _pos_assign(a):
    _register(a)
    g = _atomgroup[a]
    return _implied(a, True, g) if g is not None and len(_groups[g]) > 1 else None


def _neg_assign(a):
    _register(a)
    g = _atomgroup[a]
    return _implied(a, False, g) if g is not None and len(_groups[g]) > 1 else None


def _mk(m):
    return tuple(sorted((o.id, b) for o, b in m.items()))


def leaves(v):
    """[(guard, leaf)] of a value"""
    if v._lv is not None:
        return v._lv
    out = {}

    def rec(x, memo):
        pass
    # distinct leaves with guards
    order = []

    def collect(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x.k == "ite":
            collect(x.a[1], seen)
            collect(x.a[2], seen)
        else:
            order.append(x)
    collect(v, set())
    if len(order) == 1:
        r = [(T, order[0])]
    else:
        r = []
        for lf in order:
            memo = {}

            def gd(x):
                if x.k != "ite":
                    return T if x is lf else F
                y = memo.get(x)
                if y is None:
                    y = node(x.a[0], gd(x.a[1]), gd(x.a[2]))
                    memo[x] = y
                return y
            r.append((gd(v), lf))
    v._lv = r
    return r


_map_memo = {}


def mapleaf(v, fn, key=None):
    """apply fn to every leaf, rebuild"""
    if v.k != "ite":
        return fn(v)
    memo = {}

    def rec(x):
        if x.k != "ite":
            return fn(x)
        y = memo.get(x)
        if y is None:
            h, l = rec(x.a[1]), rec(x.a[2])
            y = ite(node(x.a[0], T, F), h, l)
            memo[x] = y
        return y
    return rec(v)


def nleaves(v):
    return len(leaves(v)) if v.k == "ite" else 1


HOIST_LIMIT = 48


def lift(fn, args):
    """fn over leaves of several args (distributes ite outward)"""
    n = 1
    for x in args:
        if isinstance(x, V) and x.k == "ite":
            n *= nleaves(x)
    if n == 1:
        return fn(args)
    if n > HOIST_LIMIT:
        return None

    def rec(i, acc):
        if i == len(args):
            return fn(acc)
        x = args[i]
        if isinstance(x, V) and x.k == "ite":
            return mapleaf(x, lambda l: rec(i + 1, acc + [l]))
        return rec(i + 1, acc + [x])
    return rec(0, [])


# ---------------------------------------------------------------- smart constructors
ARRLEN = {}
INDEXBOUND = [lambda src, c: False]
EQLEN = {}   # collections assumed to be index-aligned with a representative collection (per run)
NVARIANTS = {}


def isv(t, idx, n, name=None):
    """guard: enum value t is variant idx (of n)"""
    def one(x):
        if x.k == "adt":
            return T if x.a[1] == idx else F
        if x.k == "undef":
            return F
        if n == 1:
            return T
        if n is not None and n <= 12 and idx == n - 1:
            r = T
            for j in range(n - 1):
                r = land(r, neg(isv(x, j, n)))
            return r
        a = mkv("is", x, idx, n)
        return node(a, T, F)
    return mapleaf(t, one)


def tobool(v):
    def one(x):
        if x is T or x is F:
            return x
        if x.k == "int":
            return T if x.a[0] else F
        if x.k == "undef":
            return F
        return node(x, T, F)
    return mapleaf(v, one)


def only_adds(ops):
    return all(o.a[1] in ("push", "insert") if o.k == "op" else only_adds(o.a[3:]) for o in ops)


def executed(o):
    if o.k == "op":
        return o.a[0]
    return land(o.a[0], ANYOF[0](o.a[1], o.a[2], lor(*[executed(x) for x in o.a[3:]])))


def le_const(x, c):
    """guard x <= c for an unsigned integer value and python int c"""
    if c < 0:
        return F

    def one(y):
        if y.k == "int":
            return T if y.a[0] <= c else F
        if y.k == "app" and y.a[0] == "+" and y.a[2].k == "int":
            return le_const(y.a[1], c - y.a[2].a[0])
        if y.k == "app" and y.a[0] == "-" and y.a[2].k == "int":
            return le_const(y.a[1], c + y.a[2].a[0])
        if y.k == "cnt" and c == 0 and len(y.a) == 3:
            return neg(ANYOF[0](*y.a))
        if y.k == "app" and y.a[0] == "Fe32::to_u8" and c >= 31:
            return T
        if c == 0 and y.k == "app" and y.a[0] == "len" and y.a[1].k in ("log", "seq") and only_adds(y.a[1].a[1:]):
            # nothing was ever added
            x = y.a[1]
            start = T if x.a[0].k == "newmap" or x.a[0] is EMPTY else le_const(app("len", x.a[0]), 0)
            return land(start, neg(lor(*[executed(o) for o in x.a[1:]])))
        if y.k == "app" and y.a[0] == "len" and y.a[1].k == "seq" and y.a[1].a[0] is EMPTY and len(y.a[1].a) > 2:
            # one of several copies, depending on the case
            ops = y.a[1].a[1:]
            if all(o.k == "cmp" and len(o.a) == 4 and o.a[3].k == "op" and o.a[3].a[0] is T and o.a[3].a[1] == "push" for o in ops) \
                    and all(land(o.a[0], p.a[0]) is F for i, o in enumerate(ops) for p in ops[:i]):
                r = T
                for o in ops:
                    r = ite(o.a[0], le_const(app("len", o.a[1]), c), r)
                return r
        if y.k == "app" and y.a[0] == "/" and y.a[2].k == "int" and y.a[2].a[0] > 0:
            return le_const(y.a[1], (c + 1) * y.a[2].a[0] - 1)
        if y.k == "app" and y.a[0] == "len" and y.a[1].k == "it:skip" and y.a[1].a[1].k == "int":
            return le_const(app("len", y.a[1].a[0]), c + y.a[1].a[1].a[0])
        if y.k == "app" and y.a[0] == "min" and y.a[2].k == "int":
            return T if y.a[2].a[0] <= c else le_const(y.a[1], c)
        if y.k == "app" and y.a[0] == "&" and y.a[2].k == "int" and y.a[2].a[0] <= c:
            return T
        if y.k == "b" and y.a[0].k == "range" and y.a[0].a[1].k == "int" and y.a[0].a[1].a[0] - 1 <= c:
            return T
        if y.k == "b" and y.a[0].k == "range" and y.a[0].a[0].k == "int" and y.a[0].a[0].a[0] > c:
            return F
        if y.k == "idx" and y.a[0].k == "b" and INDEXBOUND[0](y.a[0].a[0], c):
            return T
        return node(mkv("le", y, c), T, F)
    return mapleaf(x, one)


def within(x, y):
    """x is the position of an element, y the number of elements"""
    if x.k == "cnt" and y.k == "cnt" and x.a[-1] == "before" and x.a[:3] == y.a:
        return True
    if not (y.k == "app" and y.a[0] == "len"):
        return False
    if x.k == "app" and x.a[0] == "+":
        # a position in what is left after skipping some
        p, n = x.a[1:] if x.a[1].k == "idx" else (x.a[2], x.a[1])
        s = p.a[0].a[0] if p.k == "idx" else None
        return isinstance(s, V) and s.k == "it:skip" and s.a[1] is n and s.a[0] is y.a[1]
    if x.k == "idx":
        return y.a[1] is x.a[0].a[0] or x.a[0].a[0].k == "zip" and y.a[1] in x.a[0].a[0].a
    l = x.a[1] if x.k == "zel" else x.a[0] if x.k == "b" else None
    return isinstance(l, V) and l.k == "seq" and l.a[0] is EMPTY and len(l.a) > 1 and all(
        # an element of a list of such positions
        o.k == "cmp" and len(o.a) == 4 and o.a[3].k == "op" and o.a[3].a[1] == "push" and within(o.a[3].a[2], y) for o in l.a[1:])


INJECTIVE = {"ser33", "p2tr"} | {p + n for p in ("le", "be", "unle", "unbe") for n in ("1", "2", "4", "8", "16")}


def eqv(a, b):
    def two(ab):
        x, y = ab
        if x is y:
            return T
        cx, cy = is_const(x), is_const(y)
        if x.k == "int" and y.k == "int":
            return T if x.a[0] == y.a[0] else F
        if x in (T, F):
            return tobool(y) if x is T else neg(tobool(y))
        if y in (T, F):
            return tobool(x) if y is T else neg(tobool(x))
        if y.k == "int" and cx is False:
            return land(le_const(x, y.a[0]), neg(le_const(x, y.a[0] - 1)))
        if x.k == "int" and cy is False:
            return land(le_const(y, x.a[0]), neg(le_const(y, x.a[0] - 1)))
        if x.k == "bytes" and y.k == "bytes":
            return T if x.a[0] == y.a[0] else F
        if x.k == "adt" and y.k == "adt" and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return F
            r = T
            for p, q in zip(x.a[2:], y.a[2:]):
                r = land(r, eqv(p, q))
            return r
        for p, q in ((x, y), (y, x)):
            if p.k == "adt" and p.a[0] in NVARIANTS and q.k != "adt":
                n = NVARIANTS[p.a[0]]
                g = isv(q, p.a[1], n)
                for i, f in enumerate(p.a[2:]):
                    g = land(g, eqv(f, proj(q, p.a[1], i, None)))
                return g
        if x.k == "tuple" and y.k == "tuple" and len(x.a) == len(y.a):
            r = T
            for p, q in zip(x.a, y.a):
                r = land(r, eqv(p, q))
            return r
        if x.k == y.k == "app" and x.a[0] == y.a[0] and x.a[0] in INJECTIVE and len(x.a) == len(y.a) == 2:
            return eqv(x.a[1], y.a[1])
        if within(x, y) or within(y, x):
            return F
        if x.id > y.id:
            x, y = y, x
        return node(mkv("eq", x, y), T, F)
    r = lift(two, [a, b])
    if r is None:
        if a.id > b.id:
            a, b = b, a
        r = node(mkv("eq", a, b), T, F)
    return r


FIELDNAMES = {}  # (adt path, variant) -> [names]
APPRULES = {}    # name -> fn(args)->V or None


def app(name, *args):
    """pure uninterpreted application, hoisting conditionals out of its arguments"""
    def f(xs):
        r = APPRULES.get(name)
        if r is not None:
            y = r(xs)
            if y is not None:
                return y
        return mkv("app", name, *xs)
    r = lift(f, list(args))
    if r is None:
        r = mkv("app", name, *args)
    return r


def adt(path, vi, *fields):
    if path in PLAIN:
        # nobody outside sees how a private struct keeps its fields
        o = PLAIN[path]
        if o is None and len(fields) == 1:
            return fields[0]
        if o is not None and len(o) == len(fields):
            PLAIN_USED.add(path)
            return tup(*[x for _, x in sorted(zip(o, fields), key=lambda q: q[0])])
    if path in STRUCTS:
        # S { f: b.f for all f } is b
        names = FIELDNAMES.get((path, vi))
        if names and len(fields) == len(names):
            b = None
            ok = True
            for nme, f in zip(names, fields):
                if f.k == "fld" and f.a[1] == nme and isinstance(nme, str) and not nme.isdigit() and (b is None or f.a[0] is b):
                    b = f.a[0]
                else:
                    ok = False
                    break
            if ok and b is not None and len(names) >= 2:
                return b
        return mkv("adt", path, vi, *fields)

    def f(xs):
        # Variant(proj(x, Variant)) under is(x, Variant) -- keep simple
        return mkv("adt", path, vi, *xs)
    r = lift(f, list(fields))
    if r is None:
        r = mkv("adt", path, vi, *fields)
    return r


def tup(*xs):
    return mkv("tuple", *xs)


def field(v, name, owner=None, idx=None):
    """struct/tuple field by name (structs) or index (tuples)"""
    def one(x):
        if x.k == "tuple" and isinstance(name, int):
            if name < len(x.a):
                return x.a[name]
        if x.k == "closure" and isinstance(name, int):
            return x.a[1 + name]
        if x.k == "coroutine" and isinstance(name, int):
            return x.a[1 + name]
        if x.k == "adt":
            names = FIELDNAMES.get((x.a[0], x.a[1]))
            if names and name in names:
                i = names.index(name)
                if i < len(x.a) - 2:
                    return x.a[2 + i]
            if isinstance(name, int) and name < len(x.a) - 2:
                return x.a[2 + name]
        if x.k == "upd":
            for f, y in x.a[1:]:
                if f == name:
                    return y
            return field(x.a[0], name)
        if x.k == "undef":
            return UNDEF
        if x.k == "app" and isinstance(name, int):
            r = FLDRULES.get(x.a[0])
            if r is not None:
                y = r(x, name)
                if y is not None:
                    return y
        return mkv("fld", x, name)
    return mapleaf(v, one)


FLDRULES = {}


def proj(v, vi, i, vname=None):
    """payload i of enum variant vi (assumed to be that variant)"""
    def one(x):
        if x.k == "adt":
            if x.a[1] == vi:
                return x.a[2 + i] if 2 + i < len(x.a) else UNDEF
            return UNDEF
        if x.k == "undef":
            return UNDEF
        if x.k == "entry":
            return x
        return mkv("proj", x, vi, i)
    r = mapleaf_skip(v, one)
    return r


def mapleaf_skip(v, fn):
    """like mapleaf, but UNDEF leaves (infeasible) constrain nothing"""
    if v.k != "ite":
        return fn(v)
    memo = {}

    def rec(x):
        if x.k != "ite":
            r = fn(x)
            return HOLE if r is UNDEF else r
        y = memo.get(x)
        if y is None:
            h, l = rec(x.a[1]), rec(x.a[2])
            if h is HOLE or l is HOLE:
                y = node(x.a[0], h, l)
            else:
                y = ite(node(x.a[0], T, F), h, l)
            memo[x] = y
        return y
    r = fill(rec(v))
    return UNDEF if r is HOLE else r


def upd(base, d):
    if base.k == "upd":
        dd = dict(base.a[1:])
        dd.update(d)
        return upd(base.a[0], dd)
    d = {k: x for k, x in d.items() if not (x.k == "fld" and x.a[0] is base and x.a[1] == k)}
    if not d:
        return base
    return mkv("upd", base, *sorted(d.items(), key=lambda kv: str(kv[0])))


def setfield(v, name, new, owner=None, owners=None):
    def one(x):
        if x.k == "tuple" and isinstance(name, int) and name < len(x.a):
            return mkv("tuple", *[new if i == name else y for i, y in enumerate(x.a)])
        if x.k == "closure" and isinstance(name, int):
            return mkv("closure", x.a[0], *[new if i == name else y for i, y in enumerate(x.a[1:])])
        if x.k == "coroutine" and isinstance(name, int):
            return mkv("coroutine", x.a[0], *[new if i == name else y for i, y in enumerate(x.a[1:])])
        if x.k == "adt":
            names = FIELDNAMES.get((x.a[0], x.a[1]))
            i = None
            if names and name in names:
                i = names.index(name)
            elif isinstance(name, int):
                i = name
            if i is not None:
                fs = list(x.a[2:])
                while len(fs) <= i:
                    fs.append(UNDEF)
                fs[i] = new
                return mkv("adt", x.a[0], x.a[1], *fs)
        return upd(x, {name: new})
    return mapleaf(v, one)


# ops of a log:  ("op", guard, name, args...) | ("cmp", guard, src, binder, ops...)
def op(guard, name, *args):
    return mkv("op", guard, name, *args)


NONEMPTY = []


def skipped(src, b, guards):
    """nothing happens at the first c+1 elements: (atom, substitution onto the walk that skips them)"""
    i = mkv("idx", b)
    for t in atoms(guards[0]) if guards else ():
        if t.k == "le" and t.a[0] is i and all(cofactor(g, t, True) is F for g in guards):
            src2 = mkv("it:skip", src, Int(t.a[1] + 1))
            b2 = mkv("b", src2, 0)
            return t, {b: b2, i: app("+", mkv("idx", b2), Int(t.a[1] + 1))}
    return None


def comp(guard, src, binder, *ops):
    guard = source_guard(guard, src)
    ops = expand_ops(ops)
    sk = skipped(src, binder, [o.a[0] for o in ops if o.k == "op"]) if all(o.k == "op" for o in ops) else None
    if sk is not None:
        t, m = sk
        src, binder0 = m[binder].a[0], binder
        ops = [subst(subst(o, {t: F}), m) for o in ops]
        binder = m[binder0]
    if guard is not T and guard is not F and not all(_pushonly(o) for o in ops):
        # state changes: the guard belongs to each of them
        return mkv("cmp", T, src, binder, *[guard_op(o, guard) for o in ops])
    return mkv("cmp", guard, src, binder, *ops)


def taken(src, b, keep):
    """the leading elements of src for which `keep` holds -> (sequence, its binder)"""
    if keep is T:
        return src, b
    n = b.a[1]
    own = mkv("b", src.a[0] if src.k == "it:while" else src, 7000)
    keep = subst(keep, {b: own})
    if src.k == "it:while":
        keep = land(subst(src.a[2], {src.a[1]: own}), keep)
        src = src.a[0]
    W = mkv("it:while", src, own, keep)
    return W, mkv("b", W, n)


def cut_short(o, p):
    """o walks the elements of src before the first that fails, p walks all of src when none fails:
    one walk over the former, or None"""
    if o.k != "cmp" or p.k != "cmp" or len(o.a) != len(p.a):
        return None
    if o.a[1].k != "it:while":
        if p.a[1].k != "it:while":
            return None
        o, p = p, o
    W, src = o.a[1], p.a[1]
    if W.a[0] is not src:
        return None
    stop = ANYOF[0](src, W.a[1], neg(W.a[2]))
    if stop is F or stop is T:
        return None
    ops = []
    for x, y in zip(o.a[3:], p.a[3:]):
        y = subst(y, {p.a[2]: o.a[2]})
        if x.k != y.k or x.a[1:] != y.a[1:]:
            return None
        gx, gy = land(x.a[0], o.a[0]), land(y.a[0], p.a[0])
        if land(gy, stop) is not F:
            return None
        ops.append(mkv(x.k, lor(gx, gy), *x.a[1:]))
    return comp(T, W, o.a[2], *ops)


ANYOF = []
HEADBYTE = []


def source_guard(g, src):
    """a guard that only says the source is not empty is dropped"""
    if g is T or g is F:
        return g
    for s in (src.a if src.k == "zip" else (src,)):
        ne = NONEMPTY[0](s)
        if ne is not T and ne is not F and support(ne) <= support(g):
            g = restrict(g, ne)
    return g


def guard_op(o, g):
    g = land(o.a[0], g)
    if o.k == "cmp":
        return comp(g, *o.a[1:])
    return mkv(o.k, g, *o.a[1:])


def only_inserts(o):
    return o.k == "op" and o.a[1] == "insert" or o.k == "cmp" and all(only_inserts(x) for x in o.a[3:])


MERGE = "ChangeSet::merge"


def only_merges(o):
    return o.k == "op" and o.a[1] == MERGE or o.k == "cmp" and all(only_merges(x) for x in o.a[3:])


def empty_changes(v):
    return v.k == "named" and str(v.a[0]).startswith("Default<") and "ChangeSet" in str(v.a[0])


def expand_ops(ops):
    """copying a map built here is making its insertions; merging an empty change set does nothing and merging
    a change set built by merges is making them one by one"""
    out = []
    for o in ops:
        if o.k == "cmp":
            src, b = o.a[1], o.a[2]
            if src.k == "newmap":
                continue
            if src.k == "seq" and src.a[0] is EMPTY and len(o.a) == 4 and o.a[3].k == "op" and o.a[3].a[0] is T \
                    and o.a[3].a[1:] == ("push", b) and all(_pushonly(x) for x in src.a[1:]):
                out += [guard_op(y, o.a[0]) for y in src.a[1:]]
                continue
            if src.k == "log" and src.a[0].k == "newmap" and len(o.a) == 4 and o.a[3].k == "op" and o.a[3].a[0] is T \
                    and o.a[3].a[1] == "insert" and all(only_inserts(x) for x in src.a[1:]):
                x = o.a[3].a[2:]
                if x == (b,) or x == (mkv("mkey", b), mkv("mval", b)):
                    out += [guard_op(y, o.a[0]) for y in src.a[1:]]
                    continue
        elif o.k == "op" and o.a[1] == MERGE and len(o.a) == 3:
            v = o.a[2]
            if empty_changes(v):
                continue
            if v.k == "log" and all(only_merges(x) for x in v.a[1:]):
                out += expand_ops([op(o.a[0], MERGE, v.a[0])] + [guard_op(y, o.a[0]) for y in v.a[1:]])
                continue
            if v.k == "ite":
                out += expand_ops([op(land(o.a[0], lg), MERGE, lf) for lg, lf in leaves(v)])
                continue
        out.append(o)
    return out


def log(base, ops):
    ops = expand_ops([o for o in ops if o.a[0] is not F])
    if ops and empty_changes(base) and ops[0].k == "op" and ops[0].a[1] == MERGE and ops[0].a[0] is T:
        return log(ops[0].a[2], ops[1:])
    if base.k == "seq" and ops and base.a[-1:] and base.a[-1].k == "op" and base.a[-1].a[0] is not T and ops[0].k == "op":
        ops = list(base.a[1:]) + ops
        base = base.a[0]
    if base.k == "log" and ops and any(o.k == "op" and o.a[1] in ("at", "insert") for o in ops) \
            and base.a[-1].k == "op" and base.a[-1].a[1] in ("at", "insert"):
        ops = list(base.a[1:]) + ops
        base = base.a[0]
    # merge adjacent ops that are equal up to complementary guards
    out = []
    for o in ops:
        if o.k == "cmp" and all(x.a[0] is F for x in o.a[3:]):
            continue
        if out and out[-1].k == o.k and out[-1].a[1:] == o.a[1:] and land(out[-1].a[0], o.a[0]) is F:
            out[-1] = mkv(o.k, lor(out[-1].a[0], o.a[0]), *o.a[1:])
        elif out and out[-1].k == "op" and o.k == "op" and o.a[1] == "push" == out[-1].a[1] and len(o.a) == 3 == len(out[-1].a) \
                and o.a[0] is not T and land(out[-1].a[0], o.a[0]) is F:
            out[-1] = op(lor(out[-1].a[0], o.a[0]), "push", ite(out[-1].a[0], out[-1].a[2], o.a[2]))
        elif out and out[-1].k == "cmp" == o.k and "it:while" in (out[-1].a[1].k, o.a[1].k) and cut_short(out[-1], o) is not None:
            out[-1] = cut_short(out[-1], o)
        elif out and out[-1].k == "op" and o.k == "op" and out[-1].a[1] in ("at", "insert") and o.a[1] in ("at", "insert") \
                and len(out[-1].a) > 3 and len(o.a) > 3 and out[-1].a[2] is o.a[2]:
            r = merge_key(base, out[:-1], out[-1], o)
            if r is None:
                out.append(o)
            else:
                out[-1] = r
        else:
            out.append(o)
    if base.k in ("log", "seq"):
        out = list(base.a[1:]) + out
        base = base.a[0]
    for i, o in enumerate(out):
        if o.k == "op" and o.a[1] == "insert" and len(o.a) == 4 and o.a[3].k == "ite":
            out[i] = at_key(base, out[:i], o)
    if len(out) == 1 and out[0].k == "cmp" and ELEMENTWISE:
        r = ELEMENTWISE[0](base, out[0])
        if r is not None:
            return r
    if len(out) == 2 and base is EMPTY and out[0].k == "cmp" == out[1].k and len(ELEMENTWISE) > 1:
        r = ELEMENTWISE[1](*out)
        if r is not None:
            out = expand_ops([r])
    if not out:
        return base if base is not EMPTY else mkv("seq", EMPTY)
    if base is EMPTY and all(_pushonly(o) for o in out):
        return mkv("seq", EMPTY, *out)
    return mkv("log", base, *out)


ELEMENTWISE = []
PRESENT = mkv("present")
CONTAINS = []


def at_key(base, pre, o):
    """what is there for a key put back with changes, or the same changes made to a default, is a change at the key"""
    k, v = o.a[2], o.a[3]
    m = log(base, pre) if pre else base
    c = CONTAINS[0](m, k)
    if c in (T, F):
        return o
    v1, v0 = restrict(v, c), restrict(v, neg(c))
    if v1.k == "log" and v1.a[0] is app("mapval", m, k) and v0.k in ("log", "seq") and v0.a[1:] == v1.a[1:]:
        return op(o.a[0], "at", k, mkv("seq", EMPTY) if v0.a[0] is EMPTY else v0.a[0], *v1.a[1:])
    return o


def merge_key(base, pre, p, q):
    """two consecutive writes to one key as one operation, or None"""
    k = p.a[2]
    gp, gq = p.a[0], q.a[0]
    if p.a[1] == "at" and q.a[1] == "at" and gp is gq and (q.a[3] is PRESENT or q.a[3] is p.a[3]):
        return op(gp, "at", k, p.a[3], *(list(p.a[4:]) + list(q.a[4:])))
    if p.a[1] == q.a[1] == "insert" and land(gp, neg(gq)) is F:
        return q       # overwritten
    if p.a[1] == q.a[1]:
        return None
    c = CONTAINS[0](log(base, pre), k)
    ins, at = (p, q) if p.a[1] == "insert" else (q, p)
    d = ins.a[3]
    if p is ins and at.a[3] is PRESENT and land(gq, neg(lor(gp, c))) is F and land(gp, c) is F and land(gp, neg(gq)) is F:
        # absent: insert a default, then modify
        if ite(gq, gp, F) is land(gq, neg(c)):
            return op(gq, "at", k, d, *at.a[4:])
    g = lor(gp, gq)
    if land(gp, gq) is F and ins.a[0] is land(g, neg(c)) and at.a[0] is land(g, c):
        ops = at.a[4:]
        if d.k == "array":
            d = mkv("seq", EMPTY, *[op(T, "push", x) for x in d.a])
        if d.k in ("seq", "log") and len(d.a) - 1 == len(ops) and d.a[1:] == ops:
            dd = d.a[0]
            return op(g, "at", k, mkv("seq", EMPTY) if dd is EMPTY else dd, *ops)
    return None


def _pushonly(o):
    if o.k == "cmp":
        return all(_pushonly(x) for x in o.a[3:])
    return o.a[1] == "push"


EMPTY = mkv("empty")


def freevars(v):
    """set of binder / mu leaves occurring in v"""
    if v._fv is not None:
        return v._fv
    s = set()
    if v.k in ("b", "mu", "bv"):
        s.add(v)
    for x in v.a:
        if isinstance(x, V):
            s |= freevars(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    s |= freevars(y)
    v._fv = frozenset(s)
    return v._fv


def occurs(x, v, memo=None):
    """does the term x occur in v"""
    if memo is None:
        memo = {}
    if v is x:
        return True
    r = memo.get(v)
    if r is not None:
        return r
    memo[v] = False
    r = False
    for y in v.a:
        if isinstance(y, V):
            if occurs(x, y, memo):
                r = True
                break
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, V) and occurs(x, z, memo):
                    r = True
                    break
    memo[v] = r
    return r


REBUILD = {}


def rebuild(v, args):
    k = v.k
    if k == "ite":
        return ite(tobool(args[0]), args[1], args[2])
    if k == "app":
        return app(args[0], *args[1:])
    if k == "adt":
        return adt(*args)
    if k == "fld":
        return field(*args)
    if k == "proj":
        return proj(*args)
    if k == "is":
        return isv(args[0], args[1], args[2])
    if k == "le":
        return le_const(args[0], args[1])
    if k == "eq":
        return eqv(args[0], args[1])
    if k == "upd":
        r = args[0]
        for f, y in args[1:]:
            r = setfield(r, f, y)
        return r
    if k in ("log", "seq"):
        return log(args[0], [x for x in args[1:]])
    r = REBUILD.get(k)
    if r is not None:
        return r(args)
    return mkv(k, *args)


BINDS = {"it:while": 1, "cmp": 2, "any": 1, "first": 1, "cnt": 1, "last": 1, "lastif": 1, "argmin": 1}


def subst(v, m, memo=None):
    if memo is None:
        memo = {}
    if v in m:
        return m[v]
    r = memo.get(v)
    if r is not None:
        return r
    if v.k not in ("b",) and v._fv is not None and not v._fv and all(x.k in ("b", "mu", "bv") for x in m):
        return v
    if not v.a:
        return v
    bi = BINDS.get(v.k)
    if bi is not None and isinstance(v.a[bi], V) and v.a[bi] in m:
        # the variable is bound here: what it stands for outside does not matter inside
        b0 = v.a[bi]
        m2 = {x: y for x, y in m.items() if x is not b0}
        na = [subst(x, m, memo) if i < bi else (x if not m2 else subst(x, m2)) if isinstance(x, V) else x for i, x in enumerate(v.a)]
        r = rebuild(v, na) if any(x is not y for x, y in zip(na, v.a)) else v
        memo[v] = r
        return r
    ch = False
    na = []
    for x in v.a:
        if isinstance(x, V):
            y = subst(x, m, memo)
        elif isinstance(x, tuple):
            y = tuple(subst(z, m, memo) if isinstance(z, V) else z for z in x)
        else:
            y = x
        if y is not x and y != x:
            ch = True
        na.append(y)
    r = rebuild(v, na) if ch else v
    memo[v] = r
    return r


def subterms(v, seen=None):
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, V):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, V))
    return seen


def atoms(v):
    """atoms tested by the diagram v (top level only)"""
    seen, out, st = set(), [], [v]
    while st:
        x = st.pop()
        if x in seen or x.k != "ite":
            continue
        seen.add(x)
        out.append(x.a[0])
        st += [x.a[1], x.a[2]]
    r = []
    for a in sorted(out, key=lambda a: a.id):
        if a not in r:
            r.append(a)
    return r


def cofactor(v, a, b):
    return _assign(v, {a: b}, ((a.id, b),))


def equivalent(a, b, care=T):
    """same diagram inside the care set"""
    if a is b:
        return True
    return restrict_eq(a, b, care)


def restrict_eq(a, b, care):
    memo = {}

    def rec(x, y, c):
        if c is F or x is y:
            return True
        key = (x, y, c)
        if key in memo:
            return memo[key]
        t = _top(x, y, c)
        if t is None:
            r = False
        else:
            r = True
            for bl in (True, False):
                m = {t: bl}
                imp = (_pos_assign(t) if bl else _neg_assign(t)) or {}
                m.update(imp)
                mk_ = _mk(m)
                if not rec(_assign(x, m, mk_), _assign(y, m, mk_), _assign(c, m, mk_)):
                    r = False
                    break
        memo[key] = r
        return r
    return rec(a, b, care)


# ---------------------------------------------------------------- printing
def short(p):
    return p.split("::")[-1] if isinstance(p, str) else str(p)


VNAMES = {}


def show(v, d=0, mx=60):
    if d > mx:
        return "…"
    k, a = v.k, v.a

    def s(x):
        return show(x, d + 1, mx) if isinstance(x, V) else str(x)
    if k == "true":
        return "T"
    if k == "false":
        return "F"
    if k == "int":
        return str(a[0])
    if k == "bytes":
        b = a[0]
        try:
            t = b.decode("ascii")
            if t.isprintable():
                return repr(t)
        except Exception:
            pass
        return "0x" + b.hex()
    if k == "param":
        return str(a[0])
    if k == "ite":
        if a[1] is T and a[2] is F:
            return "[%s]" % s(a[0])
        if a[1] is F and a[2] is T:
            return "[!%s]" % s(a[0])
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if k == "is":
        n = VNAMES.get(a[0])
        return "%s is#%s/%s" % (s(a[0]), a[1], a[2])
    if k == "le":
        return "%s<=%s" % (s(a[0]), a[1])
    if k == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if k == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if k == "proj":
        return "%s!%s.%s" % (s(a[0]), a[1], a[2])
    if k == "adt":
        nm = short(a[0])
        vn = VNAMES.get((a[0], a[1]))
        if vn and vn != nm:
            nm = vn
        return nm + ("(%s)" % ", ".join(s(x) for x in a[2:]) if len(a) > 2 else "")
    if k == "tuple":
        return "(%s)" % ", ".join(s(x) for x in a)
    if k == "array":
        return "[%s]" % ", ".join(s(x) for x in a)
    if k == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if k == "upd":
        return "%s{%s}" % (s(a[0]), ", ".join("%s:=%s" % (f, s(y)) for f, y in a[1:]))
    if k in ("log", "seq"):
        return "%s⟨%s⟩" % ("" if a[0] is EMPTY else s(a[0]), "; ".join(s(x) for x in a[1:]))
    if k == "op":
        g = "" if a[0] is T else "if %s: " % s(a[0])
        return "%s%s(%s)" % (g, a[1], ", ".join(s(x) for x in a[2:]))
    if k == "cmp":
        g = "" if a[0] is T else "if %s: " % s(a[0])
        return "%sfor %s in %s {%s}" % (g, s(a[2]), s(a[1]), "; ".join(s(x) for x in a[3:]))
    if k == "b":
        return "e%d" % a[1] if a[1] else "e‹%s›" % _bshort(a[0])
    return "%s(%s)" % (k, ", ".join(s(x) if isinstance(x, V) else ("(%s)" % ", ".join(s(z) for z in x) if isinstance(x, tuple) else str(x)) for x in a))


def _bshort(v):
    if v.k == "param":
        return v.a[0]
    if v.k == "fld":
        return _bshort(v.a[0]) + "." + str(v.a[1])
    t = show(v, 0, 6)
    return t if len(t) < 40 else "%s#%d" % (t[:30], v.id)
