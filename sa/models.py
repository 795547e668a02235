"""Semantics of the std / bitcoin / secp callees the workspace uses (and common alternatives)."""
from core import *
import core, re
from program import Ty

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
ORD = "core::cmp::Ordering"
POLL = "core::task::poll::Poll"
NONE = mkv("adt", OPT, 0)
core.NVARIANTS.update({OPT: 2, RES: 2, CF: 2, ORD: 3, POLL: 2})
core.VNAMES.update({(OPT, 0): "None", (OPT, 1): "Some", (RES, 0): "Ok", (RES, 1): "Err"})
LESS, EQUAL, GREATER = (mkv("adt", ORD, i) for i in range(3))


def Some(v):
    return adt(OPT, 1, v)


def Ok(v):
    return adt(RES, 0, v)


def Err(v):
    return adt(RES, 1, v)


def is_some(v):
    return isv(v, 1, 2)


def is_ok(v):
    return isv(v, 0, 2)


def unsome(v):
    return proj(v, 1, 0)


def unok(v):
    return proj(v, 0, 0)


def unerr(v):
    return proj(v, 1, 0)


def named(n):
    return mkv("named", n)


# ------------------------------------------------------------------ arithmetic
COMM = {"+", "*", "&", "|", "^", "min", "max"}


def arith(op_, a, b):
    return app(op_, a, b)


def _num(op_, x, y):
    try:
        return {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y,
                "<<": x << y if y < 200 else None, ">>": x >> y if y < 200 else None,
                "/": x // y if y else None, "%": x % y if y else None, "min": min(x, y), "max": max(x, y)}[op_]
    except Exception:
        return None


def _arule(op_):
    def f(xs):
        if len(xs) != 2:
            return None
        x, y = xs
        if x.k == "int" and y.k == "int":
            n = _num(op_, x.a[0], y.a[0])
            if n is not None:
                return Int(n)
        if op_ in COMM and (x.k == "int" or (y.k != "int" and x.id > y.id)):
            x, y = y, x
        if y.k == "int":
            n = y.a[0]
            if n == 0 and op_ in ("+", "-", "|", "<<", ">>"):
                return x
            if n == 1 and op_ in ("*", "/"):
                return x
            if op_ == "+" and x.k == "app" and x.a[0] == "+" and x.a[2].k == "int":
                return app("+", x.a[1], Int(x.a[2].a[0] + n))
            if op_ == "-" and x.k == "app" and x.a[0] == "+" and x.a[2].k == "int" and x.a[2].a[0] >= n:
                return app("+", x.a[1], Int(x.a[2].a[0] - n))
        if op_ == "-" and x is y:
            return Int(0)
        if op_ in ("min", "max") and x is y:
            return x
        return mkv("app", op_, x, y)
    return f


for _o in ("+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%", "min", "max"):
    core.APPRULES[_o] = _arule(_o)
BINOPS = {"Add": "+", "Sub": "-", "Mul": "*", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "Shl": "<<", "Shr": ">>",
          "Div": "/", "Rem": "%", "AddUnchecked": "+", "SubUnchecked": "-", "MulUnchecked": "*", "ShlUnchecked": "<<", "ShrUnchecked": ">>"}


def lt(a, b):
    def two(ab):
        x, y = ab
        if x.k == "int" and y.k == "int":
            return T if x.a[0] < y.a[0] else F
        if y.k == "int":
            return le_const(x, y.a[0] - 1)
        if x.k == "int":
            return neg(le_const(y, x.a[0]))
        if x is y:
            return F
        if core.within(x, y):
            return T
        if core.within(y, x):
            return F
        if x.k == y.k == "app" and x.a[0] == y.a[0] and x.a[0] in ("unbe2", "unbe4", "unbe8", "unbe16"):
            return isv(cmpv(x.a[1], y.a[1]), 0, 3)
        return ite(eqv(x, y), F, ltatom(x, y))
    r = lift(two, [a, b])
    return r if r is not None else ite(eqv(a, b), F, ltatom(a, b))


def small(x):
    """a constant, or an element of a constant range, far from the end of every integer type used for positions"""
    if x.k == "idx" and isinstance(x.a[0].a[0], V):
        n = source_len(x.a[0].a[0])
        return n.k == "int" and n.a[0] <= 64
    return x.k == "int" and 0 <= x.a[0] < 64 or x.k == "b" and x.a[0].k == "range" and all(small(y) for y in x.a[0].a[:2])


def within_window(a, b):
    """where a window starts plus its size is at most the length of the list"""
    ws = [t.a[0].a[0] for t in (a, a.a[2] if a.k == "app" and a.a[0] == "-" else a) if t.k == "idx" and t.a[0].k in ("b", "first")]
    for s in ws:
        s = s.a[0] if s.k == "it:rev" else s
        if s.k == "it:windows" and b is s.a[1] and window_at(a, s.a[0], b) is not None:
            return True
    return False


def binop(name, a, b):
    if name.endswith("WithOverflow"):
        o = BINOPS[name[:-12]]
        r = app(o, a, b)
        if o == "-":
            ov = lt(a, b)
        elif a.k == "int" and b.k == "int":
            ov = F
        else:
            ov = F if o == "+" and (small(a) and small(b) or within_window(a, b)) else node(mkv("ovf", o, a, b), T, F)
        return tup(r, ov)
    bl = lambda v: all(lf in (T, F) or lf.k in ("is", "eq", "le", "ord", "any") for _, lf in leaves(v))
    if name in ("BitAnd", "BitOr", "BitXor") and (bl(a) or bl(b)) and not (a.k == "int" or b.k == "int"):
        x, y = tobool(a), tobool(b)
        return land(x, y) if name == "BitAnd" else lor(x, y) if name == "BitOr" else ite(x, neg(y), y)
    if name in BINOPS:
        return app(BINOPS[name], a, b)
    if name == "Eq":
        return eqv(a, b)
    if name == "Ne":
        return neg(eqv(a, b))
    if name == "Lt":
        return lt(a, b)
    if name == "Le":
        return neg(lt(b, a))
    if name == "Gt":
        return lt(b, a)
    if name == "Ge":
        return neg(lt(a, b))
    return app("bin:" + name, a, b)


def intcast(a, src, dst):
    if src.k in ("bool",):
        return ite(tobool(a), Int(1), Int(0))
    if src.k in ("adt",):
        return a
    sw, dw = src.w or 64, dst.w or 64
    if src.k == "char":
        sw = 32
    if dw >= sw:
        return a

    def one(x):
        if x.k == "int":
            return Int(x.a[0] & ((1 << dw) - 1))
        if dw >= 32 and position(x):
            return x
        return mkv("app", "trunc%d" % dw, x)
    return mapleaf(a, one)


def position(x):
    """positions in, and sizes of, collections held in memory: below 2^32"""
    if x.k == "app" and x.a[0] == "+":
        return any(position(y) for y in x.a[1:]) and all(position(y) or y.k == "int" and y.a[0] < 2**16 for y in x.a[1:])
    return x.k in ("itn", "niter", "idx", "cnt") or x.k == "app" and x.a[0] == "len"


for _w in (8, 16, 32, 64):
    core.APPRULES["trunc%d" % _w] = lambda xs, w=_w: xs[0] if w >= 32 and position(xs[0]) else None


# ------------------------------------------------------------------ sequences
def inplace(o):
    """an operation that changes elements, not their number"""
    if o.k == "cmp":
        return all(inplace(x) for x in o.a[3:])
    return o.k == "op" and o.a[1] in ("setat", "setf", "slice::reverse", "slice::sort", "slice::sort_unstable", "slice::fill")


def length(v):
    def one(x):
        if x.k == "bytes":
            return Int(len(x.a[0]))
        if x.k == "array":
            return Int(len(x.a))
        if x.k == "rep" and x.a[1] is not None:
            return Int(x.a[1])
        if x.k == "seq":
            n = Int(0)
            simple = True
            for o in x.a[1:]:
                if o.k == "op" and o.a[0] is T:
                    n = app("+", n, Int(1))
                elif o.k == "cmp" and o.a[0] is T and len(o.a) == 4 and o.a[3].k == "op":
                    if o.a[3].a[0] is T:
                        n = app("+", n, source_len(o.a[1]))
                    else:
                        n = app("+", n, mkv("cnt", o.a[1], o.a[2], o.a[3].a[0]))
                else:
                    simple = False
                    break
            if simple:
                return n
        if x.k == "cat":
            n = Int(0)
            for p in x.a:
                n = app("+", n, length(p))
            return n
        if x.k == "app" and x.a[0] in FIXEDLEN:
            return Int(FIXEDLEN[x.a[0]])
        if x in core.ARRLEN:
            return Int(core.ARRLEN[x])
        if x.k == "range" and x.a[0].k == "int" and x.a[1].k == "int":
            return Int(max(0, x.a[1].a[0] - x.a[0].a[0]))
        if x in core.EQLEN:
            return length(core.EQLEN[x])
        if x.k == "it:chunks_exact" and x.a[1].k == "int":
            return app("/", length(x.a[0]), x.a[1])
        if x.k == "it:chunks" and x.a[1].k == "int" and x.a[1].a[0] > 0:
            return app("/", app("+", length(x.a[0]), Int(x.a[1].a[0] - 1)), x.a[1])
        if x.k == "it:skip" and x.a[1].k == "int":
            n = length(x.a[0])
            if n.k == "int":
                return Int(max(0, n.a[0] - x.a[1].a[0]))
        if x.k == "it:take" and x.a[1].k == "int":
            n = length(x.a[0])
            return Int(min(n.a[0], x.a[1].a[0])) if n.k == "int" else mkv("app", "min", n, x.a[1])
        if x.k == "log" and all(inplace(o) for o in x.a[1:]):
            return length(x.a[0])
        if x.k == "upto" and x.a[0].k == "log" and all(inplace(o) for o in x.a[0].a[1:]):
            return length(x.a[0].a[0])
        if x.k == "app" and x.a[0] == "slice" and x.a[3].k == "int" and x.a[2].k == "int":
            return Int(x.a[3].a[0] - x.a[2].a[0])
        return mkv("app", "len", x)
    return mapleaf(v, one)


def _lenrule(xs):
    n = length(xs[0])
    return None if n.k == "app" and n.a[0] == "len" and n.a[1] is xs[0] else n


core.APPRULES["len"] = _lenrule

FIXEDLEN = {"PublicKey::serialize": 33, "SecretKey::secret_bytes": 32, "le4": 4, "be4": 4, "le8": 8, "be8": 8,
            "hashbytes32": 32, "XOnlyPublicKey::serialize": 32, "Scalar::to_be_bytes": 32, "le2": 2, "be2": 2,
            "b32": 32, "H": 32}


def isempty(v):
    return eqv(length(v), Int(0))


core.NONEMPTY.append(lambda v: neg(isempty(v)))


def single_comp(seq):
    """seq of exactly one comprehension with exactly one unconditional-position push -> (outer guard, src, b, guard, elem)"""
    if seq.k == "seq" and len(seq.a) == 2 and seq.a[1].k == "cmp":
        c = seq.a[1]
        if len(c.a) == 4 and c.a[3].k == "op":
            return c.a[0], c.a[1], c.a[2], c.a[3].a[0], c.a[3].a[2]
    return None


def segments(seq):
    """normalised list of push ops / comprehensions of a (possibly guarded) sequence value"""
    out = []
    for lg, lf in leaves(seq):
        if lf.k == "undef":
            continue
        if lf.k == "iter":
            lf = lf.a[0]
        if lf.k != "seq":
            lf = opaque_seq(lf)
        for o in lf.a[1:]:
            out.append(guard_op(o, lg) if lg is not T else o)
    return out


def window_at(lo, x, c):
    """the element of a walk over the windows of x that starts at lo"""
    W = mkv("it:windows", x, c)
    if lo.k == "idx" and lo.a[0].k in ("b", "first") and lo.a[0].a[0] is W:
        return lo.a[0]
    if lo.k == "app" and lo.a[0] == "-" and lo.a[1] is app("-", mkv("app", "len", W), Int(1)) and lo.a[2].k == "idx":
        e = lo.a[2].a[0]
        return e if e.k in ("b", "first") and e.a[0] is mkv("it:rev", W) else None
    return None


def window_count(n):
    """n = how many windows of c elements x has -> (x, c)"""
    plus = 0
    if n.k == "app" and n.a[0] == "+" and n.a[2] is Int(1):
        # only where the difference itself cannot be cut at zero
        n, plus = n.a[1], 1
        if n.k != "app" or n.a[0] != "-":
            return None
    if n.k != "app" or n.a[0] not in ("-", "satsub") or n.a[2].k != "int":
        return None
    c = n.a[2].a[0] + 1 - plus
    n = n.a[1]
    if n.k == "app" and n.a[0] == "+" and n.a[2] is Int(1) and not plus:
        n, c = n.a[1], c - 1
    return (n.a[1], Int(c)) if c >= 2 and n.k == "app" and n.a[0] == "len" else None


def opaque_seq(v, kind=None):
    """elements of an opaque collection"""
    if v.k == "range":
        lo, hi = v.a
        if hi.k == "ite" and len(leaves(hi)) <= 8:
            return mapleaf(hi, lambda h: opaque_seq(mkv("range", lo, h)))
        if lo is Int(0) and hi.k == "cnt" and len(hi.a) == 3:
            # the positions of the elements that were taken along
            s1, b, gd = hi.a
            return mkv("seq", EMPTY, comp(T, s1, b, op(gd, "push", mkv("cnt", s1, b, gd, "before"))))
        if lo.k == "int" and lo.a[0] == 0 and hi.k == "app" and hi.a[0] == "len":
            src = hi.a[1]
            b = mkv("b", src, 0)
            return mkv("seq", EMPTY, comp(T, src, b, op(T, "push", mkv("idx", b))))
        if lo is Int(0) and window_count(hi):
            # the positions at which a window of that many elements starts
            src = mkv("it:windows", *window_count(hi))
            b = mkv("b", src, 0)
            return mkv("seq", EMPTY, comp(T, src, b, op(T, "push", mkv("idx", b))))
        if lo is Int(0) and hi.k == "app" and hi.a[0] == "min" and all(x.k == "app" and x.a[0] == "len" for x in hi.a[1:]):
            src = zipped(hi.a[1].a[1], hi.a[2].a[1])
            b = mkv("b", src, 0)
            return mkv("seq", EMPTY, comp(T, src, b, op(T, "push", mkv("idx", b))))
        if lo.k == "int" and hi.k == "int" and 0 <= hi.a[0] - lo.a[0] <= 8:
            return mkv("seq", EMPTY, *[op(T, "push", Int(i)) for i in range(lo.a[0], hi.a[0])])
        if lo.k == "int" and lo.a[0] > 0 and hi.k == "app" and hi.a[0] == "len":
            src = mkv("it:skip", hi.a[1], lo)
            b = mkv("b", src, 0)
            return mkv("seq", EMPTY, comp(T, src, b, op(T, "push", app("+", mkv("idx", b), lo))))
        b = mkv("b", v, 0)
        return mkv("seq", EMPTY, comp(T, v, b, op(T, "push", b)))
    if v.k == "array":
        return mkv("seq", EMPTY, *[op(T, "push", x) for x in v.a])
    if v.k == "app" and v.a[0] == "slice" and len(v.a) == 4 and kind is None and v.a[2].k == "int":
        lo, hi = v.a[2].a[0], v.a[3]
        base = opaque_seq(v.a[1])
        if hi.k == "none" or hi.k == "end":
            return restrict_seq(base, "skip", v.a[2])
        if hi.k == "int":
            return restrict_seq(restrict_seq(base, "skip", v.a[2]), "take", Int(hi.a[0] - lo))
    rep = core.EQLEN.get(v)
    if rep is not None and kind is None:
        b = mkv("b", rep, 0)
        return mkv("seq", EMPTY, comp(T, rep, b, op(T, "push", mkv("app", "index", v, mkv("idx", b)))))
    b = mkv("b", v, 0)
    if kind == "map":
        el = tup(mkv("mkey", b), mkv("mval", b))
    else:
        el = b
    return mkv("seq", EMPTY, comp(T, v, b, op(T, "push", el)))


def to_seq(e, v):
    """sequence of elements produced by an iterator / collection value"""
    def one(x):
        if x.k == "iter":
            return to_seq(e, x.a[0])
        if x.k == "seq":
            return x
        if x.k == "adt" and x.a[0] == OPT:
            if x.a[1] == 0:
                return mkv("seq", EMPTY)
            return mkv("seq", EMPTY, op(T, "push", x.a[2]))
        if x.k == "undef":
            return mkv("seq", EMPTY)
        if x.k == "optiter":
            return mkv("seq", EMPTY, op(is_some(x.a[0]), "push", unsome(x.a[0])))
        if x.k == "refseq":
            return mkv("seq", EMPTY, *x.a[0])
        if x.k == "adt" and x.a[0].startswith("core::ops::range::Range"):
            return opaque_seq(range_of(x))
        return opaque_seq(x)
    return mapleaf(v, one)


def range_of(x):
    nm = x.a[0].split("::")[-1]
    if nm == "Range":
        return mkv("range", x.a[2], x.a[3])
    if nm == "RangeInclusive":
        return mkv("range", x.a[2], app("+", x.a[3], Int(1)))
    if nm == "RangeFrom":
        return mkv("range", x.a[2], mkv("inf"))
    return mkv("range", *x.a[2:])


def It(seq):
    return mkv("iter", seq)


def seqv(*ops):
    r = log(EMPTY, list(ops))
    return r


def anyof(src, b, g):
    """guard: some element of src satisfies g (g over binder b)"""
    if g is F:
        return F
    if b not in freevars(g):
        # independent of the element
        return land(g, neg(isempty(src)))
    inv, g = invariant_part(g, b)
    if inv is not T:
        return land(inv, anyof(src, b, g))
    return node(mkv("any", src, b, g), T, F)


def invariant_part(g, b):
    """g = (a conjunction that does not depend on the element) and (the rest)"""
    inv = T
    again = True
    while again and g.k == "ite":
        again = False
        for a in atoms(g):
            if b in freevars(a):
                continue
            if cofactor(g, a, False) is F:
                inv = land(inv, node(a, T, F))
                g = cofactor(g, a, True)
            elif cofactor(g, a, True) is F:
                inv = land(inv, node(a, F, T))
                g = cofactor(g, a, False)
            else:
                continue
            again = True
            break
    return inv, g


def firstof(src, b, g):
    """the first element of src that satisfies g, when there is one"""
    if g.k == "ite" and b in freevars(g):
        g = invariant_part(g, b)[1]
    return mkv("first", src, b, g)


core.ANYOF.append(anyof)
core.REBUILD["first"] = lambda args: firstof(*args)


def mkarray(ops):
    if ops and all(o.k == "int" and 0 <= o.a[0] < 256 for o in ops) and False:
        return Bytes(bytes(o.a[0] for o in ops))
    return mkv("array", *ops)


def repeat(a, n):
    if a.k == "int" and n is not None and n <= 4096 and 0 <= a.a[0] < 256:
        return Bytes(bytes([a.a[0]]) * n)
    if n is not None and n <= 4:
        return mkv("array", *([a] * n))
    return mkv("rep", a, n)


def index(v, i):
    def two(vi):
        x, j = vi
        if x.k == "undef":
            return UNDEF
        if j.k == "int" and j.a[0] >= 0:
            n = j.a[0]
            if x.k == "array" and n < len(x.a):
                return x.a[n]
            if x.k == "bytes" and n < len(x.a[0]):
                return Int(x.a[0][n])
            if x.k == "rep":
                return x.a[0]
            if n == 0 and x.k == "app" and x.a[0] == "ser33":
                return core.HEADBYTE[0](x.a[1])
            if x.k == "seq" and all(o.k == "op" and o.a[0] is T for o in x.a[1:n + 2]) and n + 1 < len(x.a):
                return x.a[n + 1].a[2]
            if x.k == "seq" and n == 0 and len(x.a) == 2 and x.a[1].k == "op":
                return x.a[1].a[2]
            if x.k == "app" and x.a[0] == "slice" and x.a[2].k == "int":
                return index(x.a[1], Int(x.a[2].a[0] + n))
            if x.k == "it:skip" and x.a[1].k == "int":
                return index(x.a[0], Int(x.a[1].a[0] + n))
            if x.k == "it:chunks_exact" and x.a[1].k == "int":
                w = x.a[1].a[0]
                return slice_(x.a[0], Int(w * n), Int(w * n + w))
            if x.k == "it:chunks" and x.a[1].k == "int" and x.a[1].a[0] > 0:
                w = x.a[1].a[0]
                return ite(le_const(length(x.a[0]), w * n + w), slice_(x.a[0], Int(w * n), None), slice_(x.a[0], Int(w * n), Int(w * n + w)))
        if j.k == "app" and j.a[0] == "+" and len(j.a) == 3:
            p, n = (j.a[1], j.a[2]) if j.a[1].k == "idx" else (j.a[2], j.a[1])
            if p.k == "idx" and isinstance(p.a[0].a[0], V) and p.a[0].a[0].k == "it:skip" and p.a[0].a[0].a[0] is x and p.a[0].a[0].a[1] is n:
                return p.a[0]
        if j.k == "idx":
            b = j.a[0]
            if b.a[0] is x:
                return b
            if not isinstance(b.a[0], V):
                return mkv("app", "index", x, j)
            if b.a[0].k == "zip" and x in b.a[0].a:
                return zel(b, x)
            sc = single_comp(x) if x.k == "seq" else None
            if sc and sc[1] is b.a[0] and sc[3] is T:
                return subst(sc[4], {sc[2]: b})
        if x.k == "seq" and (j.k == "cnt" and j.a[-1] == "before" or j.k == "b" and j.a[0].k == "range"):
            sc = single_comp(x)
            if sc and sc[1] is (j.a[0]) and (sc[3] is j.a[2] and sc[2] is j.a[1] if j.k == "cnt" else sc[3] is T):
                return sc[4] if j.k == "cnt" else subst(sc[4], {sc[2]: j})
        sc = single_comp(x) if x.k == "seq" else None
        if sc and sc[0] is T and sc[3] is T and sc[1].k == "range" and sc[1].a[0].k == "int":
            return subst(sc[4], {mkv("idx", sc[2]): j, sc[2]: j if sc[1].a[0].a[0] == 0 else app("+", j, sc[1].a[0])})
        if sc and sc[0] is T and sc[3] is T and sc[1].k not in ("range", "zip") and not sc[1].k.startswith("it:"):
            return subst(sc[4], {mkv("idx", sc[2]): j, sc[2]: index(sc[1], j)})
        return mkv("app", "index", x, j)
    r = lift(two, [v, i])
    return r if r is not None else mkv("app", "index", v, i)


core.APPRULES["index"] = lambda xs: index(*xs) if (xs[1].k in ("int", "idx", "cnt") or xs[1].k == "app" and xs[1].a[0] == "+") and not (xs[0].k in ("ite",)) and _idxable(xs[0], xs[1]) else None


def _idxable(x, j):
    y = index(x, j)
    return not (y.k == "app" and y.a[0] == "index")


def alternatives(seq):
    """a sequence whose pieces exclude each other -> [(guard, sequence)]"""
    ops = seq.a[1:]
    if len(ops) < 2 or len(ops) > 6:
        return None
    for i, o in enumerate(ops):
        for q in ops[i + 1:]:
            if land(o.a[0], q.a[0]) is not F:
                return None
    out = []
    rest = T
    for o in ops:
        out.append((o.a[0], mkv("seq", EMPTY, mkv(o.k, T, *o.a[1:]))))
        rest = land(rest, neg(o.a[0]))
    if rest is not F:
        out.append((rest, mkv("seq", EMPTY)))
    return out


def plain_source(seq):
    """X when the sequence is every element of X, unchanged"""
    sc = single_comp(seq)
    if sc is not None and sc[0] is T and sc[3] is T and sc[4] is sc[2]:
        return sc[1]
    return None


def slice_(v, lo, hi):
    """v[lo..hi]; hi None = to the end"""
    def one(x):
        if x.k == "undef":
            return UNDEF
        if x.k == "seq":
            al = alternatives(x)
            if al is not None:
                r = UNDEF
                for g, y in al:
                    r = ite(g, slice_(y, lo, hi), r)
                return r
            y = plain_source(x)
            if y is not None:
                return slice_(y, lo, hi)
        if x.k == "it:take" and hi is not None and hi.k == "int" and x.a[1].k == "int" and hi.a[0] <= x.a[1].a[0]:
            return slice_(x.a[0], lo, hi)
        if hi is not None and hi.k == "app" and hi.a[0] == "+" and hi.a[1] is lo:
            w = window_at(lo, x, hi.a[2])
            if w is not None:
                return w
        if x.k == "it:skip" and x.a[1].k == "int" and lo.k == "int" and (hi is None or hi.k == "int"):
            n = x.a[1].a[0]
            return slice_(x.a[0], Int(lo.a[0] + n), Int(hi.a[0] + n) if hi is not None else None)
        if lo.k == "int" and lo.a[0] == 0 and hi is None:
            return x
        h = hi if hi is not None else None
        if lo.k == "int" and (h is None or h.k == "int"):
            l_ = lo.a[0]
            if x.k == "bytes":
                return Bytes(x.a[0][l_:(h.a[0] if h is not None else None)])
            if x.k == "array":
                return mkv("array", *x.a[l_:(h.a[0] if h is not None else None)])
            L = length(x)
            if L.k == "int":
                hh = h.a[0] if h is not None else L.a[0]
                if l_ == 0 and hh == L.a[0]:
                    return x
                if x.k == "cat":
                    pieces = cat_slice(x, l_, hh)
                    if pieces is not None:
                        return pieces
                h = Int(hh)
            if x.k == "app" and x.a[0] == "ser33" and l_ == 1 and h is not None and h.a[0] == 33:
                return mkv("app", "ser32", app("xonly", x.a[1]))
            if x.k == "app" and x.a[0] == "slice" and x.a[2].k == "int":
                off = x.a[2].a[0]
                return slice_(x.a[1], Int(off + l_), Int(off + h.a[0]) if h is not None else (x.a[3] if x.a[3].k != "end" else None))
        if h is None:
            h = mkv("end")
        elif h.k == "app" and h.a[0] == "len" and h.a[1] is x:
            h = mkv("end")
        if lo.k == "int" and lo.a[0] == 0 and h.k == "end":
            return x
        return mkv("app", "slice", x, lo, h)
    return mapleaf(v, one)


def cat_slice(x, lo, hi):
    pos = 0
    out = []
    for p in x.a:
        L = length(p)
        if L.k != "int":
            return None
        s, e_ = pos, pos + L.a[0]
        a, b = max(s, lo), min(e_, hi)
        if a < b:
            out.append(slice_(p, Int(a - s), Int(b - s)))
        pos = e_
    return cat(*out)


def cat(*ps):
    if any(p.k == "ite" for p in ps):
        return lift(lambda xs: cat(*xs), list(ps))
    out = []
    for p in ps:
        if p.k == "cat":
            qs = list(p.a)
        else:
            qs = [p]
        for q in qs:
            if q.k == "seq" and q.a[0] is EMPTY and all(o.k == "op" and o.a[0] is T and o.a[1] == "push" for o in q.a[1:]):
                q = mkv("array", *[o.a[2] for o in q.a[1:]])
            if q.k == "array" and all(y.k == "int" and 0 <= y.a[0] < 256 for y in q.a):
                q = Bytes(bytes(y.a[0] for y in q.a))
            if q.k == "bytes" and not q.a[0]:
                continue
            if out and out[-1].k == "bytes" and q.k == "bytes":
                out[-1] = Bytes(out[-1].a[0] + q.a[0])
                continue
            # adjacent slices of one value
            if out and q.k == "app" and q.a[0] == "slice" and out[-1].k == "app" and out[-1].a[0] == "slice" and out[-1].a[1] is q.a[1] and out[-1].a[3] is q.a[2]:
                m = slice_(q.a[1], out[-1].a[2], q.a[3] if q.a[3].k != "end" else None)
                out[-1] = m
                continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    return mkv("cat", *out)


core.REBUILD["cat"] = lambda args: cat(*args)


def setrange(old, lo, hi, new):
    """old[lo..hi] := new"""
    def one(x):
        L = length(x)
        h = hi
        if h is None or h.k == "end":
            h = L
        if lo.k == "int" and h.k == "int" and L.k == "int":
            a = slice_(x, Int(0), lo)
            b = slice_(x, h, L)
            return cat(a, new, b)
        return mkv("app", "setrange", x, lo, h if h is not None else mkv("end"), new)
    return mapleaf(old, one)


def assume_atoms(v, m):
    for t, x in m.items():
        v = core.assume(v, node(t, x, neg(x)))
    return v


def elementwise(n, src, b, f):
    """the array of n elements whose element i is f (written with the binder b of a source of length n)"""
    j = mkv("bv", "el", 1 + max([t.a[1] for t in subterms(f) if t.k == "bv" and t.a[0] == "el"], default=-1))
    if f.k == "ite":
        cut = sorted({t.a[1] for t in atoms(f) if t.k == "le" and t.a[0] is b}) if src.k == "range" and src.a[0].k == "int" else []
        if cut:
            # piece by piece
            lo, parts = src.a[0].a[0], []
            hi = lo + n
            for c in [c + 1 for c in cut if lo <= c < hi - 1] + [hi]:
                s2 = mkv("range", Int(lo), Int(c))
                m = {t: (T if t.a[1] >= c - 1 else F) for t in atoms(f) if t.k == "le" and t.a[0] is b}
                parts.append(elementwise(c - lo, s2, b, assume_atoms(f, m)))
                if parts[-1] is None:
                    return None
                lo = c
            return cat(*parts) if len(parts) > 1 else parts[0]
        ls = leaves(f)
        if any(occurs(b, g) for g, _ in ls):
            return None
        r = UNDEF
        for g, lf in ls:
            x = elementwise(n, src, b, lf)
            if x is None:
                return None
            r = ite(g, x, r)
        return r
    if any(t.k == "lam" and occurs(b, t) for t in subterms(f)):
        return None
    m = {}
    for t in subterms(f):
        if t.k == "zel" and t.a[0] is b:
            m[t] = mkv("app", "index", t.a[1], j)
        elif t.k == "idx" and t.a[0] is b:
            m[t] = j
    if src.k == "range":
        m[b] = app("+", j, src.a[0]) if src.a[0] is not Int(0) else j
    elif src.k != "zip":
        m[b] = mkv("app", "index", src, j)
    body = subst(f, m)
    if occurs(b, body):
        return None
    if body.k == "app" and body.a[0] == "index" and not occurs(j, body.a[1]):
        at = body.a[2]
        if at is j:
            return slice_(body.a[1], Int(0), Int(n))
        if at.k == "app" and at.a[0] == "-" and at.a[1].k == "app" and at.a[1].a[0] == "+" and at.a[1].a[1] is j \
                and at.a[1].a[2].k == "int" and at.a[2].k == "int" and at.a[1].a[2].a[0] >= at.a[2].a[0]:
            at = app("+", j, Int(at.a[1].a[2].a[0] - at.a[2].a[0])) if at.a[1].a[2] is not at.a[2] else j
            if at is j:
                return slice_(body.a[1], Int(0), Int(n))
        if at.k == "app" and at.a[0] == "+" and at.a[1] is j and at.a[2].k == "int":
            return slice_(body.a[1], at.a[2], Int(at.a[2].a[0] + n))
    if not occurs(j, body):
        return repeat(body, n)
    r = mkv("app", "array::from_fn", mkv("lam", 1, body), Int(n))
    core.ARRLEN[r] = n
    return r


def _position(p, src, b):
    """positions p written in a walk over src -> (first, number), when they are consecutive"""
    k = 0
    if p.k == "app" and p.a[0] == "+" and p.a[2].k == "int":
        p, k = p.a[1], p.a[2].a[0]
    n = source_len(src)
    if n.k != "int":
        return None
    if p is b and src.k == "range" and src.a[0].k == "int":
        return k + src.a[0].a[0], n.a[0]
    if p.k == "idx" and p.a[0] is b:
        return k, n.a[0]
    return None


def _array_assignments(base, c):
    """consecutive elements of a fixed-length array assigned once each, in a walk over their positions"""
    if c.a[0] is not T or len(c.a) != 4 or c.a[3].k != "op" or c.a[3].a[0] is not T or c.a[3].a[1] != "setat":
        return None
    src, b, o = c.a[1], c.a[2], c.a[3]
    n = length(base)
    at = _position(o.a[2], src, b)
    if n.k != "int" or at is None or at[0] + at[1] > n.a[0]:
        return None
    if occurs(base, o.a[3]) and base.k not in ("bytes", "rep"):
        # the element being replaced may be read: it is still the one of the start
        own = [mkv("app", "index", base, mkv("idx", b)), mkv("zel", b, base)] + ([b] if src is base else [])
        if at != (0, n.a[0]) or occurs(base, subst(subst(o.a[3], {x: mkv("own") for x in own}), {b: mkv("own")})):
            return None
    r = elementwise(at[1], src, b, o.a[3])
    if r is None or at == (0, n.a[0]):
        return r
    return cat(slice_(base, Int(0), Int(at[0])), r, slice_(base, Int(at[0] + at[1]), n))


def _list_assignments(made, c):
    """a list made with one element per step, every one of which is assigned once in a walk of as many steps"""
    if any(x.a[0] is not T or len(x.a) != 4 or x.a[3].k != "op" or x.a[3].a[0] is not T for x in (made, c)):
        return None
    p, o = made.a[3], c.a[3]
    src, b = c.a[1], c.a[2]
    if p.a[1] != "push" or len(p.a) != 3 or o.a[1] != "setat" or len(o.a) != 4 or o.a[2] is not place(b):
        return None
    v = mkv("seq", EMPTY, made)
    if source_len(src) is not length(v) or source_len(src).k == "none":
        return None
    if src is v:
        src = made.a[1]
        m = {mkv("idx", b): place(made.a[2]), b: p.a[2]}
        b = made.a[2]
    else:
        m = {mkv("zel", b, v): index(v, place(b)), mkv("app", "index", v, place(b)): index(v, place(b))}
    x = subst(o.a[3], m)
    if src.k == "zip" and len(src.a) == 2 and v in src.a:
        z = src.a[src.a[0] is v]
        b2 = mkv("b", z, 0)
        x = subst(x, {mkv("idx", b): place(b2), mkv("zel", b, z): zel(b2, z)})
        if occurs(b, x):
            return None
        src, b = z, b2
    if occurs(v, x) or occurs(v, src):
        return None
    return comp(T, src, b, op(T, "push", x))


def source_len(src):
    if src.k == "zip":
        ls = [length(x) for x in src.a]
        return ls[0] if all(x is ls[0] for x in ls) else mkv("none")
    if src.k == "range":
        return app("-", src.a[1], src.a[0])
    return length(src)


def _bound(src, c):
    n = source_len(src)
    return n.k == "int" and n.a[0] - 1 <= c


core.INDEXBOUND[0] = _bound
core.ELEMENTWISE.append(_array_assignments)
core.ELEMENTWISE.append(_list_assignments)


def as_array(n, seq):
    """a sequence known to have n elements as an array value"""
    def one(x):
        sc = single_comp(x) if x.k == "seq" else None
        if sc and sc[0] is T and sc[3] is T and source_len(sc[1]) is Int(n):
            r = elementwise(n, sc[1], sc[2], sc[4])
            if r is not None:
                return r
        if x.k == "seq" and len(x.a) == n + 1 and all(o.k == "op" and o.a[0] is T for o in x.a[1:]):
            return mkarray([o.a[2] for o in x.a[1:]])
        return x
    return mapleaf(seq, one)


def setindex(old, i, new):
    def one(x):
        if i.k == "int" and x.k == "bytes" and i.a[0] < len(x.a[0]):
            if new.k == "int" and 0 <= new.a[0] < 256:
                bs = x.a[0]
                return Bytes(bs[:i.a[0]] + bytes([new.a[0]]) + bs[i.a[0] + 1:])
            return cat(slice_(x, Int(0), i), mkv("array", new), slice_(x, Int(i.a[0] + 1), length(x)))
        if i.k == "int" and x.k == "array" and i.a[0] < len(x.a):
            return mkv("array", *[new if j == i.a[0] else y for j, y in enumerate(x.a)])
        if i.k == "int" and x.k == "cat":
            n = length(x)
            if n.k == "int" and i.a[0] < n.a[0]:
                return cat(slice_(x, Int(0), i), mkv("array", new), slice_(x, Int(i.a[0] + 1), n))
        ops = fieldwise(x, i, new)
        return log(x, ops if ops is not None else [op(T, "setat", i, new)])
    return mapleaf(old, one)


def changed_fields(cur, new, pre=()):
    """[(field path, value)] by which a struct value differs from cur, None when it is not a modification of it"""
    if new is cur:
        return []
    if new.k == "upd" and new.a[0] is cur:
        out = []
        for f, y in new.a[1:]:
            r = changed_fields(field(cur, f), y, pre + (f,))
            out += r if r is not None and r else ([(pre + (f,), y)] if r is None else [])
        return out
    if new.k == "adt" and new.a[0] in core.STRUCTS:
        names = core.FIELDNAMES.get((new.a[0], new.a[1]))
        if names and len(names) == len(new.a) - 2:
            ds = [(n, y) for n, y in zip(names, new.a[2:]) if y is not field(cur, n)]
            if len(ds) < len(names):
                return [(pre + (n,), y) for n, y in ds]
    return None


def fieldwise(x, i, new):
    """assignment of some fields of element i as field assignments"""
    cur = mkv("app", "index", x, i) if i.k != "idx" else index(x, i)
    ops = []
    for g, lf in leaves(new):
        ds = changed_fields(cur, lf)
        if ds is None:
            return None
        for f, y in ds:
            ops.append(op(g, "setf", i, ".".join(map(str, f)), y))
    return ops


def setpayload(old, vi, i, new):
    def one(x):
        if x.k == "adt" and x.a[1] == vi:
            fs = list(x.a[2:])
            while len(fs) <= i:
                fs.append(UNDEF)
            fs[i] = new
            return adt(x.a[0], x.a[1], *fs)
        if x.k == "adt":
            return x
        return mkv("setpay", x, vi, i, new)
    return mapleaf(old, one)


def mapget(v, k, default):
    """value stored under key k (default when absent)"""
    if default is not None and default.k == "present":
        default = None

    def one(x):
        if x.k in ("log", "seq"):
            # look back through the ops
            cur = None
            for o in reversed(x.a[1:]):
                if o.k == "op" and o.a[1] == "insert" and len(o.a) > 3 and o.a[2] is k and o.a[0] is not T:
                    return ite(o.a[0], o.a[3], mapget(log(x.a[0], list(x.a[1:x.a.index(o)])), k, default))
                if o.k == "op" and o.a[1] in ("insert", "at") and o.a[2] is k and o.a[0] is T:
                    if o.a[1] == "insert":
                        return o.a[3]
                    sub = mapget(log(x.a[0], list(x.a[1:x.a.index(o)])), k, o.a[3])
                    return log(sub, list(o.a[4:]))
                break
        if default is None:
            return grouped(x, k) or mkv("app", "mapval", x, k)
        return mkv("app", "mapvalor", x, k, default)
    return mapleaf(v, one)


def grouped(x, k):
    """what a map filled only by pushes to the collections under its keys holds under k"""
    if x.k != "log" or x.a[0].k != "newmap":
        return None
    ops = []
    for o in x.a[1:]:
        r = pushes_under(o, k)
        if r is None or not any(y.k == "cmp" for y in r):
            return None
        ops += r
    return log(EMPTY, ops)


def setkey(old, k, default, sub, new):
    if new is sub:
        return old

    def one(x):
        sx = mapget(x, k, default)
        if new.k in ("log", "seq"):
            if sx.k in ("log", "seq") and new.a[0] is sx.a[0] and new.a[1:len(sx.a)] == sx.a[1:]:
                ops = new.a[len(sx.a):]
                return log(x, [op(T, "at", k, default if default is not None else mkv("present"), *ops)])
            if new.a[0] is sx:
                return log(x, [op(T, "at", k, default if default is not None else mkv("present"), *new.a[1:])])
        return log(x, [op(T, "insert", k, new)])
    return mapleaf(old, one)


# ------------------------------------------------------------------ lookup
EFFECTS = set()


def is_effect(ca):
    n = ca.cname
    if n in EFFECTS:
        return True
    if ca.trait_item in EFFECTS:
        return True
    return False


EFFECTS |= {
    "UnboundedSender::send", "Sender::send",
    "WriteTransaction::commit", "Table::insert", "Table::remove", "Database::begin_write",
    "stdio::_print", "stdio::_eprint",
}

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def lookup(ca):
    if ca.trait:
        if ca.trait_item in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
            return MODELS[ca.trait_item]
        # a local, hand-written impl wins over the generic model
        if ca.resp is not None and ca.resp in ca.eng.p.bodies:
            b = ca.eng.p.bodies[ca.resp]
            if not b.derived:
                return MODELS.get("local!" + ca.trait_item)
            if ca.trait_item not in ("Clone::clone", "PartialEq::eq", "PartialEq::ne", "PartialOrd::lt", "PartialOrd::le",
                                     "PartialOrd::gt", "PartialOrd::ge", "Ord::cmp", "PartialOrd::partial_cmp"):
                return None
        if ca.selfshort is not None:
            m = MODELS.get("%s::%s" % (ca.selfshort, ca.item))
            if m is not None and ca.localbody() is None:
                return m
        return MODELS.get(ca.trait_item)
    if ca.defp in ca.eng.p.bodies:
        return None
    return MODELS.get(ca.cname)


def ident(*names):
    for n in names:
        MODELS[n] = lambda cx: cx.args[0]


ident("Clone::clone", "ToOwned::to_owned", "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut",
      "Borrow::borrow", "BorrowMut::borrow_mut", "Box::new", "Rc::new", "Arc::new", "Vec::as_slice", "Vec::as_mut_slice",
      "slice::to_vec", "IntoFuture::into_future", "Pin::new_unchecked", "Pin::get_mut", "Pin::as_mut", "Pin::new",
      "String::as_str", "str::as_bytes", "String::as_bytes", "String::into_bytes", "String::into_boxed_str", "str::to_owned",
      "Vec::into_boxed_slice", "Box::pin", "hint::black_box", "hint::must_use", "array::as_slice", "Cow::into_owned",
      "ScriptBuf::as_script", "ScriptBuf::to_bytes", "ScriptBuf::into_bytes", "Script::as_bytes", "Script::to_bytes",
      "Script::to_owned", "ScriptBuf::as_bytes", "ScriptBuf::from_bytes", "Script::from_bytes",
      "Iterator::by_ref", "Option::as_slice", "slice::as_ref", "Vec::from", "mem::drop_noop", "get_context",
      "ManuallyDrop::new", "AccessGuard::value", "Cell::new", "RefCell::new")


def cloned_iter(cx):
    return It(to_seq(cx.e, cx.val(0)))


def valmodel(*names):
    """model whose arguments are fully dereferenced values"""
    def deco(f):
        def m(cx):
            return f(cx, *[cx.val(i) for i in range(len(cx.args))])
        for n in names:
            MODELS[n] = m
        return f
    return deco


# clones of a &mut place must snapshot
def _snap(cx):
    return cx.e.deref_all(cx.st, cx.args[0], cx.g)


MODELS["Clone::clone"] = _snap
MODELS["ToOwned::to_owned"] = _snap
MODELS["slice::to_vec"] = _snap


# ------------------------------------------------------------------ comparison
def ltatom(x, y):
    """x < y for distinct x, y"""
    if x.id > y.id:
        return neg(node(mkv("ord", y, x), T, F))
    return node(mkv("ord", x, y), T, F)


def _ord(args):
    return isv(cmpv(args[0], args[1]), 0, 3)


core.REBUILD["ord"] = _ord
core.APPRULES["cmp"] = lambda xs: cmpv(*xs)


def cmpv(a, b):
    def two(ab):
        x, y = ab
        if x is y:
            return EQUAL
        if core.within(x, y):
            return LESS
        if core.within(y, x):
            return GREATER
        if x.k == y.k == "app" and x.a[0] == y.a[0] and x.a[0] in ("unbe2", "unbe4", "unbe8", "unbe16"):
            return cmpv(x.a[1], y.a[1])     # numbers order as their bytes, the most significant first
        if x.k == "int" and y.k == "int":
            return LESS if x.a[0] < y.a[0] else GREATER if x.a[0] > y.a[0] else EQUAL
        if x.k == "tuple" and y.k == "tuple" and len(x.a) == len(y.a):
            r = EQUAL
            for p, q in reversed(list(zip(x.a, y.a))):
                c = cmpv(p, q)
                r = ite(isv(c, 1, 3), r, c)
            return r
        if x.k == "array" and y.k == "array" and len(x.a) == len(y.a):
            return cmpv(tup(*x.a), tup(*y.a))
        if x.k == "cat" and y.k == "cat" and len(x.a) == len(y.a) and all(length(p).k == "int" and length(p) is length(q) for p, q in zip(x.a, y.a)):
            return cmpv(tup(*x.a), tup(*y.a))
        if x.k == "int" or y.k == "int":
            return ite(eqv(x, y), EQUAL, ite(lt(x, y), LESS, GREATER))
        return ite(eqv(x, y), EQUAL, ite(ltatom(x, y), LESS, GREATER))
    r = lift(two, [a, b])
    return r if r is not None else mkv("app", "cmp", a, b)


def typed_eq(cx, a, b):
    t = cx.tys[0].strip() if cx.tys and cx.tys[0] is not None else None
    if t is not None and t.k == "adt" and t.p == OPT:
        return lor(land(isv(a, 0, 2), isv(b, 0, 2)), land(is_some(a), is_some(b), eqv(unsome(a), unsome(b))))
    return eqv(a, b)


@valmodel("PartialEq::eq")
def _(cx, a, b):
    return typed_eq(cx, a, b)


@valmodel("PartialEq::ne")
def _(cx, a, b):
    return neg(typed_eq(cx, a, b))


def _prim(cx):
    return bool(cx.tys) and cx.tys[0] is not None and cx.tys[0].strip().k in ("uint", "int", "char")


def _pcmp(i, want):
    def f(cx, a, b):
        if cx.tys and cx.tys[0] is not None and "Level" in cx.tys[0].s:
            return F
        if _prim(cx):
            return [lt(a, b), neg(lt(b, a)), lt(b, a), neg(lt(a, b))][i]
        c = cmpv(a, b)
        r = F
        for w in want:
            r = lor(r, isv(c, w, 3))
        return r
    return f


valmodel("PartialOrd::lt")(_pcmp(0, (0,)))
valmodel("PartialOrd::le")(_pcmp(1, (0, 1)))
valmodel("PartialOrd::gt")(_pcmp(2, (2,)))
valmodel("PartialOrd::ge")(_pcmp(3, (1, 2)))


@valmodel("Ord::cmp")
def _(cx, a, b):
    return cmpv(a, b)


@valmodel("PartialOrd::partial_cmp")
def _(cx, a, b):
    return Some(cmpv(a, b))


def callcmp(cx, f, a, b):
    return cx.call(f, [a, b])


@model("cmp::min_by")
def _(cx):
    c = cx.call(cx.args[2], [cx.args[0], cx.args[1]])
    return ite(isv(c, 2, 3), cx.args[1], cx.args[0])


@model("cmp::max_by")
def _(cx):
    c = cx.call(cx.args[2], [cx.args[0], cx.args[1]])
    return ite(isv(c, 2, 3), cx.args[0], cx.args[1])


@model("cmp::min", "Ord::min")
def _(cx):
    if _prim(cx):
        a, b = cx.val(0), cx.val(1)
        return app("min", a, b) if not (a.k == "int" and b.k == "int") else Int(min(a.a[0], b.a[0]))
    c = cmpv(cx.val(0), cx.val(1))
    return ite(isv(c, 2, 3), cx.args[1], cx.args[0])


@model("cmp::max", "Ord::max")
def _(cx):
    if _prim(cx):
        return app("max", cx.val(0), cx.val(1))
    c = cmpv(cx.val(0), cx.val(1))
    return ite(isv(c, 2, 3), cx.args[0], cx.args[1])


@model("cmp::min_by_key")
def _(cx):
    a = cx.call(cx.args[2], [cx.args[0]])
    b = cx.call(cx.args[2], [cx.args[1]])
    c = cmpv(a, b)
    return ite(isv(c, 2, 3), cx.args[1], cx.args[0])


@valmodel("Ordering::then")
def _(cx, a, b):
    return ite(isv(a, 1, 3), b, a)


@model("Ordering::then_with")
def _(cx):
    a = cx.val(0)
    eq = isv(a, 1, 3)
    b = cx.call_under(eq, cx.args[1], [])
    return ite(eq, b, a)


@valmodel("Ordering::reverse")
def _(cx, a):
    return ite(isv(a, 0, 3), GREATER, ite(isv(a, 1, 3), EQUAL, LESS))


for _i, (_n, _w) in enumerate((("is_lt", (0,)), ("is_le", (0, 1)), ("is_gt", (2,)), ("is_ge", (1, 2)), ("is_eq", (1,)), ("is_ne", (0, 2)))):
    def _mk(w):
        def f(cx, a):
            r = F
            for q in w:
                r = lor(r, isv(a, q, 3))
            return r
        return f
    valmodel("Ordering::" + _n)(_mk(_w))


# ------------------------------------------------------------------ Option / Result / bool
def s0(cx):
    """option/result argument 0 as a value (refs to it resolved one level; payload refs kept)"""
    return cx.shallow(0)


def m0(name):
    def deco(f):
        for n in name.split():
            MODELS[n] = f
        return f
    return deco


@m0("Option::is_some")
def _(cx):
    return is_some(s0(cx))


@m0("Option::is_none")
def _(cx):
    return neg(is_some(s0(cx)))


@m0("Result::is_ok")
def _(cx):
    return is_ok(s0(cx))


@m0("Result::is_err")
def _(cx):
    return neg(is_ok(s0(cx)))


@m0("Option::is_some_and")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    return land(g, tobool(cx.call_under(g, cx.args[1], [unsome(v)])))


@m0("Option::is_none_or")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    return lor(neg(g), tobool(cx.call_under(g, cx.args[1], [unsome(v)])))


@m0("Result::is_ok_and")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    return land(g, tobool(cx.call_under(g, cx.args[1], [unok(v)])))


@m0("Result::is_err_and")
def _(cx):
    v = s0(cx)
    g = neg(is_ok(v))
    return land(g, tobool(cx.call_under(g, cx.args[1], [unerr(v)])))


@m0("Option::map")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    r = cx.call_under(g, cx.args[1], [unsome(v)])
    return ite(g, Some(r), NONE)


@m0("Option::inspect Result::inspect Result::inspect_err")
def _(cx):
    return cx.args[0]


@m0("Option::map_or")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    r = cx.call_under(g, cx.args[2], [unsome(v)])
    return ite(g, r, cx.args[1])


@m0("Option::map_or_else")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    r = cx.call_under(g, cx.args[2], [unsome(v)])
    d = cx.call_under(neg(g), cx.args[1], [])
    return ite(g, r, d)


@m0("Result::map_or")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    r = cx.call_under(g, cx.args[2], [unok(v)])
    return ite(g, r, cx.args[1])


@m0("Result::map_or_else")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    r = cx.call_under(g, cx.args[2], [unok(v)])
    d = cx.call_under(neg(g), cx.args[1], [unerr(v)])
    return ite(g, r, d)


@m0("Option::and_then")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    r = cx.call_under(g, cx.args[1], [unsome(v)])
    return ite(g, r, NONE)


@m0("Option::filter")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    c = tobool(cx.call_under(g, cx.args[1], [unsome(v)]))
    return ite(land(g, c), Some(unsome(v)), NONE)


@m0("Option::or")
def _(cx):
    v = s0(cx)
    return ite(is_some(v), v, cx.args[1])


@m0("Option::or_else")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    r = cx.call_under(neg(g), cx.args[1], [])
    return ite(g, v, r)


@m0("Option::xor")
def _(cx):
    a, b = s0(cx), cx.args[1]
    x, y = is_some(a), is_some(b)
    return ite(land(x, neg(y)), a, ite(land(y, neg(x)), b, NONE))


@m0("Option::and")
def _(cx):
    return ite(is_some(s0(cx)), cx.args[1], NONE)


@m0("Option::zip")
def _(cx):
    a, b = s0(cx), cx.args[1]
    return ite(land(is_some(a), is_some(b)), Some(tup(unsome(a), unsome(b))), NONE)


@m0("Option::ok_or")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    return ite(g, Ok(unsome(v)), Err(cx.args[1]))


@m0("Option::ok_or_else")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    e = cx.call_under(neg(g), cx.args[1], [])
    return ite(g, Ok(unsome(v)), Err(e))


@m0("Option::unwrap_or")
def _(cx):
    v = s0(cx)
    return ite(is_some(v), unsome(v), cx.args[1])


@m0("Result::unwrap_or")
def _(cx):
    v = s0(cx)
    return ite(is_ok(v), unok(v), cx.args[1])


@m0("Option::unwrap_or_else")
def _(cx):
    v = s0(cx)
    g = is_some(v)
    d = cx.call_under(neg(g), cx.args[1], [])
    return ite(g, unsome(v), d)


@m0("Result::unwrap_or_else")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    d = cx.call_under(neg(g), cx.args[1], [unerr(v)])
    return ite(g, unok(v), d)


def default_of(ty, e=None, cx=None):
    if ty is None:
        return named("Default")
    n = ty.short() if ty.k == "adt" else ty.k
    if ty.k == "ref" and ty.strip().k in ("slice", "str"):
        return mkv("seq", EMPTY)
    if ty.k in ("uint", "int"):
        return Int(0)
    if ty.k == "bool":
        return F
    if ty.k == "adt":
        if ty.p == OPT:
            return NONE
        if n in ("Vec", "String", "VecDeque"):
            return mkv("seq", EMPTY)
        if n == "ScriptBuf":
            return Bytes(b"")
        if n == "Witness":
            return mkv("seq", EMPTY)
        if n in ("BTreeMap", "HashMap", "BTreeSet", "HashSet", "IndexMap"):
            return mkv("newmap", n)
        if e is not None and cx is not None:
            b = e.p.find_trait_impl("core::default::Default", "default", ty)
            if b is not None:
                v, st, g = e.exec_fn(b, [], cx.st, cx.g)
                cx.st, cx.g = st, g
                return v
    if ty.k == "tuple":
        return tup(*[default_of(t, e, cx) for t in ty.args])
    if ty.k == "array" and ty.n is not None:
        return repeat(default_of(ty.args[0], e, cx), ty.n)
    return named("Default<%s>" % ty.long())


@m0("Option::unwrap_or_default")
def _(cx):
    v = s0(cx)
    return ite(is_some(v), unsome(v), default_of(cx.ca.args[0] if cx.ca.args else None, cx.e, cx))


@m0("Result::unwrap_or_default")
def _(cx):
    v = s0(cx)
    return ite(is_ok(v), unok(v), default_of(cx.ca.args[0] if cx.ca.args else None, cx.e, cx))


@m0("Default::default")
def _(cx):
    t = cx.ca.selfty
    if t is None:
        return None
    return default_of(t, cx.e, cx)


@m0("Option::unwrap Option::expect")
def _(cx):
    v = s0(cx)
    cx.panic("unwrap", neg(is_some(v)), [v])
    r = restrict(v, cx.g)
    return unsome(r)


@m0("Result::unwrap Result::expect")
def _(cx):
    v = s0(cx)
    cx.panic("unwrap", neg(is_ok(v)), [v])
    r = restrict(v, cx.g)
    return unok(r)


@m0("Result::unwrap_err Result::expect_err")
def _(cx):
    v = s0(cx)
    cx.panic("unwrap", is_ok(v), [v])
    return unerr(v)


@m0("Result::map")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    r = cx.call_under(g, cx.args[1], [unok(v)])
    return ite(g, Ok(r), Err(unerr(v)))


@m0("Result::map_err")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    r = cx.call_under(neg(g), cx.args[1], [unerr(v)])
    return ite(g, Ok(unok(v)), Err(r))


def _context(kind, given):
    def f(cx):
        v = s0(cx)
        g = is_ok(v) if kind == "Result" else is_some(v)
        why = cx.args[1] if given else cx.call_under(neg(g), cx.args[1], [])
        if kind == "Result":
            return ite(g, Ok(unok(v)), Err(app("context", unerr(v), why)))
        return ite(g, Ok(unsome(v)), Err(app("context", why)))
    m0("%s::%s" % (kind, "context" if given else "with_context"))(f)


for _k in ("Result", "Option"):
    for _g in (True, False):
        _context(_k, _g)


@m0("Result::and_then")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    r = cx.call_under(g, cx.args[1], [unok(v)])
    return ite(g, r, Err(unerr(v)))


@m0("Result::and")
def _(cx):
    v = s0(cx)
    return ite(is_ok(v), cx.args[1], Err(unerr(v)))


@m0("Result::or")
def _(cx):
    v = s0(cx)
    return ite(is_ok(v), Ok(unok(v)), cx.args[1])


@m0("Result::or_else")
def _(cx):
    v = s0(cx)
    g = is_ok(v)
    r = cx.call_under(neg(g), cx.args[1], [unerr(v)])
    return ite(g, Ok(unok(v)), r)


@m0("Result::ok")
def _(cx):
    v = s0(cx)
    return ite(is_ok(v), Some(unok(v)), NONE)


@m0("Result::err")
def _(cx):
    v = s0(cx)
    return ite(is_ok(v), NONE, Some(unerr(v)))


@m0("Option::transpose")
def _(cx):
    v = s0(cx)
    s = is_some(v)
    p = unsome(v)
    ok = is_ok(p)
    return ite(s, ite(ok, Ok(Some(unok(p))), Err(unerr(p))), Ok(NONE))


@m0("Result::transpose")
def _(cx):
    v = s0(cx)
    ok = is_ok(v)
    p = unok(v)
    return ite(ok, ite(is_some(p), Some(Ok(unsome(p))), NONE), Some(Err(unerr(v))))


@m0("Option::flatten")
def _(cx):
    v = s0(cx)
    return ite(is_some(v), unsome(v), NONE)


@m0("Result::flatten")
def _(cx):
    v = s0(cx)
    return ite(is_ok(v), unok(v), Err(unerr(v)))


@m0("Option::copied Option::cloned Result::copied Result::cloned Option::as_deref Option::as_ref Result::as_ref")
def _(cx):
    v = cx.val(0)
    return v


@m0("Option::as_mut Option::as_deref_mut")
def _(cx):
    r = None
    for lg, key, pr in reversed(cx.reflocs(0)):
        if key is None:
            x = pr
        else:
            from engine import PP, ref
            old = cx.e.getloc(cx.st, key, pr, cx.g)
            x = ite(is_some(old), Some(ref(key, pr + (PP(1, 0),))), NONE)
        r = x if r is None else ite(lg, x, r)
    return r


@m0("Option::take mem::take")
def _(cx):
    v = cx.shallow(0)
    t = cx.tys[0].args[0] if cx.tys and cx.tys[0] is not None and cx.tys[0].args else None
    d = default_of(t, cx.e, cx) if cx.ca.cname != "Option::take" else NONE
    cx.update(0, lambda x: d)
    return v


@m0("Option::replace mem::replace")
def _(cx):
    v = cx.shallow(0)
    n = cx.args[1]
    if cx.ca.cname == "Option::replace":
        n = Some(n)
    cx.update(0, lambda x: n)
    return v


@m0("Option::insert")
def _(cx):
    n = Some(cx.args[1])
    cx.update(0, lambda x: n)
    return payref(cx, 0)


def payref(cx, i):
    from engine import PP, ref
    for lg, key, pr in cx.reflocs(i):
        if key is not None:
            return ref(key, pr + (PP(1, 0),))
    return UNDEF


@m0("Option::get_or_insert")
def _(cx):
    n = cx.args[1]
    cx.update(0, lambda x: ite(is_some(x), x, Some(n)))
    return payref(cx, 0)


@m0("Option::get_or_insert_with")
def _(cx):
    v = cx.shallow(0)
    n = cx.call_under(neg(is_some(v)), cx.args[1], [])
    cx.update(0, lambda x: ite(is_some(x), x, Some(n)))
    return payref(cx, 0)


@m0("bool::then")
def _(cx):
    g = tobool(cx.args[0])
    r = cx.call_under(g, cx.args[1], [])
    return ite(g, Some(r), NONE)


@m0("bool::then_some")
def _(cx):
    return ite(tobool(cx.args[0]), Some(cx.args[1]), NONE)


@m0("Try::branch")
def _(cx):
    v = s0(cx)
    st = cx.tys[0].strip() if cx.tys else None
    if st is not None and st.p == OPT:
        g = is_some(v)
        return ite(g, adt(CF, 0, unsome(v)), adt(CF, 1, NONE))
    if st is not None and st.p == RES:
        g = is_ok(v)
        return ite(g, adt(CF, 0, unok(v)), adt(CF, 1, Err(unerr(v))))
    return None


@m0("FromResidual::from_residual")
def _(cx):
    # Self: FromResidual<R>
    dst = cx.ca.selfty
    src = cx.tys[0]
    v = cx.args[0]
    if dst is not None and dst.p == OPT:
        return NONE
    if dst is not None and dst.p == RES and src.p == RES:
        e = unerr(v)
        de, se = dst.args[1], src.args[1]
        return Err(convert(cx, e, se, de))
    return None


@m0("Try::from_output")
def _(cx):
    dst = cx.ca.selfty
    return Some(cx.args[0]) if dst is not None and dst.p == OPT else Ok(cx.args[0])


def convert(cx, v, src, dst):
    """From/Into conversion of v: src -> dst"""
    if src is None or dst is None:
        return app("into", v)
    if src.s == dst.s:
        return v
    if src.strip().s == dst.strip().s:
        return v
    b = cx.e.p.find_trait_impl("core::convert::From", "from", dst, (src,))
    if b is not None:
        r, st, g = cx.e.exec_fn(b, [v], cx.st, cx.g)
        cx.st, cx.g = st, g
        return r
    v = cx.e.deref_all(cx.st, v, cx.g)
    if dst.k == "uint" or dst.k == "int":
        if src.k in ("uint", "int", "char"):
            return v
        if src.k == "bool":
            return ite(tobool(v), Int(1), Int(0))
    sd = dst.short()
    ss = src.strip()
    if sd in ("Vec", "Box", "Rc", "Arc", "Cow", "String", "VecDeque", "ScriptBuf", "OsString", "PathBuf"):
        if ss.k in ("slice", "array", "str") or (ss.k == "adt" and ss.short() in ("Vec", "Box", "String", "ScriptBuf", "Script")):
            return v
        if sd in ("Box", "Rc", "Arc", "Cow"):
            return v
    if sd == "Option":
        return Some(v)
    if ss.k == "array" and sd in ("HashMap", "IndexMap"):
        sd = "BTreeMap"
    if ss.k == "array" and sd in ("BTreeMap", "BTreeSet", "HashSet", "IndexSet"):
        return mapleaf(to_seq(cx.e, v), lambda s: log(mkv("newmap", dst.short()), [push_to_insert(o, sd == "BTreeMap") for o in s.a[1:]]))
    r = keyconv(ss.p if ss.k == "adt" else ss.k, dst.strip().p if dst.strip().k == "adt" else dst.k, v)
    if r is not None:
        return r
    return app("into:%s" % dst.long(), v)


def keyconv(s, d, v):
    import crypto as C
    K = "secp256k1::key::"
    pk, sk, xo, kp, sc = K + "PublicKey", K + "SecretKey", K + "XOnlyPublicKey", K + "Keypair", "secp256k1::scalar::Scalar"
    if s == sk and d == sc or s == d:
        return v
    if s == kp:
        k = app("kpsk", v)
        return {sk: k, pk: C.G(k), xo: C.xonly(C.G(k))}.get(d)
    if s == pk:
        return {xo: C.xonly(v), C.BPK: adt(C.BPK, 0, T, v)}.get(d)
    if s == C.BPK:
        return {xo: C.xonly(field(v, "inner"))}.get(d)
    if d.endswith("TweakedPublicKey") and s == xo:
        return app("twk", v)
    if s.endswith("TweakedPublicKey") and d == xo:
        return app("untwk", v)
    return None


@m0("From::from")
def _(cx):
    dst = cx.ca.selfty
    return convert(cx, cx.args[0], cx.tys[0], dst)


@m0("local!From::from")
def _(cx):
    return None


@m0("Into::into")
def _(cx):
    dst = cx.ca.args[1] if len(cx.ca.args) > 1 else cx.retty
    return convert(cx, cx.args[0], cx.tys[0] if cx.tys[0] is not None else cx.ca.selfty, dst)


def try_convert(cx, v, src, dst):
    if src is None or dst is None:
        return app("try_into", v)
    b = cx.e.p.find_trait_impl("core::convert::TryFrom", "try_from", dst, (src,))
    if b is not None:
        r, st, g = cx.e.exec_fn(b, [v], cx.st, cx.g)
        cx.st, cx.g = st, g
        return r
    v = cx.e.deref_all(cx.st, v, cx.g)
    if src.k in ("uint", "int") and dst.k in ("uint", "int"):
        if (dst.w or 64) > (src.w or 64) or (dst.k == src.k and (dst.w or 64) >= (src.w or 64)):
            return Ok(v)
        ok = le_const(v, (1 << (dst.w or 64)) - 1)
        return ite(ok, Ok(v), Err(mkv("named", "TryFromIntError")))
    ss = src.strip()
    if dst.strip().k == "array" and dst.strip().n is not None and ss.k in ("slice", "array") or (dst.strip().k == "array" and ss.short() == "Vec"):
        ok = eqv(length(v), Int(dst.strip().n))
        return ite(ok, Ok(as_array(dst.strip().n, v)), Err(mkv("app", "TryFromSliceError", v)))
    return app("try_into:%s" % dst.long(), v)


@m0("TryFrom::try_from")
def _(cx):
    return try_convert(cx, cx.args[0], cx.tys[0], cx.ca.selfty)


@m0("TryInto::try_into")
def _(cx):
    dst = cx.ca.args[1] if len(cx.ca.args) > 1 and isinstance(cx.ca.args[1], Ty) else None
    return try_convert(cx, cx.args[0], cx.tys[0], dst)


@m0("str::parse")
def _(cx):
    dst = cx.ca.args[0] if cx.ca.args else None
    b = cx.e.p.find_trait_impl("core::str::traits::FromStr", "from_str", dst) if dst is not None else None
    if b is not None:
        r, st, g = cx.e.exec_fn(b, [cx.args[0]], cx.st, cx.g)
        cx.st, cx.g = st, g
        return r
    if dst is not None and dst.k == "adt" and not dst.args:
        return app("%s::from_str" % dst.long(), cx.val(0))
    return app("parse:%s" % dst.long(), cx.val(0))


# ------------------------------------------------------------------ fn traits
@m0("FnOnce::call_once FnMut::call_mut Fn::call")
def _(cx):
    f = cx.args[0]
    a = cx.args[1]
    if a.k == "tuple":
        args = list(a.a)
    else:
        args = [a]
    return cx.call(f, args)


# ------------------------------------------------------------------ iterators
def seq0(cx, i=0):
    v = cx.shallow(i)
    if cx.tys and i < len(cx.tys) and cx.tys[i] is not None and collkind(cx.tys[i]) == "Option":
        return mapleaf(v, lambda x: to_seq(cx.e, x if x.k in ("iter", "seq") else mkv("optiter", x)))
    return to_seq(cx.e, v)


def _map_elems(cx, seq, f):
    """element-wise rewrite: f(st,g,elem)->list of (guard,elem) pushed; runs through run_seq so that
    closures with side effects update the state"""
    key = ("acc", id(object()), len(cx.e.stack), cx.e._uid)
    cx.e._uid += 1
    st = cx.st.copy()
    st.env[key] = mkv("seq", EMPTY)

    def bodyfn(st1, g1, elem):
        outs, st2, g2 = f(st1, g1, elem)
        acc = st2.env[key]
        ops = []
        for gg, v in outs:
            if isinstance(v, tuple):   # splice of a sequence
                for s in segments(v[0]):
                    ops.append(guard_op(s, gg))
            else:
                ops.append(op(gg, "push", v))
        st2 = st2.copy()
        st2.env[key] = mapleaf(acc, lambda a: log(a, ops))
        return [], (g2, st2)
    ex, cont = cx.e.run_seq(st, cx.g, seq, bodyfn, cx.body)
    if cont is None or cont[0] is F:
        cx.g = F
        return mkv("seq", EMPTY)
    g, st2 = cont
    r = st2.env.pop(key)
    cx.st, cx.g = st2, g
    return r


def _closure1(cx, fv):
    def run(st, g, args):
        v, s2, g2 = cx.e.call_value(fv, args, st, g, cx.body, cx.span)
        return v, s2, g2
    return run


@m0("slice::iter Vec::iter VecDeque::iter BTreeSet::iter HashSet::iter array::iter Option::iter Witness::iter BTreeSet::into_iter HashSet::into_iter IndexSet::iter")
def _(cx):
    v = cx.val(0)
    if cx.ca.cname.startswith("Option"):
        return It(mapleaf(v, lambda x: to_seq(cx.e, mkv("optiter", x))))
    return It(to_seq(cx.e, v))


def map_seq(cx, v):
    return mapleaf(v, lambda x: x if x.k == "seq" else opaque_seq(x, "map"))


@m0("BTreeMap::iter HashMap::iter IndexMap::iter BTreeMap::range")
def _(cx):
    v = cx.val(0)
    if cx.ca.item == "range":
        v = app("BTreeMap::range", v, cx.val(1))
    return It(map_seq(cx, v))


@m0("BTreeMap::keys HashMap::keys BTreeMap::into_keys HashMap::into_keys")
def _(cx):
    s = map_seq(cx, cx.val(0))
    return It(_map_elems(cx, s, lambda st, g, e: ([(T, field(e, 0))], st, g)))


@m0("BTreeMap::values HashMap::values BTreeMap::into_values HashMap::into_values")
def _(cx):
    s = map_seq(cx, cx.val(0))
    return It(_map_elems(cx, s, lambda st, g, e: ([(T, field(e, 1))], st, g)))


def collkind(ty):
    t = ty
    while t.k in ("ref", "ptr"):
        t = t.args[0]
    if t.k == "adt":
        return t.short()
    return t.k


@m0("IntoIterator::into_iter")
def _(cx):
    ty = cx.tys[0]
    v0 = cx.args[0]
    if ty.k == "ref" and ty.m:
        return iter_mut(cx)
    k = collkind(ty)
    v = cx.shallow(0)
    if k in ("BTreeMap", "HashMap", "IndexMap"):
        return It(map_seq(cx, cx.val(0)))
    if k == "Option":
        return It(mapleaf(v, lambda x: to_seq(cx.e, mkv("optiter", x))))
    if k == "Result":
        return It(seqv(op(is_ok(v), "push", unok(v))))
    if v.k == "iter":
        return v
    return It(to_seq(cx.e, v))


def counted(v):
    """an array of equal bytes is walked by position"""
    if v.k == "bytes" and len(v.a[0]) > 8 and len(set(v.a[0])) == 1:
        return mkv("range", Int(0), Int(len(v.a[0])))
    return v


def place(b):
    """the position of element b"""
    s = b.a[0]
    return b if s.k == "range" and s.a[0] is Int(0) else mkv("idx", b)


@m0("slice::iter_mut Vec::iter_mut array::iter_mut")
def iter_mut(cx):
    from engine import PI, ref
    out = None
    for lg, key, pr in reversed(cx.reflocs(0)):
        if key is None:
            r = to_seq(cx.e, pr)
        else:
            v = cx.e.getloc(cx.st, key, pr, cx.g)
            k = collkind(cx.tys[0])
            if k in ("BTreeMap", "HashMap"):
                b = mkv("b", v, 0)
                from engine import PK
                el = tup(mkv("mkey", b), ref(key, pr + (PK(mkv("mkey", b), mkv("present")),)))
            else:
                v = counted(v)
                b = mkv("b", v, 0)
                el = ref(key, pr + (PI(place(b)),))
            r = mkv("seq", EMPTY, comp(T, v, b, op(T, "push", el)))
        out = r if out is None else ite(lg, r, out)
    return It(out)


@m0("BTreeMap::iter_mut HashMap::iter_mut")
def _(cx):
    return iter_mut(cx)


@m0("BTreeMap::values_mut HashMap::values_mut")
def _(cx):
    it = iter_mut(cx)
    return It(_map_elems(cx, it.a[0], lambda st, g, e: ([(T, field(e, 1))], st, g)))


@m0("Iterator::map ParallelIterator::map")
def _(cx):
    f = cx.args[1]

    def step(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return [(T, v)], s2, g2
    return It(_map_elems(cx, seq0(cx), step))


@m0("Iterator::inspect")
def _(cx):
    return cx.args[0]


@m0("Iterator::filter")
def _(cx):
    f = cx.args[1]

    def step(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return [(restrict(tobool(v), g2), e)], s2, g2
    return It(_map_elems(cx, seq0(cx), step))


@m0("Iterator::filter_map")
def _(cx):
    f = cx.args[1]

    def step(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        v = restrict(v, g2)
        return [(is_some(v), unsome(v))], s2, g2
    return It(_map_elems(cx, seq0(cx), step))


@m0("Iterator::flat_map ParallelIterator::flat_map")
def _(cx):
    f = cx.args[1]

    def step(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return [(T, (to_seq(cx.e, opt_or(cx, v)),))], s2, g2
    return It(_map_elems(cx, seq0(cx), step))


def opt_or(cx, v):
    def one(x):
        if x.k == "adt" and x.a[0] == RES:
            return mkv("seq", EMPTY, op(T, "push", x.a[2])) if x.a[1] == 0 else mkv("seq", EMPTY)
        return x
    return mapleaf(v, one)


@m0("Iterator::flatten")
def _(cx):
    tys = cx.tys[0].s if cx.tys and cx.tys[0] is not None else ""

    def step(st, g, e):
        if "Option<" in tys and e.k != "iter" and e.k != "seq" and not (e.k == "adt"):
            pass
        return [(T, (to_seq(cx.e, flat_elem(cx, e)),))], st, g
    return It(_map_elems(cx, seq0(cx), step))


def flat_elem(cx, v):
    retty = cx.ca.selfty
    s = retty.s if retty is not None else ""

    def one(x):
        if x.k in ("iter", "seq") or (x.k == "adt"):
            return opt_or(cx, x)
        if "Option<" in s:
            return mkv("optiter", x)
        return x
    return mapleaf(v, one)


@m0("Iterator::enumerate")
def _(cx):
    s = seq0(cx)

    def one(x):
        sc = single_comp(x)
        if sc is not None:
            og, src, b, gd, el = sc
            i = place(b) if gd is T else mkv("cnt", src, b, gd, "before")
            return mkv("seq", EMPTY, comp(og, src, b, op(gd, "push", tup(i, el))))
        if x.k == "seq" and all(o.k == "op" and o.a[0] is T for o in x.a[1:]):
            return mkv("seq", EMPTY, *[op(T, "push", tup(Int(i), o.a[2])) for i, o in enumerate(x.a[1:])])
        b = mkv("b", x, 0)
        return mkv("seq", EMPTY, comp(T, x, b, op(T, "push", tup(mkv("idx", b), b))))
    return It(mapleaf(s, one))


@m0("Iterator::zip iter::zip")
def _(cx):
    a = seq0(cx)
    ty = cx.tys[1]
    k = collkind(ty)
    v1 = cx.shallow(1)
    c = map_seq(cx, cx.val(1)) if k in ("BTreeMap", "HashMap") else to_seq(cx.e, v1)
    sa, sb = single_comp(a), single_comp(c)
    if sa and sb:
        oga, srca, ba, ga, ea = sa
        ogb, srcb, bb, gb, eb = sb
        if ga is T and gb is T and oga is T and ogb is T:
            if srca is srcb:
                eb2 = subst(eb, {bb: ba})
                return It(mkv("seq", EMPTY, comp(T, srca, ba, op(T, "push", tup(ea, eb2)))))
            # counting range zipped on
            for (sx, s1, b1, e1, s2, b2, e2, flip) in ((sb, srca, ba, ea, srcb, bb, eb, False), (sa, srcb, bb, eb, srca, ba, ea, True)):
                if s2.k == "range" and s2.a[1].k == "inf" and e2 is b2:
                    i = app("+", mkv("idx", b1), s2.a[0])
                    el = tup(i, e1) if flip else tup(e1, i)
                    return It(mkv("seq", EMPTY, comp(T, s1, b1, op(T, "push", el))))
    # a side with one element per step is walked by what it was made from
    pa, pc = [sx if sx and sx[0] is T and sx[3] is T else None for sx in (sa, sb)]
    src = zipped(pa[1] if pa else a, pc[1] if pc else c)
    b = mkv("b", src, 0)
    at = place(b)
    x, y = [subst(q[4], {mkv("idx", q[2]): at, q[2]: zel(b, q[1])}) if q else zel(b, s) for q, s in ((pa, a), (pc, c))]
    return It(mkv("seq", EMPTY, comp(T, src, b, op(T, "push", tup(x, y)))))


def zipped(*xs):
    """sequences walked in step; their order does not matter"""
    for p, q in (xs, xs[::-1]) if len(xs) == 2 else ():
        if core.EQLEN.get(q) is p:
            return p
        n = length(p)
        if n is length(q) and n.k == "app" and n.a[0] == "len" and n.a[1] is p and p is not q:
            return p
    return mkv("zip", *sorted(xs, key=lambda x: x.id))


def zel(b, x):
    """the element of x at step b of a zip"""
    if b.k == "b" and b.a[0].k != "zip" and not b.a[0].k.startswith("it:"):
        return b if b.a[0] is x else index(x, mkv("idx", b))
    return mkv("zel", b, x)


core.REBUILD["zip"] = lambda args: zipped(*args)
core.REBUILD["zel"] = lambda args: zel(*args)
core.REBUILD["idx"] = lambda args: mkv("idx", args[0].a[0]) if args[0].k == "zel" else mkv("idx", *args)


@m0("array::from_fn")
def _(cx):
    n = cx.retty.strip().n if cx.retty is not None else None
    if n is None:
        return mkv("app", "array::from_fn", cx.e.lam(cx.args[0], 1, cx.st, cx.g, cx.body))
    seq = opaque_seq(mkv("range", Int(0), Int(int(n))))

    def step(st, g, e):
        v, s2, g2 = cx.e.call_value(cx.args[0], [e], st, g, cx.body, cx.span)
        return [(T, v)], s2, g2
    return as_array(int(n), _map_elems(cx, seq, step))


@m0("array::map")
def _(cx):
    n = cx.retty.strip().n if cx.retty is not None else None

    def step(st, g, e):
        v, s2, g2 = cx.e.call_value(cx.args[1], [e], st, g, cx.body, cx.span)
        return [(T, v)], s2, g2
    s = _map_elems(cx, seq0(cx), step)
    return as_array(int(n), s) if n is not None else s


def _arith(item, o, checked):
    def plain(cx):
        if not all(ty.strip().k in ("uint", "int", "bool") for ty in cx.tys[:2]):
            return None
        return value(cx, cx.val(0), cx.val(1))

    def value(cx, a, b):
        if not checked:
            return binop(o, a, b)
        r = binop(o + "WithOverflow", a, b)
        cx.panic("overflow", field(r, 1), [a, b])
        return field(r, 0)

    def assign(cx):
        if not all(ty.strip().k in ("uint", "int", "bool") for ty in cx.tys[:2]):
            return None
        b = cx.val(1)
        cx.update(0, lambda a: value(cx, a, b))
        return UNIT
    t = item[:1].upper() + item[1:]
    MODELS["%s::%s" % (o if o not in ("Shl", "Shr") else t, item)] = plain
    MODELS["%sAssign::%s_assign" % (o, item)] = assign


for _i, _o, _c in (("bitxor", "BitXor", False), ("bitand", "BitAnd", False), ("bitor", "BitOr", False),
                   ("add", "Add", True), ("sub", "Sub", True), ("mul", "Mul", True)):
    _arith(_i, _o, _c)


@m0("Iterator::chain iter::chain")
def _(cx):
    a = seq0(cx)
    b = seq0(cx, 1)
    return It(mkv("seq", EMPTY, *(segments(a) + segments(b))))


@m0("Option::Some")
def _(cx):
    return Some(cx.args[0])


@m0("Result::Ok")
def _(cx):
    return Ok(cx.args[0])


@m0("Result::Err")
def _(cx):
    return Err(cx.args[0])


@m0("iter::once once::once")
def _(cx):
    return It(seqv(op(T, "push", cx.args[0])))


@m0("iter::empty")
def _(cx):
    return It(mkv("seq", EMPTY))


@m0("Iterator::copied Iterator::cloned Iterator::fuse Iterator::peekable IntoParallelRefIterator::par_iter")
def _(cx):
    return It(to_seq(cx.e, cx.val(0)))


def restrict_seq(s, name, *extra):
    """take / skip / rev / ... of a sequence"""
    n = extra[0].a[0] if extra and extra[0].k == "int" else None
    if name in ("take", "skip") and n == 0:
        return mkv("seq", EMPTY) if name == "take" else s
    if name in ("take", "skip") and n is not None and s.k == "seq" and all(o.k == "op" and o.a[0] is T for o in s.a[1:]):
        return mkv("seq", EMPTY, *(s.a[1:1 + n] if name == "take" else s.a[1 + n:]))
    sc = single_comp(s)
    if name == "take" and extra[0].k == "app" and extra[0].a[0] == "len" and sc is not None and sc[3] is T and sc[0] is T:
        # as many as another list has: the two are walked in step
        y = extra[0].a[1]
        if y is sc[1]:
            return s
        src = zipped(sc[1], y)
        b = mkv("b", src, 0)
        return mkv("seq", EMPTY, comp(T, src, b, op(T, "push", subst(sc[4], {mkv("idx", sc[2]): place(b), sc[2]: zel(b, sc[1])}))))
    if sc is not None and (sc[3] is T or name == "rev") and sc[0] is T and name in ("take", "skip", "rev", "step_by"):
        src = sc[1]
        if src.k == "it:" + name == "it:skip" and n is not None and src.a[1].k == "int":
            src, extra = src.a[0], (Int(src.a[1].a[0] + n),)
        elif name == "rev" and src.k == "it:rev":
            b = mkv("b", src.a[0], 0)
            return mkv("seq", EMPTY, comp(T, src.a[0], b, op(subst(sc[3], {sc[2]: b}), "push", subst(sc[4], {sc[2]: b}))))
        src2 = mkv("it:" + name, src, *extra)
        b = mkv("b", src2, 0)
        if sc[2] in core.ARRLEN:
            core.ARRLEN[b] = core.ARRLEN[sc[2]]
        at, i = mkv("idx", b), None
        if name == "skip":
            i = app("+", at, extra[0])
        elif name == "rev":
            i = app("-", app("-", length(sc[1]), Int(1)), at)
        elif name == "step_by":
            i = app("*", at, extra[0])
        if src is not sc[1]:
            i = app("+", at, Int(n))     # a skip of a skip: positions already count from the first one
        m = {sc[2]: b}
        if i is not None:
            m[mkv("idx", sc[2])] = i
        return mkv("seq", EMPTY, comp(T, src2, b, op(subst(sc[3], m), "push", subst(sc[4], m))))
    return opaque_seq(mkv("it:" + name, s, *extra))


def unident(v):
    """iterator over every element of X, unchanged: X itself"""
    if v.k == "iter":
        sc = single_comp(v.a[0])
        if sc is not None and sc[0] is T and sc[3] is T and sc[4] is sc[2]:
            return sc[1]
    return v


def _wrapper(name):
    def f(cx):
        s = seq0(cx)
        extra = [cx.e.close(cx.val(i), cx.st, cx.g, cx.body) for i in range(1, len(cx.args))]
        return It(mapleaf(s, lambda x: restrict_seq(x, name, *extra)))
    return f


@m0("Iterator::take_while")
def _(cx):
    f = cx.args[1]

    def one(x):
        sc = single_comp(x)
        v = None
        if sc is not None and sc[0] is T:
            v, s2, g2 = cx.e.call_value(f, [sc[4]], cx.st.copy(), T, cx.body, cx.span)
            if g2 is not T or any(y is not cx.st.env.get(k) for k, y in s2.env.items() if k in cx.st.env):
                v = None
        if v is None:
            return restrict_seq(x, "take_while", cx.e.close(cx.val(1), cx.st, cx.g, cx.body))
        W, bw = core.taken(sc[1], sc[2], lor(neg(sc[3]), tobool(v)))
        return mkv("seq", EMPTY, comp(T, W, bw, op(subst(sc[3], {sc[2]: bw}), "push", subst(sc[4], {sc[2]: bw}))))
    return It(mapleaf(seq0(cx), one))


for _n in ("take", "skip", "rev", "step_by", "skip_while", "cycle", "dedup", "array_chunks"):
    MODELS["Iterator::" + _n] = _wrapper(_n)


def as_loop(cx, name, args, tys=None):
    """the list a lazy producer delivers, by running the loop that drives it (spec/src/prelude.rs)"""
    b = cx.e.p.fn("sp_spec::prelude::" + name)
    if b is None:
        raise Unsupported("prelude " + name)
    if tys:
        b = cx.e.p.specialised(b, dict(zip(b.generics, tys)))
    v, cx.st, g = cx.e.exec_fn(b, args, cx.st, cx.g)
    if g is F and cx.g is not F:
        raise Unsupported("producer without an end")
    cx.g = g
    return It(mapleaf(v, lambda x: to_seq(cx.e, x)))


def own_iterator(cx):
    """the list an iterator type of the code itself delivers to a consumer of the standard library"""
    if not cx.args or not cx.ca.trait.endswith("iter::traits::iterator::Iterator") or cx.ca.item in ("next", "by_ref", "size_hint"):
        return None
    ty = cx.ca.selfty
    inner = ty.args[0] if ty is not None and ty.k == "ref" else ty
    if inner is None or inner.k != "adt" or not (cx.e.p.adts.get(inner.p) or {}).get("local"):
        return None
    b = cx.e.p.find_trait_impl(cx.ca.trait, "next", inner, [])
    if b is None:
        return None
    a = cx.args[0]
    if a.k != "ref":
        key = ("it", cx.e._uid)
        cx.e._uid += 1
        cx.st = cx.st.copy()
        cx.st.env[key] = a
        a = mkv("ref", key)
    return as_loop(cx, "each", [a], [inner])


for _n in ("map_while", "scan"):
    def _producer(cx, _n=_n):
        return as_loop(cx, _n, [It(seq0(cx))] + list(cx.args[1:]))
    MODELS["Iterator::" + _n] = _producer


@m0("from_fn::from_fn iter::from_fn")
def _(cx):
    return as_loop(cx, "from_fn", list(cx.args))


@m0("successors::successors iter::successors")
def _(cx):
    return as_loop(cx, "successors", list(cx.args))


@m0("slice::windows slice::chunks slice::chunks_exact")
def _(cx):
    s = cx.val(0)
    n = cx.val(1)
    it = cx.ca.item
    if n.k == "int" and n.a[0] > 0 and it != "windows":
        w = n.a[0]
        out = None
        for gd, x in known_cases(s):
            L = known_len(land(cx.g, gd), x)
            if L is not None and L <= 64 * w:
                y = mkv("seq", EMPTY, *[op(T, "push", slice_(x, Int(i), Int(min(i + w, L))))
                                        for i in range(0, L, w) if it == "chunks" or i + w <= L])
            else:
                src = mkv("it:" + it, x, n)
                if it == "chunks_exact":
                    core.ARRLEN[mkv("b", src, 0)] = w
                y = opaque_seq(src)
            out = y if out is None else ite(gd, y, out)
        return It(out)
    if it in ("windows", "chunks_exact") and n.k == "int":
        src = mkv("it:" + it, s, n)
        core.ARRLEN[mkv("b", src, 0)] = n.a[0]
        return It(opaque_seq(src))
    return It(opaque_seq(mkv("it:" + it, s, n)))


def generic_fold(cx, seq, init, fn):
    key = ("facc", cx.e._uid)
    cx.e._uid += 1
    st = cx.st.copy()
    st.env[key] = init

    def bodyfn(st1, g1, elem):
        acc = st1.env[key]
        v, s2, g2 = fn(st1, g1, acc, elem)
        s2 = s2.copy()
        s2.env[key] = v
        return [], (g2, s2)
    ex, cont = cx.e.run_seq(st, cx.g, seq, bodyfn, cx.body)
    if cont is None or cont[0] is F:
        cx.g = F
        return UNDEF
    g, st2 = cont
    r = st2.env.pop(key)
    cx.st, cx.g = st2, g
    return r


@m0("Iterator::fold")
def _(cx):
    f = cx.args[2]
    return generic_fold(cx, seq0(cx), cx.args[1], lambda st, g, a, e: cx.e.call_value(f, [a, e], st, g, cx.body, cx.span))


@m0("Iterator::for_each")
def _(cx):
    f = cx.args[1]

    def step(st, g, a, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return UNIT, s2, g2
    generic_fold(cx, seq0(cx), UNIT, step)
    return UNIT


def try_fold(cx, seq, init, fn, kind):
    """early-exit fold; fn -> (value of Result/Option type, st, g); returns Result/Option"""
    key = ("facc", cx.e._uid)
    rkey = ("fret", cx.e._uid)
    cx.e._uid += 1
    st = cx.st.copy()
    st.env[key] = init

    def bodyfn(st1, g1, elem):
        acc = st1.env[key]
        v, s2, g2 = fn(st1, g1, acc, elem)
        v = restrict(v, g2)
        ok = is_ok(v) if kind == RES else is_some(v)
        exits = []
        bad = land(g2, neg(ok))
        if bad is not F:
            s3 = s2.copy()
            s3.env[rkey] = Err(unerr(v)) if kind == RES else NONE
            exits.append(("brk", bad, s3))
        s2 = s2.copy()
        s2.env[key] = unok(v) if kind == RES else unsome(v)
        return exits, (land(g2, ok), s2)
    ex, cont = cx.e.run_seq(st, cx.g, seq, bodyfn, cx.body)
    lst = []
    if cont is not None and cont[0] is not F:
        g, s = cont
        s = s.copy()
        a = s.env.get(key, init)
        s.env[rkey] = Ok(a) if kind == RES else Some(a)
        lst.append((g, s))
    for _, g, s in ex:
        if rkey in s.env:
            lst.append((g, s))
    r = cx.e.merge_plain(lst)
    if r is None:
        cx.g = F
        return UNDEF
    cx.g, cx.st = r
    cx.st.env.pop(key, None)
    return cx.st.env.pop(rkey)


def kind_of(ty):
    return RES if ty is not None and ty.p == RES else OPT


@m0("Iterator::try_fold")
def _(cx):
    f = cx.args[2]
    return try_fold(cx, seq0(cx), cx.args[1], lambda st, g, a, e: cx.e.call_value(f, [a, e], st, g, cx.body, cx.span), kind_of(cx.retty))


@m0("Iterator::try_for_each")
def _(cx):
    f = cx.args[1]
    return try_fold(cx, seq0(cx), UNIT, lambda st, g, a, e: cx.e.call_value(f, [e], st, g, cx.body, cx.span), kind_of(cx.retty))


def search(cx, seq, test):
    """first element satisfying test -> (found guard, value at first, st)"""
    rkey = ("fret", cx.e._uid)
    cx.e._uid += 1
    st = cx.st.copy()

    def bodyfn(st1, g1, elem):
        c, val, s2, g2 = test(st1, g1, elem)
        c = restrict(c, g2)
        exits = []
        hit = land(g2, c)
        if hit is not F:
            s3 = s2.copy()
            s3.env[rkey] = Some(val)
            exits.append(("brk", hit, s3))
        return exits, (land(g2, neg(c)), s2)
    ex, cont = cx.e.run_seq(st, cx.g, seq, bodyfn, cx.body)
    lst = []
    if cont is not None and cont[0] is not F:
        g, s = cont
        s = s.copy()
        s.env[rkey] = NONE
        lst.append((g, s))
    for _, g, s in ex:
        lst.append((g, s))
    r = cx.e.merge_plain(lst)
    if r is None:
        cx.g = F
        return NONE
    cx.g, cx.st = r
    return cx.st.env.pop(rkey)


@m0("Iterator::find")
def _(cx):
    f = cx.args[1]

    def test(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return tobool(v), e, s2, g2
    return search(cx, seq0(cx), test)


@m0("Iterator::find_map")
def _(cx):
    f = cx.args[1]

    def test(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        v = restrict(v, g2)
        return is_some(v), unsome(v), s2, g2
    return search(cx, seq0(cx), test)


@m0("Iterator::any")
def _(cx):
    f = cx.args[1]

    def test(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return tobool(v), UNIT, s2, g2
    return is_some(search(cx, seq0(cx), test))


@m0("Iterator::all")
def _(cx):
    f = cx.args[1]

    def test(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return neg(tobool(v)), UNIT, s2, g2
    return neg(is_some(search(cx, seq0(cx), test)))


@m0("Iterator::position")
def _(cx):
    f = cx.args[1]
    s = MODELS["Iterator::enumerate"](cx)
    saved = cx.args

    def test(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [field(e, 1)], st, g, cx.body, cx.span)
        return tobool(v), field(e, 0), s2, g2
    return search(cx, to_seq(cx.e, s), test)


@m0("Vec::contains slice::contains")
def _(cx):
    x = cx.val(1)

    def test(st, g, e):
        return eqv(e, x), UNIT, st, g
    return is_some(search(cx, to_seq(cx.e, cx.val(0)), test))


@m0("Iterator::count")
def _(cx):
    return length(seq0(cx))


@m0("Iterator::last")
def _(cx):
    s = seq0(cx)
    sc = single_comp(s) if s.k == "seq" else None
    if sc is not None and sc[0] is T and sc[3] is not T:
        # the last that satisfies the condition is the first such one from the end
        return search(cx, restrict_seq(s, "rev"), lambda st, g, e: (T, e, st, g))
    return ite(isempty(s), NONE, Some(app("lastelem", s)))


@m0("Iterator::nth")
def _(cx):
    s = seq0(cx)
    n = cx.val(1)
    r = nth(s, n)
    if cx.args[0].k == "ref":
        rest = mapleaf(s, lambda x: restrict_seq(x, "skip", app("+", n, Int(1))))
        cx.update(0, lambda x: It(rest))
    return r


def nth(s, n):
    sc = single_comp(s)
    if sc is not None and sc[3] is T and sc[0] is T:
        ok = neg(le_const(length(sc[1]), n.a[0])) if n.k == "int" else lt(n, length(sc[1]))
        return ite(ok, Some(subst(sc[4], {mkv("idx", sc[2]): n, sc[2]: index(sc[1], n)})), NONE)
    return app("nth", s, n)


@m0("Iterator::next DoubleEndedIterator::next_back")
def _(cx):
    return iter_next(cx, cx.ca.item)


def iter_next(cx, item="next"):
    from engine import ref
    locs = cx.reflocs(0)
    if item == "next":
        for (k, pr, elem) in reversed(cx.e.next_over):
            if len(locs) == 1 and locs[0][1] == k and locs[0][2] == pr:
                return NONE if elem is None else Some(elem)
    s = to_seq(cx.e, cx.shallow(0))
    if s.k == "seq" and len(s.a) == 1:
        return NONE
    if s.k == "seq" and s.a[1].k == "op" and s.a[1].a[0] is T and item == "next":
        rest = mkv("seq", EMPTY, *s.a[2:])
        v = s.a[1].a[2]
        cx.update(0, lambda x: It(rest))
        return Some(v)
    sc = single_comp(s)
    if item == "next":
        if sc is not None and sc[3] is not T:
            # first element satisfying the guard
            og, src, b, gd, el = sc
            fnd = land(og, anyof(src, b, gd))
            r = ite(fnd, Some(subst(el, {b: firstof(src, b, gd)})), NONE)
        else:
            r = nth(s, Int(0))
        rest = mapleaf(s, lambda x: restrict_seq(x, "skip", Int(1)))
        cx.update(0, lambda x: It(rest))
        return r
    cx.update(0, lambda x: It(to_seq(cx.e, mkv("it:dropback", s))))
    return app("next_back", s)


@m0("Iterator::min Iterator::max Iterator::sum Iterator::product Iterator::min_by Iterator::max_by Iterator::min_by_key Iterator::max_by_key Iterator::reduce")
def _(cx):
    s = seq0(cx)
    it = cx.ca.item
    if it in ("sum", "product"):
        o = "+" if it == "sum" else "*"
        return generic_fold(cx, s, Int(0 if it == "sum" else 1), lambda st, g, a, e: (app(o, a, e), st, g))
    f = cx.args[1] if len(cx.args) > 1 else None

    def step(st, g, a, e):
        have = is_some(a)
        old = unsome(a)
        e = cx.e.deref_all(st, e, g)
        if it in ("min", "max"):
            c = cmpv(e, old)
        elif it in ("min_by", "max_by"):
            c, st, g = cx.e.call_value(f, [e, old], st, g, cx.body, cx.span)
        elif it in ("min_by_key", "max_by_key"):
            k1, st, g = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
            k2, st, g = cx.e.call_value(f, [old], st, g, cx.body, cx.span)
            c = cmpv(k1, k2)
        else:
            r, st, g = cx.e.call_value(f, [old, e], st, g, cx.body, cx.span)
            return ite(have, Some(r), Some(e)), st, g
        if it.startswith("min"):
            take = isv(c, 0, 3)
        else:
            take = neg(isv(c, 0, 3))
        return ite(land(have, neg(take)), a, Some(e)), st, g
    return generic_fold(cx, s, NONE, step)


def collect_into(cx, seq, ty):
    n = ty.short() if ty.k == "adt" else ty.k
    if ty.k == "adt" and ty.p == RES:
        inner = ty.args[0]
        return try_collect(cx, seq, inner, RES)
    if ty.k == "adt" and ty.p == OPT:
        return try_collect(cx, seq, ty.args[0], OPT)
    if n == "Vec" and ty.args and ty.args[0].k == "uint" and ty.args[0].w == 8:
        return mapleaf(seq, joined)
    if n in ("Vec", "VecDeque", "Box", "slice", "FuturesUnordered", "String", "Arc", "Rc"):
        return mapleaf(seq, whole_list)
    if n in ("BTreeMap", "HashMap", "IndexMap"):
        return mapleaf(seq, lambda s: log(mkv("newmap", n), [push_to_insert(o, True) for o in s.a[1:]]))
    if n in ("BTreeSet", "HashSet", "IndexSet"):
        return mapleaf(seq, lambda s: log(mkv("newmap", n), [push_to_insert(o, False) for o in s.a[1:]]))
    if ty.k == "tuple":
        return tup()
    return app("collect:%s" % ty.long(), seq)


def whole_list(s):
    """a list a loop made, copied element by element, is the list"""
    sc = single_comp(s) if s.k == "seq" and s.a[0] is EMPTY else None
    if sc and sc[0] is T and sc[3] is T and sc[4] is sc[2] and sc[1].k in ("wlast", "foldv"):
        return sc[1]
    return s


def joined(s):
    """byte strings one after the other"""
    if s.k != "seq" or s.a[0] is not EMPTY or len(s.a) < 3:
        return s
    if not any(o.k == "cmp" for o in s.a[1:]):
        return s
    parts = [plain_source(mkv("seq", EMPTY, o)) if o.k == "cmp" else
             mkarray([o.a[2]]) if o.a[0] is T and o.a[1] == "push" else None for o in s.a[1:]]
    return s if any(p is None for p in parts) else cat(*parts)


def push_to_insert(o, pair):
    if o.k == "cmp":
        return comp(o.a[0], o.a[1], o.a[2], *[push_to_insert(x, pair) for x in o.a[3:]])
    if pair:
        return op(o.a[0], "insert", field(o.a[2], 0), field(o.a[2], 1))
    return op(o.a[0], "insert", o.a[2])


def try_collect(cx, seq, inner, kind):
    key = ("cacc", cx.e._uid)
    cx.e._uid += 1

    def fn(st, g, acc, e):
        ok = is_ok(e) if kind == RES else is_some(e)
        p = unok(e) if kind == RES else unsome(e)
        nv = mapleaf(acc, lambda a: log(a, [op(T, "push", p)]))
        if kind == RES:
            return ite(ok, Ok(nv), Err(unerr(e))), st, g
        return ite(ok, Some(nv), NONE), st, g
    r = try_fold(cx, seq, mkv("seq", EMPTY), fn, kind)
    ok = is_ok(r) if kind == RES else is_some(r)
    p = unok(r) if kind == RES else unsome(r)
    c = collect_into(cx, to_seq(cx.e, p), inner)
    if kind == RES:
        return ite(ok, Ok(c), Err(unerr(r)))
    return ite(ok, Some(c), NONE)


@m0("Iterator::collect ParallelIterator::collect")
def _(cx):
    ty = cx.retty or (cx.ca.args[1] if len(cx.ca.args) > 1 else None)
    s = seq0(cx)
    return collect_into(cx, s, ty)


@m0("FromIterator::from_iter")
def _(cx):
    ty = cx.ca.selfty
    return collect_into(cx, seq0(cx), ty)


@m0("ExactSizeIterator::len")
def _(cx):
    return length(seq0(cx))


@m0("Iterator::unzip")
def _(cx):
    s = seq0(cx)
    a = _map_elems(cx, s, lambda st, g, e: ([(T, field(e, 0))], st, g))
    b = _map_elems(cx, s, lambda st, g, e: ([(T, field(e, 1))], st, g))
    return tup(a, b)


@m0("Iterator::partition")
def _(cx):
    s = seq0(cx)
    f = cx.args[1]

    def mk(pos):
        def step(st, g, e):
            v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
            c = tobool(v)
            return [(c if pos else neg(c), e)], s2, g2
        return step
    return tup(_map_elems(cx, s, mk(True)), _map_elems(cx, s, mk(False)))


# ------------------------------------------------------------------ Vec / slices / strings
@m0("vec::from_elem")
def _(cx):
    x, n = cx.val(0), cx.val(1)
    if n.k == "int":
        return repeat(x, n.a[0])
    src = mkv("range", Int(0), n)
    return mkv("seq", EMPTY, comp(T, src, mkv("b", src, 0), op(T, "push", x)))


@m0("Vec::new Vec::with_capacity String::new String::with_capacity VecDeque::new")
def _(cx):
    return mkv("seq", EMPTY)


@m0("BTreeMap::new HashMap::new HashMap::with_capacity BTreeSet::new HashSet::new HashSet::with_capacity IndexMap::new")
def _(cx):
    return mkv("newmap", cx.ca.selfshort)


@m0("Vec::push VecDeque::push_back String::push")
def _(cx):
    x = cx.args[1]
    if cx.tys and cx.tys[0] is not None and collkind(cx.tys[0]) == "String" and x.k == "int":
        cx.update(0, lambda v: chars(x) if v.k == "seq" and len(v.a) == 1 else cat(v, chars(x)))
        return UNIT
    cx.update(0, lambda v: log(v, [op(T, "push", x)]))
    return UNIT


def byteslike(v):
    return v.k in ("bytes", "cat") or (v.k == "app")


@m0("Vec::extend_from_slice Extend::extend Vec::append String::push_str")
def _(cx):
    k = collkind(cx.tys[0]) if cx.tys and cx.tys[0] is not None else ""
    ety = None
    if cx.tys and cx.tys[0] is not None:
        t = cx.tys[0].strip()
        ety = t.args[0] if t.args else None
    src = cx.val(1)
    if cx.tys and len(cx.tys) > 1 and cx.tys[1] is not None and collkind(cx.tys[1]) == "Option":
        src = It(seq0(cx, 1))
    if cx.ca.item == "append":
        d = mkv("seq", EMPTY)
        cx.update(1, lambda v: d)
    if ety is not None and ety.k == "uint" and ety.w == 8 or k == "String":
        def f(v):
            if v.k == "seq" and len(v.a) == 1:
                return src if src.k != "iter" else src.a[0]
            return cat(v, src)
        cx.update(0, f)
        return UNIT
    if k in ("BTreeMap", "HashMap", "IndexMap"):
        s = map_seq(cx, src) if src.k not in ("iter",) else src.a[0]
        ops = [push_to_insert(o, True) for o in segments(s)]
    elif k in ("BTreeSet", "HashSet"):
        ops = [push_to_insert(o, False) for o in segments(to_seq(cx.e, src))]
    else:
        ops = segments(to_seq(cx.e, src))
    cx.update(0, lambda v: log(v, ops))
    return UNIT


@m0("String::add")
def _(cx):
    v, w = cx.val(0), cx.val(1)
    return w if v.k == "seq" and len(v.a) == 1 else cat(v, w)


@m0("String::add_assign")
def _(cx):
    w = cx.val(1)
    cx.update(0, lambda v: w if v.k == "seq" and len(v.a) == 1 else cat(v, w))
    return UNIT


@m0("Vec::len slice::len str::len String::len Witness::len BTreeMap::len HashMap::len BTreeSet::len HashSet::len array::len Script::len VecDeque::len")
def _(cx):
    return length(cx.val(0))


@m0("Vec::is_empty slice::is_empty str::is_empty String::is_empty Witness::is_empty BTreeMap::is_empty HashMap::is_empty BTreeSet::is_empty HashSet::is_empty Script::is_empty ScriptBuf::is_empty VecDeque::is_empty")
def _(cx):
    return isempty(cx.val(0))


@m0("slice::first Vec::first")
def _(cx):
    v = cx.val(0)
    return ite(isempty(v), NONE, Some(index(v, Int(0))))


@m0("slice::last Vec::last Witness::last")
def _(cx):
    v = cx.val(0)
    return ite(isempty(v), NONE, Some(app("lastelem", v)))


def rng(x):
    """(lo, hi|None) of a range value"""
    nm = x.a[0].split("::")[-1] if x.k == "adt" else ""
    if nm == "Range":
        return x.a[2], x.a[3]
    if nm == "RangeFrom":
        return x.a[2], None
    if nm == "RangeTo":
        return Int(0), x.a[2]
    if nm == "RangeToInclusive":
        return Int(0), app("+", x.a[2], Int(1))
    if nm == "RangeInclusive":
        return x.a[2], app("+", x.a[3], Int(1))
    if nm == "RangeFull":
        return Int(0), None
    return None


def bounds_bad(v, lo, hi):
    """guard: range lo..hi is out of bounds for v"""
    L = length(v)
    r = F
    if hi is not None and hi.k == "app" and hi.a[0] == "+" and hi.a[1] is lo and window_at(lo, v, hi.a[2]) is not None:
        return F
    if hi is not None:
        r = lor(r, lt(L, hi), lt(hi, lo))
    else:
        r = lor(r, lt(L, lo))
    return r


SPKLEN = {"is_p2pkh": 25, "is_p2sh": 23, "is_p2wpkh": 22, "is_p2wsh": 34, "is_p2tr": 34}


def script_len(g, x):
    """length of a script whose form the path guard fixes"""
    if g is T or x.k == "ite":
        return None
    for a in atoms(g):
        if a.k == "app" and a.a[0] in SPKLEN and a.a[1] is x and land(g, node(a, T, F)) is g:
            return SPKLEN[a.a[0]]
    return None


def known_len(g, x):
    """length of x where the path guard fixes it"""
    if x.k == "ite" or g is F:
        return None
    if x.k == "it:take" and x.a[1].k == "int" and land(g, lt(length(x.a[0]), x.a[1])) is F:
        return x.a[1].a[0]
    L = length(x)
    if L.k == "int" or g is T:
        return L.a[0] if L.k == "int" else None
    for a in atoms(g):
        if a.k == "le" and a.a[0] is L:
            for c in (a.a[1], a.a[1] + 1):
                if land(g, neg(eqv(L, Int(c)))) is F:
                    return c
    return script_len(g, x)


def known_cases(v):
    """the cases of a list value, each as the collection it is a plain copy of when it is one"""
    cases = []
    for gd, x in leaves(v):
        al = alternatives(x) if x.k == "seq" else None
        cases += [(land(gd, g2), plain_source(y) or y) for g2, y in al] if al is not None else [(gd, (plain_source(x) if x.k == "seq" else None) or x)]
    return cases


def slice_rest(g, v, lo):
    """v[lo..]"""
    out = None
    for gd, x in known_cases(v):
        n = known_len(land(g, gd), x)
        y = slice_(x, lo, Int(n) if n is not None else None)
        out = y if out is None else ite(gd, y, out)
    return out


@m0("Index::index")
def _(cx):
    v = cx.val(0)
    i = cx.val(1)
    k = collkind(cx.tys[0])
    if k in ("BTreeMap", "HashMap"):
        cx.panic("index", neg(contains(v, i)), [v, i])
        return mapget(v, i, None)
    if i.k == "adt":
        r = rng(i)
        if r is not None:
            cx.panic("slice", bounds_bad(v, *r), [v, r[0], r[1] if r[1] is not None else mkv("end")])
            if r[1] is not None:
                return slice_(v, *r)
            return slice_rest(cx.g, v, r[0])
    cx.panic("index", neg(lt(i, length(v))), [v, i])
    return index(v, i)


@m0("IndexMut::index_mut")
def _(cx):
    from engine import PI, PR, ref
    i = cx.val(1)
    v = cx.val(0)
    out = None
    r = rng(i) if i.k == "adt" else None
    if r is not None:
        cx.panic("slice", bounds_bad(v, *r), [v, r[0], r[1] if r[1] is not None else mkv("end")])
    else:
        cx.panic("index", neg(lt(i, length(v))), [v, i])
    for lg, key, pr in reversed(cx.reflocs(0)):
        if key is None:
            x = app("index_mut", pr, i)
        elif r is not None:
            hi = r[1] if r[1] is not None else length(cx.e.getloc(cx.st, key, pr, cx.g))
            x = ref(key, pr + (PR(r[0], hi),))
        else:
            x = ref(key, pr + (PI(i),))
        out = x if out is None else ite(lg, x, out)
    return out


@m0("slice::copy_from_slice slice::clone_from_slice")
def _(cx):
    src = cx.val(1)
    dst = cx.val(0)
    cx.panic("copylen", neg(eqv(length(dst), length(src))), [dst, src])
    cx.update(0, lambda v: src)
    return UNIT


@m0("slice::get Vec::get str::get")
def _(cx):
    v = cx.val(0)
    i = cx.val(1)
    r = rng(i) if i.k == "adt" else None
    if r is not None:
        ok = neg(bounds_bad(v, *r))
        return ite(ok, Some(slice_(v, *r)), NONE)
    ok = lt(i, length(v))
    return ite(ok, Some(index(v, i)), NONE)


@m0("slice::get_mut Vec::get_mut slice::first_mut Vec::first_mut")
def _(cx):
    from engine import PI, PR, ref
    i = cx.val(1) if len(cx.args) > 1 else Int(0)
    out = None
    r = rng(i) if i.k == "adt" else None
    for lg, key, pr in reversed(cx.reflocs(0)):
        if key is None:
            x = app("get_mut", pr, i)
        else:
            v = cx.e.getloc(cx.st, key, pr, cx.g)
            if r is not None:
                ok = neg(bounds_bad(v, *r))
                hi = r[1] if r[1] is not None else length(v)
                x = ite(ok, Some(ref(key, pr + (PR(r[0], hi),))), NONE)
            else:
                x = ite(lt(i, length(v)), Some(ref(key, pr + (PI(i),))), NONE)
        out = x if out is None else ite(lg, x, out)
    return out


@m0("slice::split_first Vec::split_first")
def _(cx):
    v = cx.val(0)
    return ite(isempty(v), NONE, Some(tup(index(v, Int(0)), slice_(v, Int(1), None))))


@m0("slice::split_at")
def _(cx):
    v, i = cx.val(0), cx.val(1)
    cx.panic("slice", lt(length(v), i), [v, i])
    return tup(slice_(v, Int(0), i), slice_rest(cx.g, v, i))


@m0("slice::split_at_mut")
def _(cx):
    from engine import PR, ref
    i = cx.val(1)
    v = cx.val(0)
    cx.panic("slice", lt(length(v), i), [v, i])
    out = None
    for lg, key, pr in reversed(cx.reflocs(0)):
        if key is None:
            x = app("split_at_mut", pr, i)
        else:
            L = length(cx.e.getloc(cx.st, key, pr, cx.g))
            x = tup(ref(key, pr + (PR(Int(0), i),)), ref(key, pr + (PR(i, L),)))
        out = x if out is None else ite(lg, x, out)
    return out


@m0("slice::split_at_checked")
def _(cx):
    v, i = cx.val(0), cx.val(1)
    ok = neg(lt(length(v), i))
    return ite(ok, Some(tup(slice_(v, Int(0), i), slice_rest(land(cx.g, ok), v, i))), NONE)


@m0("slice::first_chunk")
def _(cx):
    v = cx.val(0)
    n = cx.retty.args[0].strip().n if cx.retty is not None else None
    if n is None:
        return None
    ok = neg(lt(length(v), Int(n)))
    return ite(ok, Some(slice_(v, Int(0), Int(n))), NONE)


@m0("slice::starts_with")
def _(cx):
    v, p = cx.val(0), cx.val(1)
    L = length(p)
    if L.k == "int":
        return land(neg(lt(length(v), L)), eqv(slice_(v, Int(0), L), p))
    return app("starts_with", v, p)


@m0("slice::concat array::concat Concat::concat")
def _(cx):
    v = cx.val(0)
    if v.k == "array":
        return cat(*v.a)
    if v.k == "seq" and all(o.k == "op" and o.a[0] is T for o in v.a[1:]):
        return cat(*[o.a[2] for o in v.a[1:]])
    return app("concat", v)


def seqop(name):
    def f(cx):
        xs = [cx.e.close(cx.val(i), cx.st, cx.g, cx.body) for i in range(1, len(cx.args))]
        old = cx.val(0)
        cx.update(0, lambda v: log(v, [op(T, name, *xs)]))
        return app("ret:" + name, old, *xs)
    return f


for _n in ("swap_remove", "remove", "insert", "pop", "clear", "truncate", "retain", "sort", "sort_by", "sort_by_key", "sort_unstable",
           "sort_unstable_by", "sort_unstable_by_key", "dedup", "reverse", "drain", "swap", "split_off", "resize", "fill", "dedup_by_key", "rotate_left"):
    MODELS.setdefault("Vec::" + _n, seqop(_n))
    MODELS.setdefault("slice::" + _n, seqop(_n))


_opaque_retain = MODELS["Vec::retain"]


@model("Vec::retain", "VecDeque::retain")
def _(cx):
    """the elements the test keeps, in their order"""
    old = cx.shallow(0)

    def plain(o):
        return o.k == "op" and o.a[1] == "push" or o.k == "cmp" and all(plain(x) for x in o.a[3:])
    locs = cx.reflocs(0)
    if len(locs) != 1 or locs[0][1] is None or any(lf.k == "log" or lf.k == "seq" and (lf.a[0] is not EMPTY or not all(plain(o) for o in lf.a[1:]))
                                                   for _, lf in leaves(old)):
        return _opaque_retain(cx)
    f = cx.args[1]

    def step(st, g, e):
        v, s2, g2 = cx.e.call_value(f, [e], st, g, cx.body, cx.span)
        return [(restrict(tobool(v), g2), e)], s2, g2
    new = _map_elems(cx, to_seq(cx.e, old), step)
    cx.e.setloc(cx.st, locs[0][1], locs[0][2], new, locs[0][0])
    return UNIT


def _removal(name):
    def f(cx):
        old = cx.val(0)
        i = cx.val(1)
        cx.panic("index", neg(lt(i, length(old))), [old, i])
        cx.update(0, lambda v: log(v, [op(T, "removeat", i)]))
        return index(old, i)
    return f


@m0("Vec::truncate")
def _(cx):
    n = cx.val(1)

    def one(v):
        s = to_seq(cx.e, v)
        return ite(neg(lt(n, length(v))), v, restrict_seq(s, "take", n))
    cx.update(0, lambda v: mapleaf(v, one))
    return UNIT


@m0("Vec::drain")
def _(cx):
    v = cx.val(0)
    r = rng(cx.val(1)) or (Int(0), None)
    lo, hi = r
    if rng(cx.val(1)) is not None:
        cx.panic("slice", bounds_bad(v, lo, hi), [v, lo, hi if hi is not None else mkv("end")])
    gone = slice_(v, lo, hi) if hi is not None else slice_rest(cx.g, v, lo)

    def one(x):
        s = to_seq(cx.e, x)
        kept = restrict_seq(s, "take", lo)
        return kept if hi is None else log(kept, segments(restrict_seq(s, "skip", hi)))
    cx.update(0, lambda x: mapleaf(x, one))
    return It(to_seq(cx.e, gone))


MODELS["Vec::swap_remove"] = _removal("swap_remove")
MODELS["Vec::remove"] = _removal("remove")


@m0("slice::reverse")
def _(cx):
    cx.update(0, lambda v: app("reversed", v))
    return UNIT


@m0("Vec::clear BTreeMap::clear HashMap::clear")
def _(cx):
    n = cx.ca.selfshort
    cx.update(0, lambda v: mkv("seq", EMPTY) if n == "Vec" else mkv("newmap", n))
    return UNIT


@m0("str::chars String::chars")
def _(cx):
    return It(opaque_seq(app("chars", cx.val(0))))


@m0("str::bytes")
def _(cx):
    return It(opaque_seq(cx.val(0)))


@m0("box_assume_init_into_vec_unsafe boxed::box_assume_init_into_vec_unsafe slice::into_vec")
def _(cx):
    def one(v):
        for _ in range(4):
            if v.k == "upd":
                d = dict(v.a[1:])
                if "value" in d:
                    v = d["value"]
                    continue
            break
        if v.k == "array":
            return log(EMPTY, [op(T, "push", x) for x in v.a])
        return v
    return mapleaf(cx.args[0], one)


# ------------------------------------------------------------------ maps
def writes_key(o, k):
    """condition under which operation o leaves key k present, None when it may remove keys"""
    if o.k == "op" and o.a[1] in ("insert", "at"):
        return land(o.a[0], eqv(o.a[2], k))
    if o.k == "cmp":
        r = F
        for x in o.a[3:]:
            c = writes_key(x, k)
            if c is None:
                return None
            r = lor(r, c)
        return land(o.a[0], anyof(o.a[1], o.a[2], r))
    return None


def pushes_under(o, k):
    """the pushes of operation o to the collection under key k, None when it does something else"""
    if o.k == "op" and o.a[1] == "at" and o.a[3] is EMPTY_SEQ and all(x.k == "op" and x.a[1] == "push" for x in o.a[4:]):
        return [guard_op(x, land(o.a[0], eqv(o.a[2], k))) for x in o.a[4:]]
    if o.k == "cmp":
        r = []
        for x in o.a[3:]:
            c = pushes_under(x, k)
            if c is None:
                return None
            r += c
        return [comp(o.a[0], o.a[1], o.a[2], *r)]
    return None


EMPTY_SEQ = mkv("seq", EMPTY)


def contains(v, k):
    def two(vk):
        x, kk = vk
        if x.k == "newmap":
            return F
        if x.k in ("log", "seq"):
            r = contains(x.a[0], kk) if x.a[0] is not EMPTY else F
            for o in x.a[1:]:
                c = writes_key(o, kk)
                if c is None:
                    return node(mkv("app", "contains", x, kk), T, F)
                r = lor(r, c)
            return r
        return node(mkv("app", "contains", x, kk), T, F)
    r = lift(two, [v, k])
    return r if r is not None else node(mkv("app", "contains", v, k), T, F)


core.CONTAINS.append(contains)


def getval(v, k):
    """Option of the value under k"""
    def two(vk):
        x, kk = vk
        if x.k == "newmap":
            return NONE
        if x.k == "log" and all(o.k == "op" and o.a[1] == "insert" for o in x.a[1:]):
            r = getval(x.a[0], kk)
            for o in x.a[1:]:
                r = ite(land(o.a[0], eqv(o.a[2], kk)), Some(o.a[3] if len(o.a) > 3 else UNIT), r)
            return r
        return ite(contains(x, kk), Some(grouped(x, kk) or mkv("app", "mapval", x, kk)), NONE)
    r = lift(two, [v, k])
    return r if r is not None else app("get", v, k)


@m0("BTreeMap::get HashMap::get IndexMap::get")
def _(cx):
    return getval(cx.val(0), cx.val(1))


@m0("BTreeMap::contains_key HashMap::contains_key BTreeSet::contains HashSet::contains")
def _(cx):
    return contains(cx.val(0), cx.val(1))


@m0("BTreeMap::get_key_value HashMap::get_key_value")
def _(cx):
    v, k = cx.val(0), cx.val(1)
    g = getval(v, k)
    return ite(is_some(g), Some(tup(k, unsome(g))), NONE)


@m0("BTreeMap::get_mut HashMap::get_mut")
def _(cx):
    from engine import PK, ref
    k = cx.val(1)
    out = None
    for lg, key, pr in reversed(cx.reflocs(0)):
        if key is None:
            x = app("get_mut", pr, k)
        else:
            v = cx.e.getloc(cx.st, key, pr, cx.g)
            x = ite(contains(v, k), Some(ref(key, pr + (PK(k, mkv("present")),))), NONE)
        out = x if out is None else ite(lg, x, out)
    return out


@m0("BTreeMap::insert HashMap::insert IndexMap::insert")
def _(cx):
    k, v = cx.val(1), cx.args[2]
    v = cx.e.deref_all(cx.st, v, cx.g)
    old = cx.val(0)
    cx.update(0, lambda m: log(m, [op(T, "insert", k, v)]))
    return getval(old, k)


@m0("BTreeSet::insert HashSet::insert")
def _(cx):
    k = cx.val(1)
    old = cx.val(0)
    cx.update(0, lambda m: log(m, [op(T, "insert", k)]))
    return neg(contains(old, k))


@m0("BTreeMap::remove HashMap::remove BTreeSet::remove HashSet::remove")
def _(cx):
    k = cx.val(1)
    old = cx.val(0)
    cx.update(0, lambda m: log(m, [op(T, "removekey", k)]))
    if cx.ca.selfshort.endswith("Set"):
        return contains(old, k)
    return getval(old, k)


@m0("BTreeMap::append")
def _(cx):
    src = cx.val(1)
    ops = [push_to_insert(o, True) for o in segments(map_seq(cx, src))]
    cx.update(0, lambda m: log(m, ops))
    d = mkv("newmap", "BTreeMap")
    cx.update(1, lambda m: d)
    return UNIT


@m0("BTreeMap::entry HashMap::entry")
def _(cx):
    k = cx.val(1)
    locs = cx.reflocs(0)
    return mkv("entry", cx.args[0] if cx.args[0].k == "ref" else cx.shallow(0), k)


def entry_place(e, st, g, v):
    """where the map of an entry is: (location, projections), or None"""
    m = v.a[0]
    n = 0
    while m.k == "ref" and n < 8:
        w = e.getloc(st, m.a[0], tuple(m.a[1:]), g)
        if w.k != "ref":
            break
        m = w
        n += 1
    return (m.a[0], tuple(m.a[1:])) if m.k == "ref" else None


def entry_taken(e, st, g, v):
    """guard: the key of the entry is in its map"""
    at = entry_place(e, st, g, v)
    return contains(e.getloc(st, at[0], at[1], g) if at else v.a[0], v.a[1])


def _entry_ref(cx, default):
    from engine import PK, ref
    e = cx.args[0]
    if e.k != "entry":
        return None
    m, k = e.a
    at = entry_place(cx.e, cx.st, cx.g, e)
    if at is None:
        return app("entry_ref", m, k, default)
    # make sure the key exists even if nothing is written through
    key, pr = at
    old = cx.e.getloc(cx.st, key, pr, cx.g)
    if default.k not in ("seq", "log", "newmap", "ite"):
        cx.e.setloc(cx.st, key, pr, mapleaf(old, lambda x: ite(contains(x, k), x, log(x, [op(T, "insert", k, default)]))))
        return ref(key, pr + (PK(k, mkv("present")),))
    new = mapleaf(old, lambda x: log(x, [op(T, "at", k, default)]))
    cx.e.setloc(cx.st, key, pr, new)
    return ref(key, pr + (PK(k, default),))


def _entry_at(cx):
    """the reference to the value of an entry whose key is in its map"""
    from engine import PK, ref
    e = cx.args[0] if cx.args[0].k == "entry" else cx.shallow(0)
    if e.k != "entry":
        return None
    at = entry_place(cx.e, cx.st, cx.g, e)
    return ref(at[0], at[1] + (PK(e.a[1], mkv("present")),)) if at is not None else None


@m0("VacantEntry::insert")
def _(cx):
    e = cx.args[0]
    at = entry_place(cx.e, cx.st, cx.g, e) if e.k == "entry" else None
    if at is None:
        return None
    v = cx.val(1)
    old = cx.e.getloc(cx.st, at[0], at[1], cx.g)
    cx.e.setloc(cx.st, at[0], at[1], mapleaf(old, lambda x: log(x, [op(T, "insert", e.a[1], v)])))
    return _entry_at(cx)


@m0("OccupiedEntry::get OccupiedEntry::get_mut OccupiedEntry::into_mut")
def _(cx):
    return _entry_at(cx)


@m0("OccupiedEntry::insert")
def _(cx):
    r = _entry_at(cx)
    if r is None:
        return None
    v = cx.val(1)
    old = cx.e.getloc(cx.st, r.a[0], tuple(r.a[1:]), cx.g)
    cx.e.setloc(cx.st, r.a[0], tuple(r.a[1:]), v)
    return old


@m0("VacantEntry::key VacantEntry::into_key OccupiedEntry::key Entry::key")
def _(cx):
    e = cx.args[0] if cx.args[0].k == "entry" else cx.shallow(0)
    return e.a[1] if e.k == "entry" else None


@m0("OccupiedEntry::remove")
def _(cx):
    r = _entry_at(cx)
    if r is None:
        return None
    v = cx.e.getloc(cx.st, r.a[0], tuple(r.a[1:]), cx.g)
    k = cx.args[0].a[1] if cx.args[0].k == "entry" else cx.shallow(0).a[1]
    key, pr = r.a[0], tuple(r.a[1:-1])
    old = cx.e.getloc(cx.st, key, pr, cx.g)
    cx.e.setloc(cx.st, key, pr, mapleaf(old, lambda m: log(m, [op(T, "removekey", k)])))
    return v


@m0("Entry::or_default")
def _(cx):
    t = cx.retty.args[0] if cx.retty is not None and cx.retty.args else None
    return _entry_ref(cx, default_of(t, cx.e, cx))


@m0("Entry::or_insert")
def _(cx):
    return _entry_ref(cx, cx.val(1))


@m0("Entry::or_insert_with Entry::or_insert_with_key")
def _(cx):
    e = cx.args[0]
    if e.k != "entry":
        return None
    v = cx.call_under(neg(entry_taken(cx.e, cx.st, cx.g, e)), cx.args[1], [e.a[1]] if cx.ca.item == "or_insert_with_key" else [])
    return _entry_ref(cx, v)


@m0("Entry::and_modify")
def _(cx):
    r = _entry_at(cx)
    if r is None:
        return None
    cx.call_under(entry_taken(cx.e, cx.st, cx.g, cx.args[0]), cx.args[1], [r])
    return cx.args[0]


# ------------------------------------------------------------------ bytes of integers and hashes
for _t, _n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("u128", 16), ("i32", 4), ("i64", 8)):
    def _mkb(n):
        def le(cx):
            v = cx.val(0)
            return _intbytes(v, n, "little")

        def be(cx):
            v = cx.val(0)
            return _intbytes(v, n, "big")
        return le, be
    _l, _b = _mkb(_n)
    MODELS["%s::to_le_bytes" % _t] = _l
    MODELS["%s::to_be_bytes" % _t] = _b
    MODELS["%s::to_ne_bytes" % _t] = _l
    if _t[0] == "i":
        continue
    MODELS["%s::from_be_bytes" % _t] = lambda cx, n=_n: frombytes(cx.val(0), n, "be")
    MODELS["%s::from_le_bytes" % _t] = lambda cx, n=_n: frombytes(cx.val(0), n, "le")
    MODELS["%s::swap_bytes" % _t] = lambda cx, n=_n: frombytes(_intbytes(cx.val(0), n, "little"), n, "be")
    MODELS["%s::to_be" % _t] = MODELS["%s::swap_bytes" % _t]
    MODELS["%s::from_be" % _t] = MODELS["%s::swap_bytes" % _t]


def frombytes(v, n, order):
    """the number whose bytes are v"""
    def one(x):
        if x.k == "app" and x.a[0] == order + str(n):
            return x.a[1]
        if x.k == "bytes" and len(x.a[0]) == n:
            return Int(int.from_bytes(x.a[0], "big" if order == "be" else "little"))
        return mkv("app", "un" + order + str(n), x)
    return mapleaf(v, one)


def _intbytes(v, n, order):
    def one(x):
        if x.k == "int":
            return Bytes(x.a[0].to_bytes(n, order))
        if x.k == "app" and x.a[0] == "un" + ("le" if order == "little" else "be") + str(n):
            return x.a[1]
        return mkv("app", ("le" if order == "little" else "be") + str(n), x)
    return mapleaf(v, one)


def hashbytes(cx):
    def one(x):
        if x.k == "app" and x.a[0] == "hashnew":
            return x.a[1]
        if x.k == "app" and x.a[0] in ("H", "hash160", "hashbytes32"):
            return x
        return mkv("app", "hashbytes32", x)
    return mapleaf(cx.val(0), one)


# ------------------------------------------------------------------ (tagged) hash transcripts
def heng(mid, data):
    if data.k == "ite":
        return mapleaf(data, lambda d: mkv("heng", mid, d))
    return mkv("heng", mid, data)


core.REBUILD["heng"] = lambda args: heng(*args)


def hinput(e, data):
    def one(x):
        if x.k == "heng":
            return heng(x.a[0], cat(x.a[1], data))
        return log(x, [op(T, "HashEngine::input", data)])
    return mapleaf(e, one)


def hfinish(e):
    def one(x):
        if x.k == "heng":
            r = mkv("app", "H", x.a[0], x.a[1])
            core.ARRLEN[r] = 32
            return r
        return mkv("app", "Hash::from_engine", x)
    return mapleaf(e, one)


def hengine(cx):
    ty = cx.ca.selfty
    for t in ([cx.ca.resself] if cx.ca.resself is not None else []) + ([ty] if ty is not None else []):
        if t.k == "adt" and t.p.endswith("sha256t::Hash") and t.args:
            b = cx.e.p.find_trait_impl("bitcoin_hashes::sha256t::Tag", "engine", t.args[0])
            if b is not None:
                r, st, g = cx.e.exec_fn(b, [], cx.st, cx.g)
                cx.st, cx.g = st, g
                return r
        if t.k == "adt" and t.p.startswith("bitcoin_hashes::"):
            return heng(named(re.sub("bitcoin_hashes::", "", t.s.split("bitcoin_hashes::")[-1])), Bytes(b""))
    return None


MODELS["Hash::engine"] = hengine
MODELS["sha256::Hash::engine"] = hengine


@m0("HashEngine::from_midstate")
def _(cx):
    return heng(tup(cx.val(0), cx.val(1)), Bytes(b""))


@m0("HashEngine::input")
def _(cx):
    data = asbytes(cx.val(1))
    for lg, key, pr in cx.reflocs(0):
        old = cx.e.getloc(cx.st, key, pr, cx.g)
        new = mapleaf(data, lambda d: hinput(old, d)) if data.k == "ite" else hinput(old, data)
        cx.e.setloc(cx.st, key, pr, new, lg)
    return UNIT


@m0("Hash::from_engine")
def _(cx):
    return hfinish(cx.val(0))


@m0("Hash::hash")
def _(cx):
    d = asbytes(cx.val(0))
    if cx.ca.selfty is not None:
        b1 = cx.e.p.find_trait_impl("bitcoin_hashes::Hash", "engine", cx.ca.selfty)
        b2 = cx.e.p.find_trait_impl("bitcoin_hashes::Hash", "from_engine", cx.ca.selfty)
        if b1 is not None and b2 is not None:
            e, st, g = cx.e.exec_fn(b1, [], cx.st, cx.g)
            r, cx.st, cx.g = cx.e.exec_fn(b2, [mapleaf(d, lambda x: hinput(e, x))], st, g)
            return r
    e = hengine(cx)
    if e is None:
        return None
    return mapleaf(d, lambda x: hfinish(hinput(e, x)))


def asbytes(v):
    """byte arrays written as element lists become one concatenation"""
    def one(x):
        if x.k == "array" and len(x.a) > 0:
            return x
        return x
    return mapleaf(v, one)


for _n in ("Hash::as_byte_array", "Hash::to_byte_array", "Txid::as_byte_array", "Txid::to_byte_array"):
    MODELS[_n] = hashbytes


@valmodel("Txid::to_raw_hash")
def _(cx, v):
    return v


@valmodel("Amount::from_sat")
def _(cx, v):
    return app("sat", v)


@valmodel("Amount::to_sat")
def _(cx, v):
    return mapleaf(v, lambda x: x.a[1] if x.k == "app" and x.a[0] == "sat" else mkv("app", "to_sat", x))


# numeric helpers
for _t in ("usize", "u8", "u16", "u32", "u64", "i32", "i64"):
    def _mkn(t):
        w = {"usize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "i32": 32, "i64": 64}[t]
        MODELS[t + "::saturating_sub"] = lambda cx: app("satsub", cx.val(0), cx.val(1))
        MODELS[t + "::saturating_add"] = lambda cx: app("+", cx.val(0), cx.val(1))
        MODELS[t + "::wrapping_add"] = lambda cx: app("+", cx.val(0), cx.val(1))
        MODELS[t + "::wrapping_sub"] = lambda cx: ite(lt(cx.val(0), cx.val(1)), app("wrap-", cx.val(0), cx.val(1)), app("-", cx.val(0), cx.val(1)))

        def cadd(cx):
            a, b = cx.val(0), cx.val(1)
            ov = node(mkv("ovf", "+", *sorted((a, b), key=lambda x: x.id)), T, F) if not (a.k == "int" and b.k == "int") else F
            return ite(ov, NONE, Some(app("+", a, b)))
        MODELS[t + "::checked_add"] = cadd

        def csub(cx):
            a, b = cx.val(0), cx.val(1)
            return ite(lt(a, b), NONE, Some(app("-", a, b)))
        MODELS[t + "::checked_sub"] = csub
    _mkn(_t)


@m0("RangeInclusive::new")
def _(cx):
    return mkv("adt", "core::ops::range::RangeInclusive", 0, cx.args[0], cx.args[1])


@m0("RangeInclusive::contains Range::contains")
def _(cx):
    r = rng(cx.val(0))
    x = cx.val(1)
    if r is None:
        return None
    lo, hi = r
    g = neg(lt(x, lo))
    if hi is not None:
        g = land(g, lt(x, hi))
    return g


# ------------------------------------------------------------------ async
# the messages a channel delivers, or the items a stream yields, are the elements of a sequence
ASYNC_NEXT = ("UnboundedReceiver::recv", "Receiver::recv", "StreamExt::next")


@m0(" ".join(ASYNC_NEXT))
def _(cx):
    return mkv("nextfut", cx.args[0])


@m0("stream::iter iter::iter")
def _(cx):
    return It(to_seq(cx.e, cx.val(0)))


@m0("StreamExt::buffer_unordered StreamExt::buffered")
def _(cx):
    def aw(o):
        if o.k == "cmp":
            return comp(o.a[0], o.a[1], o.a[2], *[aw(x) for x in o.a[3:]])
        return op(o.a[0], "push", mapleaf(o.a[2], lambda x: mkv("awaited", x)))
    return It(mapleaf(seq0(cx), lambda s: mkv("seq", EMPTY, *[aw(o) for o in s.a[1:]])))


def next_item(cx, r):
    """the next element of the iterator r refers to, awaited when the stream was told to"""
    from engine import Ctx
    c2 = Ctx(cx.e, cx.ca, [r], [None], None, cx.body, cx.st, cx.g, cx.span)
    v = iter_next(c2)
    cx.st, cx.g = c2.st, c2.g

    def one(x):
        if x.k == "adt" and len(x.a) == 3 and any(y.k == "awaited" for _, y in leaves(x.a[2])):
            def run(y):
                b = cx.e.p.bodies.get(y.a[0].a[0]) if y.k == "awaited" and y.a[0].k == "coroutine" else None
                if b is None:
                    return mkv("app", "await", y.a[0]) if y.k == "awaited" else y
                r, cx.st, cx.g = cx.e.exec_fn(b, [y.a[0], mkv("resume")][:b.argc], cx.st, cx.g)
                return r
            return mkv("adt", x.a[0], x.a[1], mapleaf(x.a[2], run))
        return x
    return mapleaf(v, one)


@m0("Future::poll")
def _(cx):
    v = cx.shallow(0)
    if v.k == "nextfut":
        return adt(POLL, 0, next_item(cx, v.a[0]))

    def one_eval(x):
        return x
    if len(leaves(v)) == 1 and v.k == "coroutine":
        b = cx.e.p.bodies.get(v.a[0])
        if b is not None:
            r, st, g = cx.e.exec_fn(b, [v, mkv("resume")][:b.argc], cx.st, cx.g)
            cx.st, cx.g = st, g
            return adt(POLL, 0, r)
    v = cx.e.deref_all(cx.st, v, cx.g)
    if not cx.e.quiet:
        cx.e.calls.append(dict(guard=cx.g, name="await", args=[v], span=cx.span, fn=cx.body.path, ca=cx.ca,
                               loops=list(cx.e.loopctx), stack=[b.path for b in cx.e.stack]))
    return adt(POLL, 0, mkv("app", "await", v))


@m0("future::get_context")
def _(cx):
    return mkv("named", "task")


# ------------------------------------------------------------------ tracing noise
@m0("__macro_support::__is_enabled Interest::is_never LevelFilter::current DefaultCallsite::interest")
def _(cx):
    if cx.ca.cname.endswith("is_never"):
        return T
    return F if cx.ca.cname.endswith("is_enabled") else mkv("named", "tracing")


# ------------------------------------------------------------------ panics with conditions
@m0("panicking::assert_failed")
def _(cx):
    return None

import crypto  # noqa: registers the key algebra


MODELS["StreamExt::map"] = MODELS["Iterator::map"]
MODELS["StreamExt::enumerate"] = MODELS["Iterator::enumerate"]


# ---------------------------------------------------------------- serde: what a format hands to a visitor
VISITOR = ("serde_core::de::Visitor", "serde::de::Visitor")


def visited(cx, item, v, vty, arg):
    """the visitor's own method on what the format delivers"""
    if vty is None:
        return None
    for t in VISITOR:
        b = cx.e.p.find_trait_impl(t, item, vty)
        if b is not None:
            r, _, g = cx.e.exec_fn(b, [v, arg], cx.st.copy(), cx.g)
            return r
    return None


@m0("Deserializer::deserialize_tuple Deserializer::deserialize_struct Deserializer::deserialize_seq Deserializer::deserialize_tuple_struct Deserializer::deserialize_bytes Deserializer::deserialize_byte_buf")
def _(cx):
    vty = next((a for a in reversed(cx.ca.args) if isinstance(a, Ty)), None)
    n = cx.ca.item
    d = cx.e.close(cx.val(0), cx.st, cx.g, cx.body)
    shape = [cx.e.close(cx.val(i), cx.st, cx.g, cx.body) for i in range(1, len(cx.args) - 1)]
    v = cx.args[-1]
    if "byte" not in n:
        return visited(cx, "visit_seq", v, vty, mkv("app", n, d, *shape))
    binary = node(mkv("app", "has_byte_strings", d), T, F)
    r = []
    for item, arg in (("visit_bytes", mkv("app", "byte_string", d)), ("visit_seq", mkv("app", "elements", d))):
        q = visited(cx, item, v, vty, arg)
        r.append(mkv("adt", RES, 1, mkv("app", "wrong_type", d, Bytes(item.encode()))) if q is None else q)
    return ite(binary, *r)


# ---- text ----------------------------------------------------------------------------------------------------------

def stringlike(ty):
    return ty is not None and collkind(ty) in ("str", "String")


def chars(x):
    """a character as text"""
    if x.k == "int":
        return Bytes(chr(x.a[0]).encode())
    return app("char::text", x)


@m0("Argument::new_display")
def _(cx):
    return app("Argument::new_display", cx.val(0) if stringlike(cx.tys[0]) else app("display", cx.val(0)))


@m0("ToString::to_string")
def _(cx):
    v = cx.val(0)
    return v if stringlike(cx.tys[0]) else app("display", v)


@m0("Formatter::write_fmt")
def _(cx):
    t = formatted(cx.val(1))
    if t is None:
        return None
    old = cx.val(0)
    cx.update(0, lambda v: log(v, [op(T, "Formatter::write_str", t)]))
    return app("Formatter::write_str", old, t)


@m0("fmt::format")
def _(cx):
    a = cx.val(0)
    t = formatted(a)
    return app("fmt::format", a) if t is None else t


def formatted(a):
    """the text of format_args!(..) with plain placeholders only; None when it has others"""
    if a.k == "app" and a.a[0] in ("Arguments::from_str", "Arguments::from_str_nonconst") and len(a.a) == 2:
        return a.a[1]
    if not (a.k == "app" and a.a[0] == "Arguments::new" and a.a[1].k == "bytes" and a.a[2].k == "array"):
        return None
    tpl, args, i, out, n = a.a[1].a[0], a.a[2].a, 0, [], 0
    while True:
        c = tpl[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(Bytes(tpl[i:i + c]))
            i += c
        elif c == 0x80:
            L = tpl[i] + 256 * tpl[i + 1]
            out.append(Bytes(tpl[i + 2:i + 2 + L]))
            i += 2 + L
        elif c & ~8 == 0xC0:
            if c & 8:
                n = tpl[i] + 256 * tpl[i + 1]
                i += 2
            x = args[n]
            n += 1
            if not (x.k == "app" and x.a[0] == "Argument::new_display"):
                return None
            out.append(x.a[1])
        else:
            return None
    return cat(*out)
