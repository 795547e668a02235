"""The exported program: types, bodies, impls, call graph facts."""
import re
from core import *
import core


SHORT = {"bitcoin::crypto::key::PublicKey": "BtcPublicKey"}


class Ty:
    __slots__ = ("s", "k", "p", "args", "w", "n", "m", "np")

    def short(self):
        k = self.k
        if k == "adt":
            return SHORT.get(self.p) or self.p.split("::")[-1]
        if k in ("ref", "ptr"):
            return self.args[0].short()
        if k == "slice":
            return "[%s]" % self.args[0].short()
        if k == "array":
            return "[%s;%s]" % (self.args[0].short(), self.n if self.np is None else self.np)
        if k == "tuple":
            return "(%s)" % ",".join(a.short() for a in self.args)
        if k == "closure":
            return "closure"
        if k == "param":
            return self.p
        return re.sub(r"[A-Za-z0-9_]+::", "", self.s)

    def long(self, full=False):
        """short (or full) name with generic arguments"""
        k = self.k
        if k == "adt":
            b = self.p if full else SHORT.get(self.p) or self.p.split("::")[-1]
            a = [x.long(full) for x in self.args if not (x.k == "adt" and x.p.endswith("::Global"))]
            return b + ("<%s>" % ",".join(a) if a else "")
        if k in ("ref", "ptr"):
            return "&" + ("mut " if self.m else "") + self.args[0].long(full)
        if k == "slice":
            return "[%s]" % self.args[0].long(full)
        if k == "array":
            return "[%s;%s]" % (self.args[0].long(full), self.n if self.np is None else self.np)
        if k == "tuple":
            return "(%s)" % ",".join(a.long(full) for a in self.args)
        if k == "param":
            return self.p
        return re.sub(r"[A-Za-z0-9_]+::", "", self.s)

    def strip(self):
        t = self
        while t.k in ("ref", "ptr") or (t.k == "adt" and t.p.split("::")[-1] in ("Box", "Rc", "Arc", "Cow")):
            if t.k == "adt":
                t = t.args[0]
            else:
                t = t.args[0]
        return t

    def __repr__(self):
        return self.s


def unify(pat, t, sub):
    """does the impl type `pat` (with generic parameters) cover `t`"""
    if pat.k == "param":
        if t.k == "param" and pat.p == t.p:
            return True
        o = sub.get(pat.p)
        if o is not None:
            return o.long() == t.long()
        sub[pat.p] = t
        return True
    if pat.k == "array" and pat.np is not None and t.k == "array":
        n = sub.setdefault(cparam(pat.np), t.n if t.n is not None else t.np)
        return n == (t.n if t.n is not None else t.np) and unify(pat.args[0], t.args[0], sub)
    if pat.k != t.k or pat.m != t.m or pat.w != t.w or pat.n != t.n:
        return False
    if pat.k == "adt":
        if pat.p != t.p:
            return False
    elif not pat.args:
        return pat.s == t.s
    pa, ta = list(pat.args), list(t.args)
    return len(pa) == len(ta) and all(unify(x, y, sub) for x, y in zip(pa, ta))


def cparam(s):
    """the name of the const parameter a constant is"""
    return s.split("/#")[0]


def cvalue(a, sub=None):
    """the number a const argument is (None where it is not known)"""
    if isinstance(a, str):
        if sub and isinstance(sub.get(cparam(a)), int):
            return sub[cparam(a)]
        m = re.match(r"(\d+)_[ui](8|16|32|64|128|size)$", a)
        if m:
            return int(m.group(1))
        if a in ("true", "false"):
            return int(a == "true")
    return None


def has_param(t):
    return t.k == "param" or t.np is not None or any(has_param(a) for a in t.args)


def subst_ty(t, sub):
    """the type with its parameters replaced"""
    if t.k == "param":
        return sub.get(t.p, t)
    if not t.args or not has_param(t):
        return t
    r = Ty()
    r.s, r.k, r.p, r.w, r.n, r.m, r.np = t.s, t.k, t.p, t.w, t.n, t.m, t.np
    if t.np is not None and isinstance(sub.get(cparam(t.np)), int):
        r.n, r.np = sub[cparam(t.np)], None
    r.args = [subst_ty(a, sub) for a in t.args]
    return r


class Body:
    pass


class Types:
    """a type table seen through a substitution of type parameters"""

    def __init__(self, T_, sub):
        self.T_, self.sub, self.seen = T_, sub, {}

    def __getitem__(self, i):
        r = self.seen.get(i)
        if r is None:
            r = self.seen[i] = subst_ty(self.T_[i], self.sub)
        return r


def calls_of(b):
    """the function references of the calls a body makes"""
    for bl in b.blocks:
        for f in fnrefs(bl["t"]):
            yield f
        for s in bl["s"]:
            for f in fnrefs(s):
                yield f


def fnrefs(x):
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict):
            yield x["fn"]
        for k, y in x.items():
            if k != "fn":
                for f in fnrefs(y):
                    yield f
    elif isinstance(x, list):
        for y in x:
            for f in fnrefs(y):
                yield f


class Program:
    def __init__(self, crates):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.ty_by_s = {}
        self.from_impls = {}
        self.trait_impls = {}
        self.crates = list(crates)
        for c, d in crates.items():
            self._load(c, d)
        for p, a in self.adts.items():
            if a is None:
                continue
            if a["kind"] == "struct":
                core.STRUCTS.add(p)
                n = len(a["v"][0]["f"])
                if a.get("local") and not a.get("vis") and n and p.split("::")[0] != "sp_spec":
                    core.PLAIN[p] = None if n == 1 else tuple(range(n))
            if a["kind"] == "enum":
                core.NVARIANTS[p] = len(a["v"])
            for i, v in enumerate(a["v"]):
                core.FIELDNAMES[(p, i)] = [int(f["n"]) if f["n"].isdigit() else f["n"] for f in v["f"]]
                core.VNAMES[(p, i)] = v["n"]
                if v["f"] and all(f["n"].isdigit() for f in v["f"]):
                    core.CTORS[p if a["kind"] == "struct" else p + "::" + v["n"]] = (p, i)
        self._disp, self._closures = {}, {}
        for b in self.bodies.values():
            self._index(b)
            if b.kind != "fn" and b.parent:
                self._closures.setdefault(b.parent, []).append(b)

    def _load(self, c, d):
        T_ = []
        for t in d["types"]:
            x = Ty()
            T_.append(x)
        for t, x in zip(d["types"], T_):
            s = t["s"].replace("crate::", c + "::")
            x.s = s
            x.k = t["k"]
            x.p = t.get("p", "")
            x.args = [T_[i] for i in t.get("a", [])]
            x.w = t.get("w")
            x.n = t.get("n")
            x.np = t.get("np")
            x.m = t.get("m", False)
        for p, a in d["adts"]:
            if p not in self.adts or (a and a.get("local")):
                if a:
                    for v in a["v"]:
                        for f in v["f"]:
                            if "ty" in f:
                                f["ty"] = T_[f["ty"]]
                self.adts[p] = a
        for im in d["impls"]:
            im = dict(im)
            im["self"] = T_[im["self"]]
            im["crate"] = c
            self.impls.append(im)
        for b in d["bodies"]:
            o = Body()
            o.path = b["path"]
            o.crate = c
            o.T = T_
            o.kind = b["kind"]
            o.span = b["span"]
            o.argc = b["argc"]
            o.ret = T_[b["ret"]]
            o.locals = [T_[l["ty"]] for l in b["locals"]]
            o.names = [l.get("n") for l in b["locals"]]
            o.upvars = b["upvars"]
            o.blocks = b["blocks"]
            o.pub = b.get("pub", False)
            o.is_async = b.get("async", False)
            o.name = b.get("name", b["path"])
            o.generics = b.get("generics", [])
            o.parent = b.get("parent")
            o.dk = b.get("dk")
            o.spread = b.get("spread")
            o.implself = T_[b["implself"]] if "implself" in b else None
            o.impltrait = b.get("impltrait")
            o.implargs = [T_[i] if isinstance(i, int) else i for i in b.get("implargs", [])]
            o.derived = b.get("derived", False)
            o.cfg = None
            o.sub = None
            self.bodies[o.path] = o

    def _index(self, b):
        if b.kind == "fn" and b.impltrait:
            item = b.path.split("::")[-1]
            st = b.implself.strip() if b.implself.k != "param" else b.implself
            targ = tuple(a for a in b.implargs[1:] if isinstance(a, Ty))
            self.trait_impls.setdefault((b.impltrait, item), []).append((b.implself, targ, b))

    def find_trait_const(self, trait, item, selfty):
        for im in self.impls:
            if im.get("trait") == trait and unify(im["self"], selfty, {}):
                for x in im["items"]:
                    if x.endswith("::" + item):
                        return self.bodies.get(x)
        return None

    def find_trait_impl(self, trait, item, selfty, targs=None):
        for st, ta, b in self.trait_impls.get((trait, item), []):
            sub = {}
            if not unify(st, selfty, sub):
                continue
            if targs is not None:
                if len(targs) != len(ta) or not all(unify(x, y, sub) for x, y in zip(ta, targs)):
                    continue
            return b
        return None

    # ------------------------------------------------------------ functions at concrete types
    def dispatches(self, b, seen=None):
        """does b, or a local function it passes its type parameters on to, call a function of a trait that a
        type parameter decides?"""
        r = self._disp.get(b.path)
        if r is not None:
            return r
        seen = seen or set()
        if b.path in seen:
            return False
        seen.add(b.path)
        r = False
        for f in calls_of(b):
            if f.get("trait") and "res" not in f and "self" in f and has_param(b.T[f["self"]]):
                r = True
                break
            d = self.bodies.get(f.get("res") or f["def"])
            a = f.get("resargs", []) if "res" in f else f["args"]
            if d is not None and d.kind == "fn" and any(isinstance(x, str) and "/#" in x for x in a):
                r = True
                break
            if d is not None and d.kind == "fn" and any(isinstance(x, int) and has_param(b.T[x]) for x in a) and self.dispatches(d, seen):
                r = True
                break
        if not r:
            r = any(self.dispatches(c, seen) for c in self._closures.get(b.path, ()))
        self._disp[b.path] = r
        return r

    def at_types(self, b, tys):
        """b with its type parameters replaced by the given types, where that decides which functions it calls"""
        if not b.generics or len(tys) != len(b.generics):
            return b
        sub = {n: t for n, t in zip(b.generics, tys) if isinstance(t, Ty) and t.k not in ("param", "closure", "alias", "proj", "other", "fndef")}
        nums = {n: cvalue(t) for n, t in zip(b.generics, tys) if cvalue(t) is not None}
        sub.update(nums)
        if not sub or not nums and not self.dispatches(b):
            return b
        return self.specialised(b, sub)

    def specialised(self, b, sub):
        key = ",".join("%s=%s" % (n, sub[n].long(True) if isinstance(sub[n], Ty) else sub[n]) for n in sorted(sub))
        at = b.path + "@" + key
        o = self.bodies.get(at)
        if o is None:
            o = Body()
            o.__dict__.update(b.__dict__)
            o.sub, o.subkey, o.cfg = sub, key, None
            o.T = Types(b.T, sub)
            o.locals = [subst_ty(t, sub) for t in b.locals]
            o.ret = subst_ty(b.ret, sub)
            self.bodies[at] = o
            o.kind = b.kind if b.kind != "fn" else "fn@"
        return o

    def closure_in(self, body, path):
        """the name of a closure written in body"""
        if body.sub:
            b = self.bodies.get(path)
            if b is not None:
                self.specialised(b, body.sub)
                return path + "@" + body.subkey
        return path

    # human names -------------------------------------------------
    def fn(self, suffix):
        """unique fn body by human name, e.g. 'bdk_sp::receive::scan_txouts' or 'LexMin::update'"""
        c = self.fns(suffix)
        if len(c) == 1:
            return c[0]
        return None

    def fns(self, suffix):
        out = []
        for b in self.bodies.values():
            if b.kind != "fn":
                continue
            if b.path == suffix or human(b) == suffix or b.path.endswith("::" + suffix) or human(b).endswith("::" + suffix):
                out.append(b)
        ex = [b for b in out if human(b) == suffix or b.path == suffix]
        return ex or out


def human(b):
    """crate::Type::method  /  crate::module::function / <Type as Trait>::method"""
    item = b.path.split("::")[-1]
    if b.implself is not None:
        t = b.implself.strip()
        ty = t.p.split("::")[-1] if t.k == "adt" else t.long()
        if b.impltrait:
            tr = b.impltrait.split("::")[-1]
            ta = [a.long() for a in b.implargs[1:] if isinstance(a, Ty)]
            return "%s::<%s as %s%s>::%s" % (b.crate, ty, tr, "<%s>" % ",".join(ta) if ta else "", item)
        return "%s::%s::%s" % (b.crate, ty, item)
    return b.path
