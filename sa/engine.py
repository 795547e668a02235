"""Gated value-flow evaluation of MIR bodies.

Every body is traversed once per call context in reverse post order; the state maps memory
locations to values of core.V, joins build guarded values (no path enumeration, no solver), natural
loops are summarised (comprehensions, counters, folds), local callees and closures are inlined,
foreign callees are pure applications or operations logged on the objects they may write.
"""
import re
from core import *
import core
from program import Program, Ty, cvalue, human
from cfg import Cfg


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("env",)

    def __init__(self, env=None):
        self.env = env if env is not None else {}

    def copy(self):
        return State(dict(self.env))


def PF(n):
    return mkv("pf", n)


def PP(vi, i):
    return mkv("pp", vi, i)


def PI(i):
    return mkv("pi", i)


def PK(k, d):
    return mkv("pk", k, d)


def PR(lo, hi):
    return mkv("pr", lo, hi)


def ref(key, projs=()):
    return mkv("ref", key, *projs)


def arglist(n):
    return list(n)


MAXDEPTH = 40


class Engine:
    def __init__(self, prog, barriers=(), models=None):
        self.p = prog
        self.barriers = set(barriers)  # human() names (or suffixes) not inlined
        self._fid = 0
        self._uid = 0
        self.panics = []
        self.parts = {}
        self.checked = 0   # panicking constructs met, whether or not their condition was refuted on the spot
        self.calls = []       # every opaque call evaluated: (guard, name, args, span, fn)
        self.loops = []
        self.quiet = 0
        self.stack = []
        self.loopctx = []     # active binders / loops
        self.fninfo = {}
        self.next_over = []
        self.consts = {}
        self.visited = set()
        self.opaque_seen = {}
        self.rets_by_call = []
        import models as M
        self.M = M

    # ------------------------------------------------------------ callee identity
    def callee(self, body, info):
        """(key names..., Ty info) of an exported function reference"""
        key = (body.crate, id(info), body.subkey if body.sub else None)
        r = self.fninfo.get(key)
        if r is None:
            r = Callee(self, body, info)
            self.fninfo[key] = r
        return r

    # ------------------------------------------------------------ entry
    def run(self, body, args=None, guard=T):
        """evaluate a function from symbolic arguments; returns Summary"""
        st = State()
        st.env["W"] = mkv("world")
        vals = []
        for i in range(1, body.argc + 1):
            nm = body.names[i] or ("arg%d" % i)
            v = None
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                v = args[i - 1]
            else:
                v = self.sym(nm, body.locals[i], st)
            vals.append(v)
        ret, st2, g = self.exec_fn(body, vals, st, guard)
        return Summary(self, body, vals, ret, st2, g)

    def run_named(self, body, names, guard=T):
        """like run, with the parameters named by position"""
        st = State()
        st.env["W"] = mkv("world")
        vals = [self.sym(names[i], body.locals[i + 1], st) for i in range(body.argc)]
        ret, st2, g = self.exec_fn(body, vals, st, guard)
        return Summary(self, body, vals, ret, st2, g)

    def sym(self, nm, ty, st):
        if ty.k == "ref" and ty.m:
            key = ("root", nm)
            st.env[key] = self.sym(nm, ty.args[0], st)
            return ref(key)
        t = ty.strip()
        r = mkv("param", nm)
        core.ARRLEN.pop(r, None)
        if t.k == "array" and t.n is not None:
            core.ARRLEN[r] = int(t.n)
        return r

    # ------------------------------------------------------------ function
    def exec_fn(self, body, args, st, guard):
        if len(self.stack) > MAXDEPTH or sum(1 for b in self.stack if b is body) > 1:
            raise Unsupported("recursion " + body.path)
        self.visited.add(body.path)
        if body.cfg is None:
            body.cfg = Cfg(body)
            if body.cfg.irreducible:
                raise Unsupported("irreducible " + body.path)
            body.live, body.borrowed = liveness(body, body.cfg)
        self._fid += 1
        fid = self._fid
        st = st.copy()
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        self.stack.append(body)
        try:
            exits = self.region(body, fid, None, 0, [(guard, st)])
        finally:
            self.stack.pop()
        rets = exits.get("ret", [])
        if not rets:
            return UNDEF, st, F
        g, m = self.merge(rets, None, body, fid)
        ret = m.env.get((fid, 0), UNIT)
        for k in [k for k in m.env if isinstance(k, tuple) and k[0] == fid]:
            del m.env[k]
        return ret, m, g

    def merge(self, lst, block, body, fid):
        lst = [(g, s) for g, s in lst if g is not F]
        if not lst:
            return F, State()
        live = body.live.get(block) if block is not None else None
        if len(lst) == 1:
            g, s = lst[0]
            s = s.copy()
            if live is not None:
                self.prune(s, live, body, fid)
            return g, s
        care = lor(*[g for g, _ in lst])
        env = {}
        keys = set()
        for _, s in lst:
            keys |= set(s.env)
        conds = select([g for g, _ in lst])
        for k in keys:
            if live is not None and isinstance(k, tuple) and k[0] == fid:
                if k[1] not in live and k[1] not in body.borrowed:
                    continue
            vals = [s.env.get(k) for _, s in lst]
            if any(v is None for v in vals):
                # frame locals that only some predecessors initialised
                vs = [(c, v) for c, v in zip(conds, vals) if v is not None]
            else:
                vs = list(zip(conds, vals))
            r = vs[-1][1]
            for c, v in reversed(vs[:-1]):
                if v is not r:
                    r = ite(c, v, r)
            env[k] = r
        return care, State(env)

    def prune(self, s, live, body, fid):
        for k in [k for k in s.env if isinstance(k, tuple) and k[0] == fid and k[1] not in live and k[1] not in body.borrowed and k[1] != 0]:
            del s.env[k]

    # ------------------------------------------------------------ regions
    def region(self, body, fid, blocks, entry, init, loop_header=None):
        """execute an acyclic (inner loops collapsed) region; returns exits"""
        cfg = body.cfg
        pend = {entry: list(init)}
        exits = {}
        done = set()
        for b in cfg.rpo:
            if b not in pend or b in done:
                continue
            if blocks is not None and b not in blocks:
                continue
            done.add(b)
            lst = pend.pop(b)
            g, st = self.merge(lst, b, body, fid)
            if g is F:
                continue
            if b in cfg.loops and b != loop_header:
                outs = self.loop(body, fid, b, g, st)
                inloop = cfg.loops[b]
            else:
                outs = self.block(body, fid, b, g, st)
                inloop = {b}
            for tgt, gg, ss in outs:
                if gg is F:
                    continue
                if tgt == "ret":
                    exits.setdefault("ret", []).append((gg, ss))
                elif tgt == loop_header and loop_header is not None:
                    exits.setdefault("back", []).append((gg, ss))
                elif blocks is not None and tgt not in blocks:
                    exits.setdefault(tgt, []).append((gg, ss))
                else:
                    pend.setdefault(tgt, []).append((gg, ss))
        return exits

    def block(self, body, fid, b, g, st):
        """-> [(target | 'ret', guard, state)]"""
        blk = body.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                if s[2][0] == "ref" and s[2][1] == "fake":
                    continue
                v = self.rvalue(body, fid, st, g, s[2], s)
                self.write(body, fid, st, g, s[1], v)
            elif s[0] == "sd":
                raise Unsupported("set_discriminant")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], g, st)]
        if k == "drop":
            return [(t[2], g, st)]
        if k == "return":
            return [("ret", g, st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(body, fid, g, st, t)
        if k == "assert":
            c = tobool(self.operand(body, fid, st, g, t[1]))
            if not t[2]:
                c = neg(c)
            ops = [self.operand(body, fid, st, g, o) for o in t[4]]
            bad = land(g, neg(c))
            self.checked += 1
            if bad is not F:
                self.panic(body, t[3], bad, t[6], ops)
            # values after the assertion are computed under "no panic"; the panic is recorded above
            return [(t[5], g, st)]
        if k == "call":
            return self.call(body, fid, g, st, t)
        if k == "yield":
            return []
        raise Unsupported("terminator " + k)

    def switch(self, body, fid, g, st, t):
        v = self.operand(body, fid, st, g, t[1])
        outs = []
        rest = T
        isbool = body.T[t[4]].k == "bool"
        arms = []
        for val, tgt in t[2]:
            c = self.eq_switch(v, val, isbool)
            arms.append((tgt, land(rest, c)))
            rest = land(rest, neg(c))
        arms.append((t[3], rest))
        doomed = body.cfg.doomed
        alive = [c for tgt, c in arms if tgt not in doomed]
        if alive and len(alive) < len(arms):
            # arms that can only panic do not constrain the values of the others
            care = lor(*alive)
            for tgt, c in arms:
                if tgt in doomed:
                    gg = land(g, c)
                    if gg is not F:
                        outs.append((tgt, gg, st.copy()))
                else:
                    gg = land(g, restrict(c, care)) if care is not F else F
                    if gg is not F:
                        outs.append((tgt, gg, st.copy()))
            return outs
        for tgt, c in arms:
            gg = land(g, c)
            if gg is not F:
                outs.append((tgt, gg, st.copy()))
        return outs

    def eq_switch(self, v, val, isbool=False):
        def one(x):
            if x.k == "int":
                return T if x.a[0] == val else F
            if x is T or x is F:
                return T if (x is T) == bool(val) else F
            if x.k == "discr":
                path = x.a[1]
                a = self.p.adts.get(path)
                n = len(a["v"])
                for i, vv in enumerate(a["v"]):
                    if vv["d"] == val or (vv["d"] & ((1 << 128) - 1)) == val or (vv["d"] & 0xFF) == val and val > 127:
                        return isv(x.a[0], i, n)
                return F
            if x.k == "undef":
                return F
            if x.k == "ite":
                raise Unsupported("nested ite")
            if isbool or x.k in ("is", "eq", "le", "any", "bool") or (x.k == "app" and self.boolish(x)):
                b = tobool(x)
                return b if val else neg(b)
            return eqv(x, Int(val))
        return mapleaf(v, one)

    def boolish(self, x):
        return x in core._atomgroup

    # ------------------------------------------------------------ places
    def place_locs(self, body, fid, st, g, place):
        """-> list of (guard, key, projs) / (guard, None, value); plus type tracking"""
        cur = [(T, (fid, place[0]), ())]
        ty = body.locals[place[0]]
        variant = None
        for e in place[1:]:
            if e == "*":
                nxt = []
                for gg, key, pr in cur:
                    v = self.getloc(st, key, pr, g)
                    for lg, lf in leaves(v):
                        if lf.k == "ref":
                            nxt.append((land(gg, lg), lf.a[0], tuple(lf.a[1:])))
                        else:
                            # shared references are erased to the value they point at
                            if ty.k == "adt" and key is not None:   # Box deref
                                nxt.append((land(gg, lg), key, pr))
                            elif ty.k in ("ref", "ptr") and not ty.m:
                                nxt.append((land(gg, lg), None, lf))
                            elif key is not None:
                                nxt.append((land(gg, lg), key, pr))
                            else:
                                nxt.append((land(gg, lg), None, lf))
                cur = nxt
                ty = ty.args[0] if ty.args else ty
                variant = None
                continue
            if e == "pd":
                continue
            k = e[0]
            if k == "f":
                fidx = e[1]
                name = fidx
                if ty.k == "adt":
                    if variant is not None and ty.p in core.NVARIANTS:
                        p = PP(variant, fidx)
                    elif ty.p in core.PLAIN:
                        o = core.PLAIN[ty.p]
                        if o is None:
                            ty = body.T[e[2]]
                            continue
                        p = PF(o[fidx])
                    else:
                        nm = core.FIELDNAMES.get((ty.p, 0))
                        if nm and fidx < len(nm):
                            name = nm[fidx]
                        p = PF(name)
                else:
                    p = PF(name)
                ty = body.T[e[2]]
                variant = None
            elif k == "v":
                variant = e[1]
                continue
            elif k == "i":
                iv = st.env.get((fid, e[1]), UNDEF)
                p = PI(iv)
                ty = ty.args[0] if ty.args else ty
            elif k == "ci":
                if e[3]:
                    p = mkv("pie", e[1])
                else:
                    p = PI(Int(e[1]))
                ty = ty.args[0] if ty.args else ty
            elif k == "ss":
                p = mkv("pss", e[1], e[2], e[3])
            elif k == "oc":
                continue
            else:
                raise Unsupported("proj %s" % e)
            cur = [(gg, key, (pr + (p,)) if key is not None else self.readproj(pr, p)) for gg, key, pr in cur]
        return cur, ty

    def getloc(self, st, key, pr, g):
        if key is None:
            return pr
        v = st.env.get(key)
        if v is None:
            v = UNDEF
        for p in pr:
            v = self.readproj(v, p)
        return v

    def readproj(self, v, p):
        k = p.k
        if k == "pf":
            return field(v, p.a[0])
        if k == "pp":
            return proj(v, p.a[0], p.a[1])
        if k == "pi":
            return self.M.index(v, p.a[0])
        if k == "pk":
            return self.M.mapget(v, p.a[0], p.a[1] if len(p.a) > 1 else None)
        if k == "pr":
            return self.M.slice_(v, p.a[0], p.a[1])
        if k == "pie":
            return self.M.index(v, app("-", app("len", v), Int(p.a[0])))
        if k == "pss":
            if p.a[2]:
                return self.M.slice_(v, Int(p.a[0]), app("-", app("len", v), Int(p.a[1])))
            return self.M.slice_(v, Int(p.a[0]), Int(p.a[1]))
        raise Unsupported("readproj " + k)

    def read(self, body, fid, st, g, place):
        locs, ty = self.place_locs(body, fid, st, g, place)
        r = None
        for gg, key, pr in reversed(locs):
            v = self.getloc(st, key, pr, g)
            r = v if r is None else ite(gg, v, r)
        if r is None:
            return UNDEF
        if r.k == "ite":
            r = restrict(r, g)
        return r

    def write(self, body, fid, st, g, place, v):
        if len(place) == 1:
            st.env[(fid, place[0])] = v
            return
        locs, ty = self.place_locs(body, fid, st, g, place)
        for gg, key, pr in locs:
            if key is None:
                self.world(st, g, "write-through", [pr, v], None, body)
                continue
            self.setloc(st, key, pr, v, gg)

    def setloc(self, st, key, pr, v, cond=T):
        old = st.env.get(key, UNDEF)
        new = self.writeproj(old, pr, v)
        st.env[key] = ite(cond, new, old) if cond is not T else new

    def writeproj(self, old, pr, v):
        if not pr:
            return v
        p, rest = pr[0], pr[1:]
        k = p.k
        if rest or k in ("pk", "pi"):
            sub = self.readproj(old, p)
            new = self.writeproj(sub, rest, v)
            if new is sub:
                return old
        else:
            new = v
        if k == "pf":
            if old.k == "undef":
                return mkv("upd", UNDEF, (p.a[0], new))
            return setfield(old, p.a[0], new)
        if k == "pp":
            return self.M.setpayload(old, p.a[0], p.a[1], new)
        if k == "pi":
            return self.M.setindex(old, p.a[0], new)
        if k == "pk":
            return self.M.setkey(old, p.a[0], p.a[1], sub, new)
        if k == "pr":
            return self.M.setrange(old, p.a[0], p.a[1], new)
        raise Unsupported("writeproj " + k)

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, body, fid, st, g, o):
        if "c" in o:
            return self.read(body, fid, st, g, o["c"])
        if "m" in o:
            return self.read(body, fid, st, g, o["m"])
        if "k" in o:
            return self.const(body, o["k"])
        return F if False else mkv("runtimecheck")

    def const(self, body, c):
        ty = body.T[c["ty"]]
        if "fn" in c:
            ca = self.callee(body, c["fn"])
            return ca.value()
        if "promoted" in c:
            pb = self.p.bodies.get("%s::promoted[%d]" % (c["def"], c["promoted"]))
            return self.eval_const(pb)
        if "int" in c:
            if ty.k == "bool":
                return T if c["int"] else F
            return Int(c["int"])
        t0 = ty.strip()
        if "bytes" in c and (t0.k == "str" or (t0.k in ("array", "slice") and t0.args[0].k == "uint" and t0.args[0].w == 8)):
            return Bytes(bytes.fromhex(c["bytes"]))
        if "mem" in c and t0.k == "array" and t0.args[0].k == "uint" and t0.args[0].w == 8:
            return Bytes(bytes.fromhex(c["mem"]))
        if "def" in c:
            b = self.p.bodies.get(c["def"])
            at = [body.T[a] for a in c.get("dargs", ()) if isinstance(a, int)]
            if at and at[0].k != "param":
                # a constant of a trait, at a known type
                tr, _, item = c["def"].rpartition("::")
                b = self.p.find_trait_const(tr, item, at[0]) or b
            if b is not None:
                return self.eval_const(b)
            nm = c["def"].split("::")
            if at and not nm[-2].startswith("{"):
                nm[-2] = "<%s as %s>" % (",".join(a.long(True) for a in at), nm[-2])
            return mkv("named", "::".join(nm[-2:]) if not nm[-2].startswith("{") else t0.short() + "::" + nm[-1])
        if c.get("zst"):
            if ty.k == "tuple":
                return UNIT
            if ty.k == "closure":
                return mkv("closure", self.p.closure_in(body, ty.p))
            if ty.k == "adt":
                a = self.p.adts.get(ty.p)
                if a and a["kind"] == "struct":
                    return mkv("adt", ty.p, 0)
            return mkv("zst", ty.long())
        if "bits" in c or "mem" in c or "bytes" in c:
            if ty.k == "adt":
                # fieldless enum constants
                a = self.p.adts.get(ty.p)
                if a and a["kind"] == "enum" and "bits" in c:
                    d = int(c["bits"].split(":")[1])
                    for i, v in enumerate(a["v"]):
                        if v["d"] == d and not v["f"]:
                            return mkv("adt", ty.p, i)
            return mkv("cval", ty.long(), c.get("bits") or c.get("mem") or c.get("bytes"))
        if "tyconst" in c:
            n = cvalue(c["tyconst"], body.sub)
            if n is not None:
                return Int(n) if ty.k != "bool" else T if n else F
            return mkv("named", c["tyconst"])
        return mkv("cval", ty.long(), str(c.get("static", "?")))

    def eval_const(self, b):
        if b is None:
            return mkv("app", "unknown constant")
        v = self.consts.get(b.path)
        if v is None:
            st = State()
            st.env["W"] = mkv("world")
            self.quiet += 1
            try:
                v, _, _ = self.exec_fn(b, [], st, T)
            finally:
                self.quiet -= 1
            self.consts[b.path] = v
        return v

    def rvalue(self, body, fid, st, g, r, stmt=None):
        k = r[0]
        if k == "use":
            return self.operand(body, fid, st, g, r[1])
        if k == "ref":
            if r[1] == "shared":
                return self.read(body, fid, st, g, r[2])
            locs, ty = self.place_locs(body, fid, st, g, r[2])
            if ty.k == "adt" and False:
                pass
            res = None
            for gg, key, pr in reversed(locs):
                v = pr if key is None else ref(key, pr)
                res = v if res is None else ite(gg, v, res)
            return res if res is not None else UNDEF
        if k == "discr":
            locs, ty = self.place_locs(body, fid, st, g, r[1])
            v = self.read(body, fid, st, g, r[1])
            path = ty.p

            def one(x):
                if x.k == "adt":
                    a = self.p.adts.get(x.a[0])
                    return Int(a["v"][x.a[1]]["d"] & ((1 << 128) - 1))
                if x.k == "undef":
                    return UNDEF
                if x.k == "entry":
                    n = {v["n"]: Int(v["d"]) for v in self.p.adts[path]["v"]}
                    return ite(self.M.entry_taken(self, st, g, x), n["Occupied"], n["Vacant"])
                return mkv("discr", x, path)
            return mapleaf(v, one)
        if k == "agg":
            ops = [self.operand(body, fid, st, g, o) for o in r[2]]
            kk = r[1][0]
            if kk == "tuple":
                return tup(*ops)
            if kk == "array":
                return self.M.mkarray(ops)
            if kk == "adt":
                return adt(r[1][1], r[1][2], *ops)
            if kk == "closure":
                return mkv("closure", self.p.closure_in(body, r[1][1]), *ops)
            if kk in ("coroutine", "coroutineclosure"):
                return mkv("coroutine", r[1][1], *ops)
            return mkv("agg", kk, *ops)
        if k == "bin":
            a = self.operand(body, fid, st, g, r[2])
            b = self.operand(body, fid, st, g, r[3])
            return self.M.binop(r[1], a, b)
        if k == "un":
            a = self.operand(body, fid, st, g, r[2])
            if r[1] == "Not":
                def one(x):
                    if x is T or x is F:
                        return neg(x)
                    if x.k == "int":
                        return mkv("app", "~", x)
                    return neg(tobool(x))
                return mapleaf(a, one)
            if r[1] == "PtrMetadata":
                return self.M.length(a)
            return app(r[1], a)
        if k == "cast":
            a = self.operand(body, fid, st, g, r[2])
            ck = r[1]
            if ck.startswith("IntToInt"):
                o = r[2]
                src = self.opty(body, o)
                dst = body.T[r[3]]
                return self.M.intcast(a, src, dst)
            return a
        if k == "repeat":
            a = self.operand(body, fid, st, g, r[1])
            n = r[2]
            if isinstance(n, str):
                n = cvalue(n, body.sub)
            return self.M.repeat(a, n) if n is not None else mkv("rep", a, mkv("named", r[2]))
        raise Unsupported("rvalue " + k)

    def opty(self, body, o):
        if "k" in o:
            return body.T[o["k"]["ty"]]
        pl = o.get("c") or o.get("m")
        ty = body.locals[pl[0]]
        for e in pl[1:]:
            if e == "*":
                ty = ty.args[0]
            elif e[0] == "f":
                ty = body.T[e[2]]
            elif e[0] in ("i", "ci"):
                ty = ty.args[0]
        return ty

    # ------------------------------------------------------------ panics / world
    def panic(self, body, kind, guard, span, ops, name=None, cond=None):
        if self.quiet:
            return
        self.panics.append(dict(kind=kind, guard=guard, span=span, ops=ops, fn=body.path, name=name, cond=cond,
                                stack=[b.path for b in self.stack], loops=list(self.loopctx), parts=self.parts))

    def world(self, st, g, name, args, span, body):
        st.env["W"] = log(st.env["W"], [op(T, name, *args)])

    # ------------------------------------------------------------ calls
    def call(self, body, fid, g, st, t):
        f, ops, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(body, fid, st, g, o) for o in ops]
        argtys = [body.T[i] for i in t[6]]
        retty = body.T[t[7]]
        if "k" in f and "fn" in f["k"]:
            ca = self.callee(body, f["k"]["fn"])
            v, st, g2 = self.invoke(ca, args, argtys, retty, body, fid, st, g, span, dest)
        else:
            fv = self.operand(body, fid, st, g, f)
            v, st, g2 = self.call_value(fv, args, st, g, body, span)
        if g2 is F or target is None:
            return []
        if v.k == "ite":
            v = restrict(v, g2)
        self.write(body, fid, st, g2, dest, v)
        return [(target, g2, st)]

    def call_value(self, fv, args, st, g, body, span=None):
        """call a closure / fn item / fn pointer value with a python list of argument values"""
        lv = leaves(fv)
        if len(lv) == 1:
            return self.call_leaf(fv, args, st, g, body, span)
        outs = []
        r = None
        for lg, lf in lv:
            gg = land(g, lg)
            if gg is F:
                continue
            v, s2, g2 = self.call_leaf(lf, args, st.copy(), gg, body, span)
            outs.append((g2, s2, v))
        return self.join(outs, body)

    def join(self, outs, body):
        outs = [o for o in outs if o[0] is not F]
        if not outs:
            return UNDEF, State(), F
        if len(outs) == 1:
            return outs[0][2], outs[0][1], outs[0][0]
        lst = []
        for g, s, v in outs:
            s = s.copy()
            s.env[("tmp", 0)] = v
            lst.append((g, s))

        class B:
            live = {}
            borrowed = ()
        g, s = self.merge(lst, None, B, -1)
        v = s.env.pop(("tmp", 0))
        return v, s, g

    def call_leaf(self, f, args, st, g, body, span=None):
        me = None
        while f.k == "ref":
            me, f = f, self.getloc(st, f.a[0], tuple(f.a[1:]), g)
            if f.k == "ite":
                return self.call_value(f, args, st, g, body, span)
        if f.k == "closure":
            b = self.p.bodies.get(f.a[0])
            if b is None:
                raise Unsupported("closure body " + f.a[0])
            if b.argc == 2 and b.spread is None and len(args) != 1:
                pass
            a = [f] + list(args)
            if len(a) != b.argc:
                # tupled arguments
                if len(args) == 1 and args[0].k == "tuple":
                    a = [f] + list(args[0].a)
            if me is not None and b.locals[1].k == "ref" and b.locals[1].m:
                a[0] = me  # what it keeps for itself is changed in place
            return self.exec_fn(b, a, st, g)
        if f.k == "fnitem":
            ca = f.a[1].obj
            return self.invoke(ca, list(args), ca.argtys(len(args)), None, ca.body, None, st, g, span, None)
        if f.k == "undef":
            return UNDEF, st, F
        if f.k == "lamv":
            return app("call", f, *args), st, g
        return app("call", f, *args), st, g

    def lam(self, fv, n, st, g, body):
        """closure as a canonical lambda value (bound variables bv(depth,i)); effects kept in world"""
        d = sum(1 for c in self.loopctx if c == "lam")
        bvs = [mkv("bv", d, i) for i in range(n)]
        self.loopctx.append("lam")
        self.quiet += 1
        try:
            v, s2, g2 = self.call_value(fv, bvs, st.copy(), g, body)
        finally:
            self.loopctx.pop()
            self.quiet -= 1
        return mkv("lam", n, v)

    def invoke(self, ca, args, argtys, retty, body, fid, st, g, span, dest):
        """-> value, state, guard"""
        m = self.M.lookup(ca)
        if m is not None:
            cx = Ctx(self, ca, args, argtys, retty, body, st, g, span)
            if ca.trait_item is not None and ca.trait_item.startswith("Iterator::"):
                it = self.M.own_iterator(cx)
                if it is not None:
                    cx.args = [it] + list(cx.args[1:])
            r = m(cx)
            if r is not None:
                if isinstance(r, V):
                    return r, cx.st, cx.g
                return r
        b = ca.localbody()
        if b is not None and not self.is_barrier(b):
            return self.exec_fn(self.p.at_types(b, ca.resargs if ca.resargs is not None else ca.args), args, st, g)
        c = core.CTORS.get(ca.defp.replace("::{constructor#0}", ""))
        if c is not None and len(args) == len(core.FIELDNAMES[c]):
            return adt(c[0], c[1], *args), st, g
        return self.opaque(ca, args, argtys, retty, body, st, g, span)

    def is_barrier(self, b):
        if not self.barriers:
            return False
        h = human(b)
        for x in self.barriers:
            if h == x or h.endswith("::" + x):
                return True
        return False

    def deref_all(self, st, v, g):
        """replace refs by the values they denote (for pure uses)"""
        def one(x):
            if x.k == "ref":
                return self.deref_all(st, self.getloc(st, x.a[0], tuple(x.a[1:]), g), g)
            if x.k in ("adt", "tuple", "array") and any(isinstance(y, V) and has_ref(y) for y in x.a):
                return mkv(x.k, *[self.deref_all(st, y, g) if isinstance(y, V) else y for y in x.a])
            return x
        return mapleaf(v, one)

    def opaque(self, ca, args, argtys, retty, body, st, g, span):
        name = ca.cname
        vals = []
        tys = argtys or [None] * len(args)
        for a, t in zip(args, tys):
            if t is not None and t.strip().k == "adt" and t.strip().p.endswith("::Secp256k1"):
                continue  # contexts carry no information
            v = self.M.unident(self.deref_all(st, a, g))
            vals.append(self.close(v, st, g, body))
        if not self.quiet:
            self.calls.append(dict(guard=g, name=name, args=vals, span=span, fn=body.path, ca=ca,
                                   loops=list(self.loopctx), stack=[b.path for b in self.stack]))
        if ca.diverges:
            self.panic(body, "panic", g, span, vals, name)
            return UNDEF, st, F
        muts = []
        for i, (a, t) in enumerate(zip(args, argtys or [])):
            if t is not None and t.k == "ref" and t.m or any(lf.k == "ref" for _, lf in leaves(a)):
                muts.append(i)
        if self.M.is_effect(ca):
            self.world(st, g, name, vals, span, body)
            n = sum(1 for o in st.env["W"].a[1:] if o.k == "op" and o.a[1] == name) if st.env["W"].k == "log" else 1
            res = mkv("app", name, *vals)
            rv = res
        else:
            rv = app(name, *vals)
        rt = retty.strip() if retty is not None else None
        if rt is not None and rt.k == "array" and rt.n is not None and rv.k == "app":
            core.ARRLEN[rv] = int(rt.n)
        if rt is not None and rt.k == "bool" and rv.k == "app":
            rv = tobool(rv)
        for i in muts:
            others = [v for j, v in enumerate(vals) if j != i]
            for lg, lf in leaves(args[i]):
                if lf.k == "ref":
                    old = self.getloc(st, lf.a[0], tuple(lf.a[1:]), g)
                    new = log(old, [op(T, name, *others)]) if len(leaves(old)) == 1 else mapleaf(old, lambda x: log(x, [op(T, name, *others)]))
                    self.setloc(st, lf.a[0], tuple(lf.a[1:]), new, lg)
        return rv, st, g

    def close(self, v, st, g, body):
        """replace closures inside values by canonical lambdas"""
        def one(x):
            if x.k == "closure":
                b = self.p.bodies.get(x.a[0])
                if b is None:
                    return x
                try:
                    return self.lam(x, b.argc - 1, st, g, body)
                except Unsupported:
                    return mkv("opaquefn", x.a[0])
            if x.k == "fnitem":
                return mkv("fnname", x.a[0])
            if x.k in ("adt", "tuple", "app", "array") and any(isinstance(y, V) and y.k in ("closure", "fnitem") for y in x.a):
                return mkv(x.k, *[one(y) if isinstance(y, V) and y.k in ("closure", "fnitem") else y for y in x.a])
            return x
        return mapleaf(v, one)

    # ------------------------------------------------------------ loops
    def loop(self, body, fid, h, g, st):
        """summarise the natural loop at header h; returns [(target, guard, state)]"""
        blocks = body.cfg.loops[h]
        live = body.live.get(h)
        st = st.copy()
        self.prune(st, live, body, fid)
        nx = self.find_next(body, fid, h, blocks, g, st)
        if nx is None:
            return self.while_loop(body, fid, h, blocks, g, st)
        lockey, lpr, src = nx
        seq = self.M.to_seq(self, src)
        if seq.k == "seq" and len(seq.a) == 2 and seq.a[1].k == "cmp" and seq.a[1].a[1].k == "range":
            c = seq.a[1]
            hi = c.a[1].a[1]
            if (hi.k == "inf" or (hi.k == "int" and hi.a[0] >= 1 << 16)) and c.a[0] is T and len(c.a) == 4 and c.a[3].a[2] is c.a[2]:
                return self.while_loop(body, fid, h, blocks, g, st, over=(lockey, lpr, c.a[1].a[0]))

        def bodyfn(st1, g1, elem):
            self.next_over.append((lockey, lpr, elem))
            try:
                ex = self.region(body, fid, blocks, h, [(g1, st1)], loop_header=h)
            finally:
                self.next_over.pop()
            cont = None
            exits = []
            for tgt, lst in ex.items():
                if tgt == "back":
                    cg, cs = self.merge(lst, h, body, fid)
                    cont = (cg, cs)
                else:
                    for gg, ss in lst:
                        exits.append((tgt, gg, ss))
            return exits, cont

        exits, cont = self.run_seq(st, g, seq, bodyfn, body)
        outs = list(exits)
        if cont is not None and cont[0] is not F:
            cg, cs = cont
            cs = cs.copy()
            # exhausted: next() returns None
            self.next_over.append((lockey, lpr, None))
            try:
                ex = self.region(body, fid, blocks, h, [(cg, cs)], loop_header=h)
            finally:
                self.next_over.pop()
            for tgt, lst in ex.items():
                if tgt == "back":
                    raise Unsupported("loop continues after exhaustion")
                for gg, ss in lst:
                    ss = ss.copy()
                    self.setloc(ss, lockey, lpr, mkv("iter", mkv("seq", EMPTY)))
                    outs.append((tgt, gg, ss))
        return outs

    def find_next(self, body, fid, h, blocks, g, st):
        b = h
        seen = set()
        while b in blocks and b not in seen:
            seen.add(b)
            t = body.blocks[b]["t"]
            if t[0] == "goto":
                b = t[1]
                continue
            if t[0] == "call":
                f = t[1]
                if "k" in f and "fn" in f["k"]:
                    ca = self.callee(body, f["k"]["fn"])
                    if ca.trait_item == "Iterator::next" and ca.resp in self.p.bodies:
                        return None  # an iterator of the code's own: its steps are followed
                    if ca.trait_item == "Iterator::next" or ca.cname in self.M.ASYNC_NEXT or ca.trait_item in self.M.ASYNC_NEXT:
                        # evaluate the prefix on a scratch state to find the iterator's location
                        s2 = st.copy()
                        bb = h
                        while True:
                            for s in body.blocks[bb]["s"]:
                                if s[0] == "=" and not (s[2][0] == "ref" and s[2][1] == "fake"):
                                    try:
                                        self.write(body, fid, s2, g, s[1], self.rvalue(body, fid, s2, g, s[2]))
                                    except Unsupported:
                                        return None
                            if bb == b:
                                break
                            tt = body.blocks[bb]["t"]
                            if tt[0] != "goto":
                                break
                            bb = tt[1]
                        a = self.operand(body, fid, s2, g, t[2][0])
                        while a.k == "ref":
                            tgt = self.getloc(s2, a.a[0], tuple(a.a[1:]), g)
                            if tgt.k == "ref":
                                a = tgt
                                continue
                            if a.a[0] not in st.env:
                                return None
                            return a.a[0], tuple(a.a[1:]), tgt
                        return None
                return None
            return None
        return None

    def binder(self, src):
        d = sum(1 for c in self.loopctx if isinstance(c, V) and c.k == "b" and c.a[0] is src)
        return mkv("b", src, d)

    def run_seq(self, st, g, seq, bodyfn, body):
        """run bodyfn over the elements of a sequence value -> exits, (guard,state)|None"""
        exits = []
        segs = self.M.segments(seq)
        cur = (g, st)
        for s in segs:
            if cur is None or cur[0] is F:
                break
            cg, cs = cur
            if s.k == "op":
                eg = land(cg, s.a[0])
                skip = land(cg, neg(s.a[0]))
                e2, c2 = bodyfn(cs.copy(), eg, restrict(s.a[2], eg) if s.a[2].k == "ite" else s.a[2]) if eg is not F else ([], None)
                exits += e2
                lst = []
                if c2 is not None and c2[0] is not F:
                    lst.append(c2)
                if skip is not F:
                    lst.append((skip, cs))
                cur = self.merge_plain(lst)
            else:
                eg = land(cg, s.a[0])
                skip = land(cg, neg(s.a[0]))
                if eg is not F:
                    e2, c2 = self.run_comp(cs, eg, s, bodyfn, body)
                    exits += e2
                    lst = []
                    if c2 is not None and c2[0] is not F:
                        lst.append(c2)
                    if skip is not F:
                        lst.append((skip, cs))
                    cur = self.merge_plain(lst)
        return exits, cur

    def merge_plain(self, lst):
        if not lst:
            return None

        class B:
            live = {}
            borrowed = ()
        g, s = self.merge(lst, None, B, -1)
        return (g, s)

    def run_comp(self, st, g, seg, bodyfn, body):
        src, binder0 = seg.a[1], seg.a[2]
        binder = self.binder(src)
        inner = seg.a[3:]
        if binder is not binder0:
            inner = tuple(subst(o, {binder0: binder}) for o in inner)
        sub = mkv("seq", EMPTY, *inner)
        self._uid += 1
        uid = self._uid
        M = {}
        self.loopctx.append(binder)
        try:
            self.quiet += 1
            for _ in range(12):
                s1 = st.copy()
                for k, mu in M.items():
                    s1.env[k] = mu
                ex, cont = self.run_seq(s1, g, sub, bodyfn, body)
                new = {}
                if cont is not None:
                    for k, v0 in s1.env.items():
                        v1 = cont[1].env.get(k)
                        if v1 is not None and v1 is not v0 and k not in M:
                            new[k] = mkv("mu", uid, str(k))
                if not new:
                    break
                M.update(new)
            self.quiet -= 1
            s1 = st.copy()
            for k, mu in M.items():
                s1.env[k] = mu
            if not self.quiet:
                np, nc = len(self.panics), len(self.calls)
                ex, cont = self.run_seq(s1, g, sub, bodyfn, body)
        finally:
            self.loopctx.pop()
        sol = LoopSolver(self, st, g, src, binder, M, ex, cont)
        r = sol.solve()
        if not self.quiet:
            for p in self.panics[np:]:
                p["guard"] = subst(p["guard"], sol.inmap) if sol.inmap else p["guard"]
                p["ops"] = [subst(o, sol.inmap) for o in p["ops"]] if sol.inmap else p["ops"]
            for c in self.calls[nc:]:
                if sol.inmap:
                    c["guard"] = subst(c["guard"], sol.inmap)
                    c["args"] = [subst(o, sol.inmap) for o in c["args"]]
        return r

    def while_loop(self, body, fid, h, blocks, g, st, over=None):
        """loop without an iterator: summarised as a while record over its carried locations"""
        self._uid += 1
        uid = self._uid
        M = {}

        def once(quiet):
            s1 = st.copy()
            for k, mu in M.items():
                s1.env[k] = mu
            if quiet:
                self.quiet += 1
            if over is not None:
                lo = over[2]
                it_ = mkv("itn", uid_depth(self) - 1)
                self.next_over.append((over[0], over[1], it_ if lo is Int(0) else app("+", it_, lo)))
            try:
                ex = self.region(body, fid, blocks, h, [(g, s1)], loop_header=h)
            finally:
                if over is not None:
                    self.next_over.pop()
                if quiet:
                    self.quiet -= 1
            return s1, ex
        self.loopctx.append("while")
        try:
            for _ in range(12):
                s1, ex = once(True)
                if "back" not in ex:
                    break
                cg, cs = self.merge(ex["back"], h, body, fid)
                new = {}
                for k, v0 in s1.env.items():
                    v1 = cs.env.get(k)
                    if v1 is not None and v1 is not v0 and k not in M:
                        new[k] = mkv("mu", uid, str(k))
                if not new:
                    break
                M.update(new)
            np, nc = len(self.panics), len(self.calls)
            if not self.quiet:
                s1, ex = once(False)
        finally:
            self.loopctx.pop()
        if "back" not in ex:
            outs = []
            for tgt, lst in ex.items():
                outs += [(tgt, gg, ss) for gg, ss in lst]
            return outs
        cg, cs = self.merge(ex["back"], h, body, fid)
        cond0 = restrict(cg, g)
        nx = {k: (restrict(cs.env[k], cg) if cs.env[k].k == "ite" else cs.env[k]) for k in M}
        # a struct or tuple that is carried along is carried field by field; what never changes is not carried
        import folds
        init0 = {k: st.env[k] for k in M}
        comps = folds.scalarise(init0, nx, M, uid)
        whole = {mu: w for mu, w, _, _ in comps.values()}
        still = {M[k]: init0[k] for k in nx if nx[k] is M[k]}
        for k in [k for k in nx if nx[k] is M[k]]:
            del nx[k]
        steps = [whole] * len(whole) + [still] if comps else []

        def split(v):
            for sub in steps:
                v = subst(v, sub)
            return v
        if steps:
            cond0 = split(cond0)
            nx = {k: core.assume(split(v), cond0) for k, v in nx.items()}
            for p in self.panics[np:]:
                p["guard"] = split(p["guard"])
                p["ops"] = [split(o) for o in p["ops"]]
            for c in self.calls[nc:]:
                c["guard"] = split(c["guard"])
                c["args"] = [split(o) for o in c["args"]]
        d = uid_depth(self)
        itn = mkv("itn", d)
        # counters and push-only lists are functions of the iteration number
        ren = {}
        counters = {}
        for k in nx:
            mu, v, init = M[k], nx[k], init0[k]
            if v.k == "app" and v.a[0] == "+" and v.a[1] is mu and v.a[2].k == "int":
                step = v.a[2].a[0]
                val = itn if step == 1 else app("*", itn, Int(step))
                counters[k] = app("+", init, val) if init is not Int(0) else val
                ren[mu] = counters[k]
        mult = {}
        for k in nx:
            mu, v, init = M[k], nx[k], init0[k]
            if k in counters:
                continue
            if v.k in ("log", "seq") and v.a[0] is mu and all(o.k == "op" and o.a[1] == "push" and o.a[0] is T for o in v.a[1:]):
                n = len(v.a) - 1
                li = self.M.length(init)
                mult[mkv("app", "len", mu)] = app("+", itn if n == 1 else app("*", itn, Int(n)), li) if li is not Int(0) else (itn if n == 1 else app("*", itn, Int(n)))
        pre = dict(ren)
        pre.update(mult)
        cond0 = subst(cond0, pre)
        nx = {k: subst(v, pre) for k, v in nx.items() if k not in counters}
        order = folds_order(list(nx), M, {k: init0[k] for k in nx}, nx)
        for i, k in enumerate(order):
            ren[M[k]] = mkv("mv", d, i)
        cond = subst(cond0, ren)
        inits = [init0[k] for k in order]
        for k in order:
            # a list that only loses elements consists of elements of the one it starts from
            v = nx[k]
            if all(x is M[k] or x.k == "log" and x.a[0] is M[k] and all(o.k == "op" and o.a[1] in ("removeat", "clear", "pop", "truncate")
                                                                        for o in x.a[1:]) for _, x in leaves(v)):
                self.parts[M[k]] = init0[k]
        for _ in range(6):
            fit = self.fitted([cond0] + [nx[k] for k in order])
            if not fit:
                break
            cond0 = subst(cond0, fit)
            nx = {k: subst(v, fit) for k, v in nx.items()}
            cond = subst(cond0, ren)
        nexts = [core.assume(subst(nx[k], ren), cond) for k in order]
        W = mkv("while", cond, tuple(inits), tuple(nexts))
        rec = dict(kind="while", fn=body.path, keys=order, cond=cond, inits=inits, nexts=nexts, exits=[], W=W,
                   names=[self.keyname(body, fid, k) for k in order], guard=g)
        after = {M[k]: mkv("wlast", W, i) for i, k in enumerate(order)}
        ni = mkv("niter", W)
        for k, v in counters.items():
            after[M[k]] = subst(v, {itn: ni})
        after[itn] = ni
        pre[itn] = itn
        outs = []
        for tgt, lst in ex.items():
            if tgt == "back":
                continue
            for gg, ss in lst:
                if steps:
                    gg, ss = split(gg), State({k: split(v) for k, v in ss.env.items()})
                # exit state: carried values are those of the last (exiting) iteration
                s2 = State({k: subst(subst(v, mult), after) for k, v in ss.env.items()})
                eg = subst(subst(gg, mult), after)
                rec["exits"].append((tgt, subst(gg, ren), {k: subst(v, ren) for k, v in ss.env.items()}))
                outs.append((tgt, eg, s2))
        if not self.quiet:
            self.loops.append(rec)
        # the exit guards partition: exactly one exit is taken
        if outs:
            rest = land(g, neg(lor(*[x[1] for x in outs[:-1]])))
            outs[-1] = (outs[-1][0], rest, outs[-1][2])
        return outs

    def fitted(self, vs):
        """slices of a script whose form its membership in a list fixes: written as going to the end, with a known length"""
        from models import script_len
        from panics import membership
        fit, size = {}, {}
        for v in vs:
            for t in subterms(v):
                if t.k != "app" or t.a[0] != "slice" or t.a[3].k not in ("int", "end") or t.a[2].k != "int":
                    continue
                for b in {y for y in subterms(t.a[1]) if y.k in ("b", "first") and y.a[0] in self.parts}:
                    n = script_len(membership(b, self.parts[b.a[0]]), t.a[1])
                    if n is None or t.a[3].k == "int" and t.a[3].a[0] != n:
                        continue
                    to_end = mkv("app", "slice", t.a[1], t.a[2], mkv("end"))
                    size[mkv("app", "len", to_end)] = size[mkv("app", "len", t)] = Int(n - t.a[2].a[0])
                    size[mkv("app", "len", t.a[1])] = Int(n)
                    if t is not to_end:
                        fit[t] = to_end
        if size:
            fit.update({t: n for t, n in size.items() if any(t in subterms(v) for v in vs)})
        return fit

    def keyname(self, body, fid, k):
        if isinstance(k, tuple) and k[0] == fid:
            return body.names[k[1]] or "_%d" % k[1]
        return str(k)


def uid_depth(e):
    return sum(1 for c in e.loopctx if c == "while")


def canonical_order(keys, M, st, cs):
    """order loop-carried locations by a name-free signature"""
    blank = {M[k]: mkv("mv", -1, 0) for k in keys}

    def sig(k):
        return (show(st.env[k], 0, 12)[:400], show(subst(cs.env[k], blank), 0, 12)[:400])
    return sorted(keys, key=sig)


def folds_order(keys, M, inits, nexts):
    keys = list(keys)
    if len(keys) == 1:
        return keys
    blank = {M[k]: mkv("mv", -1, 0) for k in keys}

    def sig(k):
        return (show(inits[k], 0, 12)[:400], show(subst(nexts[k], blank), 0, 12)[:400])
    return sorted(keys, key=sig)


def has_ref(v):
    return any(x.k == "ref" for x in subterms(v)) if v.k != "int" else False


class LoopSolver:
    """closed forms of the values carried by one comprehension loop"""

    def __init__(self, eng, st, g, src, binder, M, exits, cont):
        self.e = eng
        self.st = st
        self.g = g
        self.src = src
        self.b = binder
        self.M = M
        self.M0 = dict(M)
        self.exits = exits
        self.cont = cont
        self.inmap = {}

    def solve(self):
        st, M, b, src, g = self.st, self.M, self.b, self.src, self.g
        if self.cont is None:
            cg, cs = F, None
        else:
            cg, cs = self.cont
        X = F
        for tgt, gg, ss in self.exits:
            X = lor(X, gg)
        X = restrict(X, g)
        mus = set(M.values())
        nxt = {}
        if cs is not None:
            nxt = {k: cs.env.get(k, UNDEF) for k in M}
        # elements addressed through the collection being updated in place
        sol_in, fin = {}, {}
        todo = dict(nxt)
        # in-iteration simplification: reading element b of the carried collection is b
        pre = {}
        for k, mu in M.items():
            own = self.own_element(mu, st.env[k], nxt.get(k, UNDEF))
            if own is not None:
                pre[mkv("app", "index", mu, self.e.M.place(b))] = own
        todo = {k: subst(v, pre) for k, v in todo.items()}
        todo = {k: core.assume(v, cg) for k, v in todo.items()}
        import folds
        if X is F and not self.exits:
            i = mkv("idx", b)
            ts = {t for v in todo.values() for t in subterms(v) if t.k == "le" and t.a[0] is i}
            for t in ts:
                if all(subst(v, {t: T}) is M[k] for k, v in todo.items()):
                    n = t.a[1] + 1
                    src = self.src = mkv("it:skip", src, Int(n))
                    b2 = mkv("b", src, 0)
                    mm = {b: b2, i: app("+", mkv("idx", b2), Int(n))}
                    todo = {k: subst(subst(v, {t: F}), mm) for k, v in todo.items()}
                    b = self.b = b2
                    break
        inits0 = {k: st.env[k] for k in M}
        M = self.M = dict(M)
        self.e._uid += 1
        comps = folds.scalarise(inits0, todo, M, self.e._uid)
        if comps:
            mus = set(M.values())
            whole = {mu: w for mu, w, _, _ in comps.values()}
            for _ in range(4):
                X = subst(X, whole)
        self.shape = {}
        self.cols = {}
        changed = True
        while changed:
            changed = False
            for k in list(todo):
                mu, v, init = M[k], todo[k], inits0[k]
                r = self.closed(mu, v, init, mus) or self.column(mu, v, init, mus)
                if r is None:
                    continue
                inside, final = r
                if inside is None:
                    self.shape[k] = (mu, v, init)
                del todo[k]
                fin[k] = final
                changed = True
                if inside is not None:
                    sol_in[mu] = inside
                    m = {mu: inside}
                    todo = {q: subst(x, m) for q, x in todo.items()}
                    fin = {q: subst(x, m) for q, x in fin.items()}
                    sol_in = {q: (subst(x, m) if x is not None else None) for q, x in sol_in.items()}
                    X = subst(X, m)
                    mus.discard(mu)
                else:
                    sol_in[mu] = None
                    mus.discard(mu)
        for mu, c in self.cols.items():
            if mu in freevars(X):
                X = self.reframe(X, c)
        # the rest: folds over the accumulators each one depends on
        self.sums, self.alone = {}, {}
        if todo:
            dep = folds.cones(todo, M)
            for k in todo:
                ks = folds_order(dep[k], M, inits0, todo)
                ren = {M[q]: mkv("mv", 0, i) for i, q in enumerate(ks)}
                fb = ren[b] = mkv("b", src, 5000 + (b.a[1] if b.k == "b" else 0))
                inits = tuple(inits0[q] for q in ks)
                nexts = tuple(subst(todo[q], ren) for q in ks)
                FO = mkv("fold", src, fb, inits, nexts)
                i = ks.index(k)
                r = folds.special(self.e, src, b, M[k], inits0[k], todo[k]) if len(ks) == 1 else None
                fin[k] = r if r is not None else mkv("foldv", FO, i)
                sol_in[M[k]] = mkv("prefix", FO, i, b)
                if r is not None:
                    self.sums[sol_in[M[k]]] = r
                    self.alone[k] = (M[k], todo[k], inits0[k])
        # reassemble split accumulators
        for k in reversed(list(comps)):
            mu, w, keys, cs_ = comps[k]
            fin[k] = folds.build(inits0[k], [fin[q] for q in keys], cs_)
            sol_in[mu] = w
        # values whose in-iteration form is the prefix of their own final form
        for k, mu in M.items():
            if mu in sol_in and sol_in[mu] is None:
                sol_in[mu] = mkv("upto", fin[k], b)
        m = {mu: x for mu, x in sol_in.items()}
        for _ in range(3):
            m = {mu: subst(x, {q: y for q, y in m.items() if q is not mu}) for mu, x in m.items()}
        self.inmap = dict(m)
        fin = {k: subst(x, m) for k, x in fin.items()}
        X = subst(X, m)
        anyX = self.any_exit(X)
        outs = []
        first = self.e.M.firstof(src, b, X) if X is not F else None
        cut = self.until(X, m, fin, comps) if X is not F and X is not T else {}
        mx = dict(m)
        mx.update(cut)
        for tgt, gg, ss in self.exits:
            gl = restrict(gg, g)
            if len(self.exits) > 1:
                for mu, c in self.cols.items():
                    gl = self.reframe(gl, c)
            gl = subst(gl, m)
            fm = {b: first}
            xf = subst(X, fm) if X is not F else T
            ge = land(g, anyX, restrict(subst(gl, fm), xf) if len(self.exits) > 1 else T)
            here = land(xf, subst(gl, fm)) if len(self.exits) > 1 else xf
            env = {}
            for k, v in ss.env.items():
                if v is st.env.get(k):
                    env[k] = v
                    continue
                v2 = subst(v, mx)
                v2 = subst(v2, fm) if b in freevars(v2) else v2
                env[k] = core.assume(v2, here)
            outs.append((tgt, ge, State(env)))
        if cs is None or cg is F:
            # every iteration leaves the loop: continue only when there is no element
            s2 = st.copy()
            return outs, (land(g, neg(anyX)), s2)
        s2 = st.copy()
        for k in self.M0:
            s2.env[k] = fin[k]
        return outs, (land(g, neg(anyX)), s2)

    def until(self, X, m, fin, comps):
        """mu -> its value when an iteration leaves the loop: the final form over the elements before that one"""
        if any(q in self.M.values() for q in freevars(X)):
            return {}
        W, bw = core.taken(self.src, self.b, neg(X))
        if W is self.src:
            return {}
        src, b = self.src, self.b
        out = {}
        for k, (mu, v, init) in self.shape.items():
            others = {q: y for q, y in m.items() if q is not mu}
            v = subst(v, others)
            if freevars(v) & (set(self.M.values()) - {mu}):
                continue
            self.src, self.b = W, bw
            w = subst(v, {b: bw})
            r = self.closed(mu, w, init, {mu}) or self.column(mu, w, init, {mu})
            self.src, self.b = src, b
            if r is not None and r[0] is None and b not in freevars(r[1]):
                out[mu] = r[1]
        for k, (mu, v, init) in self.alone.items():
            import folds
            w = subst(v, {b: bw})
            if freevars(w) & (set(self.M.values()) - {mu}):
                continue
            r = folds.special(self.e, W, bw, mu, init, w)
            if r is not None and b not in freevars(r):
                out[mu] = r
        for k in reversed(list(comps)):
            mu, w, keys, cs_ = comps[k]
            parts = [self.M[q] for q in keys]
            if any(p in out for p in parts):
                import folds
                whole = [out.get(p, m.get(p)) for p in parts]
                if all(x is not None for x in whole):
                    out[mu] = subst(w, {p: x for p, x in zip(parts, whole)})
        return out

    def reframe(self, X, c):
        """a condition on what the assigned cells of a carried collection leave alone, read from the initial value"""
        r = frame(tup(X), *c)
        if r is None or not (c[6].k != "mu" or c[6] not in freevars(r)):
            return X
        return r.a[0]

    def any_exit(self, X):
        """some iteration leaves the loop; a running sum that may vanish is judged by its total"""
        bad = []
        for t in atoms(X):
            if t.k == "app" and t.a[0] in ("nz", "ptok") and self.sums:
                ps = [p for p in self.sums if p in subterms(t)]
                if ps:
                    bad.append((t, ps[0]))
        r = F
        for t, p in bad:
            fin = self.sums[p]
            x0 = cofactor(X, t, False)
            X = cofactor(X, t, True)
            if x0 is not X and x0 is not F:
                tot = fin
                if fin.k == "ite" or (fin.k == "adt"):
                    from models import unsome
                    tot = unsome(fin)
                r = lor(r, mapleaf(tot, lambda y: node(mkv("app", t.a[0], y), node(mkv("app", "partial_" + t.a[0], y), F, T), T)))
        return lor(self.e.M.anyof(self.src, self.b, X), r)

    def closed(self, mu, v, init, mus):
        """-> (value inside the iteration or None, final value) or None"""
        b, src = self.b, self.src
        fv = freevars(v)
        others = (fv & mus) - {mu}
        if v is mu:
            return init, init
        # append
        if v.k in ("log", "seq") and v.a[0] is mu:
            ops = v.a[1:]
            if not any((freevars(o) & mus) for o in ops):
                fin = log(init, [comp(T, src, b, *ops)]) if init.k != "ite" else mapleaf(init, lambda x: log(x, [comp(T, src, b, *ops)]))
                return None, fin
            return None
        # struct carrying logs: push field-wise
        if v.k == "upd" and v.a[0] is mu and not others:
            d = {}
            for f, x in v.a[1:]:
                fmu = mkv("fld", mu, f)
                r = self.closed_field(fmu, x, field(init, f), mus, mu)
                if r is None:
                    return None
                d[f] = r
            fin = init
            for f, x in d.items():
                fin = setfield(fin, f, x)
            return None, fin
        if v.k == "ite" and not others:
            fl = field_logs(v, mu)
            if fl is not None:
                fin = init
                for path, ops in fl:
                    if any(freevars(o) & mus for o in ops):
                        return None
                    fin = at_path(fin, path, lambda y: mapleaf(y, lambda z: log(z, [comp(T, src, b, *ops)])))
                return None, fin
        if v.k == "tuple" and init.k == "tuple" and len(v.a) == len(init.a) and not others:
            d = []
            for i, x in enumerate(v.a):
                fmu = mkv("fld", mu, i)
                r = self.closed_field(fmu, x, init.a[i], mus, mu)
                if r is None:
                    return None
                d.append(r)
            return None, tup(*d)
        if others:
            return None
        # counters
        c = self.counter(mu, v)
        if c is not None:
            gd, step = c
            if gd is T:
                inside = app("+", init, app("*", mkv("idx", b), Int(step)))
                final = app("+", init, app("*", app("len", src), Int(step)))
            else:
                inside = app("+", init, app("*", mkv("cnt", src, b, gd, "before"), Int(step)))
                final = app("+", init, app("*", mkv("cnt", src, b, gd), Int(step)))
            return inside, final
        # boolean accumulators
        if v.k == "ite" or v in (T, F):
            at = atoms(v)
            if mu in at or any(lf in (T, F) for _, lf in leaves(v)):
                v1, v0 = cofactor(v, mu, True), cofactor(v, mu, False)
                if mu not in freevars(v1) and mu not in freevars(v0):
                    if v1 is T:
                        ib = tobool(init)
                        return None, lor(ib, self.e.M.anyof(src, b, v0))
                    if v0 is F:
                        ib = tobool(init)
                        return None, land(ib, neg(self.e.M.anyof(src, b, neg(v1))))
        # conditional assignment (last write wins) without reading the old value
        if mu not in fv:
            ne = neg(self.e.M.isempty(src))
            return None, ite(ne, mkv("last", src, b, v), init) if False else mkv("last", src, b, v, init)
        lv = leaves(v)
        if len(lv) >= 2 and any(lf is mu for _, lf in lv):
            gk = F
            ok = True
            for lg, lf in lv:
                if lf is mu:
                    gk = lor(gk, lg)
                elif mu in freevars(lf):
                    ok = False
                if mu in freevars(lg):
                    ok = False
            if ok:
                w = restrict(v, neg(gk))
                if b not in freevars(w):
                    return None, ite(self.e.M.anyof(src, b, neg(gk)), w, init)
                return None, mkv("lastif", src, b, neg(gk), w, init)
        return None

    def own_element(self, mu, init, v):
        """what reading the carried collection at the current position gives, when each step writes only there"""
        b, src = self.b, self.src
        if src is init:
            own = b
        elif src.k == "zip" and init in src.a:
            from models import zel
            own = zel(b, init)
        elif src.k == "range" and src.a[0] is Int(0) and init.k == "bytes" and Int(len(init.a[0])) is src.a[1] and len(set(init.a[0])) == 1:
            own = Int(init.a[0][0])
        else:
            own = self.e.M.index(init, self.e.M.place(b))
        i = self.e.M.place(b)
        for _, x in leaves(v):
            if x is mu or x is init:
                continue
            if x.k != "log" or x.a[0] is not mu or not all(o.k == "op" and o.a[1] in ("setat", "setf") and o.a[2] is i for o in x.a[1:]):
                return None
        return own

    def column(self, mu, v, init, mus):
        """a struct of which one field of one element of a collection is assigned: the other fields keep their
        initial values, so only that cell is carried from iteration to iteration"""
        import folds
        b, src = self.b, self.src
        fl = field_logs(v, mu, True)
        if fl is None or len(fl) != 1:
            return None
        path, ops = fl[0]
        if not ops or any(o.k != "op" or o.a[1] != "setf" or o.a[2:4] != ops[0].a[2:4] for o in ops):
            return None
        g, _, row, f, x = ops[0].a
        for o in ops[1:]:
            # the last assignment that takes place is the one that stays
            g, x = lor(g, o.a[0]), ite(o.a[0], o.a[4], x)
        own = own_row(row, b)
        if not own and (b in freevars(row) or freevars(row) & mus):
            return None
        A, A0 = mu, init
        for q in path:
            A, A0 = field(A, q), field(A0, q)
        from models import index
        cell0 = field(index(A0, row), f)
        self.e._uid += 1
        m2 = mkv("mu", self.e._uid, "cell")
        pair = frame(tup(g, x), mu, init, A, A0, row, f, m2)
        if pair is None:
            return None
        self.cols[mu] = (mu, init, A, A0, row, f, cell0 if own else mkv("mu", self.e._uid, "other"))
        g, x = pair.a
        if freevars(pair) & (mus - {mu}):
            return None
        if own:
            g, x = subst(g, {m2: cell0}), subst(x, {m2: cell0})
            if mu in freevars(g) or mu in freevars(x):
                return None
            return None, at_path(init, path, lambda y: log(y, [comp(T, src, b, op(g, "setf", row, f, x))]))
        nv = ite(g, x, m2)
        r = self.closed(m2, nv, cell0, set())
        fin = r[1] if r is not None else folds.special(self.e, src, b, m2, cell0, nv)
        if fin is None:
            return None
        return None, at_path(init, path, lambda y: log(y, [op(lg, "setf", row, f, lf) for lg, lf in leaves(fin) if lf is not cell0]))

    def closed_field(self, fmu, x, init, mus, mu):
        """closed form of one field of a carried struct"""
        if x is fmu:
            return init
        if x.k in ("log", "seq") and x.a[0] is fmu:
            ops = x.a[1:]
            if any((freevars(o) & mus) for o in ops):
                return None
            return mapleaf(init, lambda y: log(y, [comp(T, self.src, self.b, *ops)]))
        if x.k == "upd" and x.a[0] is fmu:
            fin = init
            for f, y in x.a[1:]:
                r = self.closed_field(mkv("fld", fmu, f), y, field(init, f), mus, mu)
                if r is None:
                    return None
                fin = setfield(fin, f, r)
            return fin
        if mu not in freevars(x) and not (freevars(x) & mus):
            return mkv("last", self.src, self.b, x, init)
        return None

    def counter(self, mu, v):
        def step(x):
            if x.k == "app" and x.a[0] == "+" and x.a[1] is mu and x.a[2].k == "int":
                return x.a[2].a[0]
            return None
        if v.k != "ite":
            s = step(v)
            return (T, s) if s is not None else None
        gd, s = F, None
        for lg, lf in leaves(v):
            if mu in freevars(lg):
                return None
            if lf is mu:
                continue
            q = step(lf)
            if q is None or (s is not None and q != s):
                return None
            s = q
            gd = lor(gd, lg)
        return (gd, s) if s is not None else None


def at_path(v, path, fn):
    if not path:
        return fn(v)
    return setfield(v, path[0], at_path(field(v, path[0]), path[1:], fn))


def own_row(row, b):
    """every element of the loop has a row of its own"""
    if row.k == "app" and row.a[0] == "+" and len(row.a) == 3:
        ns = [x for x in row.a[1:] if x.k == "int"]
        if len(ns) == 1:
            row = row.a[1] if row.a[2] is ns[0] else row.a[2]
    return row.k == "idx" and row.a[0] is b or row is b and b.a[0].k == "range"


def frame(v, mu, init, A, A0, row, f, cell):
    """v with reads of the carried struct mu replaced by reads of its initial value, and the assigned cell by
    `cell`; None when another element's assigned field, or the struct as a whole, is read"""
    at = mkv("app", "index", A, row)
    v = subst(v, {mkv("fld", at, f): cell})

    def element(t):
        """t denotes an element of A"""
        if t.k == "app" and t.a[0] == "index" and t.a[1] is A:
            return True
        if t.k == "zel" and t.a[1] is A:
            return True
        return t.k == "b" and t.a[0] is A
    seen = set()

    def ok(t, binder=False):
        if t is mu:
            return False
        if mu not in freevars(t):
            return True
        if t in seen:
            return True
        if element(t):
            return binder
        seen.add(t)
        if t is A:
            return False
        if t.k == "fld":
            if element(t.a[0]):
                return t.a[1] != f and all(ok(y) for y in t.a[0].a[2:] if isinstance(y, V))
            if t.a[0] is mu:
                return True
        kids = []
        if t.k in ("any", "first", "cnt", "last", "lastif", "cmp", "argmin"):
            for y in t.a:
                if isinstance(y, V) and y.k == "b":
                    if not ok(y, True):
                        return False
                elif isinstance(y, V):
                    kids.append(y)
        elif t.k == "b":
            kids = [t.a[0]]
        else:
            for y in t.a:
                if isinstance(y, V):
                    kids.append(y)
                elif isinstance(y, tuple):
                    kids += [z for z in y if isinstance(z, V)]
        if t.k in ("any", "first", "cnt", "last", "lastif", "cmp", "argmin", "b", "zip") or t.k == "app" and t.a[0] == "len":
            # walking the collection, or counting it, reads no element's field
            kids = [y for y in kids if y is not A]
        return all(ok(y) for y in kids)
    if not ok(v):
        return None
    return subst(subst(v, {A: A0}), {mu: init})


def field_logs(v, mu, deps=False):
    """a carried struct to whose collection fields operations are appended, under conditions
    -> [(field path, operations)] or None"""
    out = {}

    def walk(x, cur, path, g):
        if x is cur:
            return True
        if x.k == "upd" and x.a[0] is cur:
            return all(walk(y, field(cur, f), path + (f,), g) for f, y in x.a[1:])
        if x.k == "log" and x.a[0] is cur and (path or deps):
            out.setdefault(path, []).extend(guard_op(o, g) for o in x.a[1:])
            return True
        if x.k == "ite":
            return all(walk(lf, cur, path, land(g, lg)) for lg, lf in leaves(x))
        return False
    if not walk(v, mu, (), T):
        return None
    if not deps and any(mu in freevars(o) for ops in out.values() for o in ops):
        return None
    return sorted(out.items())


class Ctx:
    """argument bundle for models"""
    __slots__ = ("e", "ca", "args", "tys", "retty", "body", "st", "g", "span")

    def __init__(self, e, ca, args, tys, retty, body, st, g, span):
        self.e, self.ca, self.args, self.tys, self.retty = e, ca, args, tys, retty
        self.body, self.st, self.g, self.span = body, st, g, span

    def val(self, i):
        """argument with references resolved"""
        return self.e.deref_all(self.st, self.args[i], self.g)

    def shallow(self, i):
        """argument i with its outermost reference resolved"""
        def one(x):
            if x.k == "ref":
                return self.shallow_ref(x)
            return x
        return mapleaf(self.args[i], one)

    def shallow_ref(self, x):
        v = self.e.getloc(self.st, x.a[0], tuple(x.a[1:]), self.g)
        if v.k == "ref":
            return self.shallow_ref(v)
        return v

    def reflocs(self, i):
        """[(guard, key, projs)] of the &mut argument i"""
        out = []
        for lg, lf in leaves(self.args[i]):
            n = 0
            while lf.k == "ref":
                v = self.e.getloc(self.st, lf.a[0], tuple(lf.a[1:]), self.g)
                if v.k == "ref" and n < 8:
                    lf = v
                    n += 1
                    continue
                break
            if lf.k == "ref":
                out.append((lg, lf.a[0], tuple(lf.a[1:])))
            else:
                out.append((lg, None, lf))
        return out

    def update(self, i, fn):
        """apply fn to the value behind &mut argument i"""
        for lg, key, pr in self.reflocs(i):
            if key is None:
                self.e.world(self.st, self.g, "mut:" + self.ca.cname, [pr] + [self.val(j) for j in range(len(self.args)) if j != i], self.span, self.body)
                continue
            old = self.e.getloc(self.st, key, pr, self.g)
            new = mapleaf(old, fn) if old.k == "ite" else fn(old)
            self.e.setloc(self.st, key, pr, new, lg)

    def call(self, fv, args):
        v, st, g = self.e.call_value(fv, args, self.st, self.g, self.body, self.span)
        self.st, self.g = st, g
        return v

    def call_under(self, cond, fv, args):
        """call fv only under cond; state effects are guarded; returns value (valid under cond)"""
        gg = land(self.g, cond)
        if gg is F:
            return UNDEF
        v, st, g2 = self.e.call_value(fv, args, self.st.copy(), gg, self.body, self.span)
        skip = land(self.g, neg(cond))
        lst = []
        if g2 is not F:
            lst.append((g2, st))
        if skip is not F:
            lst.append((skip, self.st))
        r = self.e.merge_plain(lst)
        if r is None:
            self.g = F
            return UNDEF
        self.g, self.st = r
        if g2 is F:
            return UNDEF
        return v

    def panic(self, kind, cond, ops):
        bad = land(self.g, cond)
        self.e.checked += 1
        if bad is not F:
            self.e.panic(self.body, kind, bad, self.span, ops, self.ca.cname, cond)


class Callee:
    def __init__(self, eng, body, info):
        self.eng = eng
        self.body = body
        self.info = info
        self.defp = info["def"]
        self.name = info["name"]
        self.resp = info.get("res")
        Tt = body.T
        def arg(a):
            if isinstance(a, int):
                return Tt[a]
            n = cvalue(a, body.sub) if "/#" in a else None
            return "%d_usize" % n if n is not None else a
        self.args = [arg(a) for a in info["args"]]
        self.selfty = Tt[info["self"]] if "self" in info else None
        self.resself = Tt[info["resself"]] if "resself" in info else None
        self.resargs = [arg(a) for a in info["resargs"]] if "resargs" in info else None
        self.trait = info.get("trait")
        self.item = info.get("item") or self.defp.split("::")[-1]
        self.crate = info.get("crate")
        self.diverges = False
        if body.sub and self.trait and self.resp is None and self.selfty is not None and self.selfty.k != "param":
            # the type that decides is known here
            b = eng.p.find_trait_impl(self.trait, self.item, self.selfty, [a for a in self.args[1:] if isinstance(a, Ty)])
            if b is not None:
                self.resp, self.resself = b.path, self.selfty
        self.trait_item = None
        if self.trait:
            self.trait_item = self.trait.split("::")[-1] + "::" + self.item
        st = self.selfty
        if st is not None:
            b = st
            if b.k in ("ref", "ptr") and not self.trait:
                b = b.strip()
            if self.trait:
                b = st.strip() if st.k in ("ref", "ptr") else st
            sh = {"slice": "slice", "array": "array", "str": "str"}.get(b.k) or b.short()
            if self.trait and b.k in ("param", "proj", "alias", "other"):
                sh = self.trait.split("::")[-1]
            self.cname = sh + "::" + self.item
            self.selfshort = sh
        else:
            segs = [s for s in self.defp.split("::") if not s.startswith("{")]
            self.cname = "::".join(segs[-2:]) if len(segs) > 1 else segs[-1]
            self.selfshort = None
        if self.trait_item in ("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into", "FromStr::from_str"):
            pass
        if re.search(r"panicking::(panic|assert_failed|unreachable|panic_fmt|panic_display|panic_explicit)", self.defp) or self.defp.startswith("core::panicking") or self.cname in ("panicking::begin_panic", "rt::begin_panic", "result::unwrap_failed", "option::expect_failed", "process::exit"):
            self.diverges = True
        self._v = None

    def value(self):
        if self._v is None:
            h = Holder(self)
            self._v = mkv("fnitem", self.cname + "<%s>" % ",".join(a.long(True) if isinstance(a, Ty) else str(a) for a in self.args), h)
        return self._v

    def argtys(self, n):
        b = self.localbody()
        if b is not None:
            return [b.locals[i + 1] for i in range(b.argc)]
        return [None] * n

    def localbody(self):
        p = self.eng.p
        for d in (self.resp, self.defp):
            if d is not None and d in p.bodies and p.bodies[d].kind == "fn":
                if d == self.defp and self.trait and self.resp is None:
                    # default method or unresolved trait method
                    pass
                return p.bodies[d]
        return None


class Holder:
    """hashable wrapper so a Callee can sit in a value"""

    def __init__(self, obj):
        self.obj = obj

    def __hash__(self):
        return hash((self.obj.defp, self.obj.cname, tuple(a.long(True) if isinstance(a, Ty) else str(a) for a in self.obj.args)))

    def __eq__(self, o):
        return isinstance(o, Holder) and (o.obj.defp, o.obj.cname, [a.long(True) if isinstance(a, Ty) else str(a) for a in o.obj.args]) == (self.obj.defp, self.obj.cname, [a.long(True) if isinstance(a, Ty) else str(a) for a in self.obj.args])

    def __str__(self):
        return ""


class Summary:
    def __init__(self, eng, body, args, ret, st, g):
        self.e = eng
        self.body = body
        self.args = args
        self.ret = ret
        self.st = st
        self.g = g

    def root(self, nm):
        return self.st.env.get(("root", nm))

    @property
    def world(self):
        return self.st.env.get("W")

    def retval(self):
        return self.e.deref_all(self.st, self.ret, self.g)


def liveness(body, cfg):
    n = len(body.blocks)
    use, dfn = {}, {}
    borrowed = set()

    def pl(p, u, d, write):
        if write and len(p) == 1:
            d.add(p[0])
            return
        if p[0] not in d:
            u.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                u.add(e[1])

    def opn(o, u, d):
        if "c" in o:
            pl(o["c"], u, d, False)
        elif "m" in o:
            pl(o["m"], u, d, False)

    for b in cfg.rpo:
        u, d = set(), set()
        blk = body.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] in ("use",):
                    opn(r[1], u, d)
                elif r[0] == "ref":
                    if r[1] == "fake":
                        continue
                    pl(r[2], u, d, False)
                    if r[1] in ("mut", "raw") and not any(e == "*" for e in r[2][1:]):
                        borrowed.add(r[2][0])
                elif r[0] == "discr":
                    pl(r[1], u, d, False)
                elif r[0] == "agg":
                    for o in r[2]:
                        opn(o, u, d)
                elif r[0] == "bin":
                    opn(r[2], u, d)
                    opn(r[3], u, d)
                elif r[0] == "un":
                    opn(r[2], u, d)
                elif r[0] == "cast":
                    opn(r[2], u, d)
                elif r[0] == "repeat":
                    opn(r[1], u, d)
                pl(s[1], u, d, True)
        t = blk["t"]
        if t[0] == "switch":
            opn(t[1], u, d)
        elif t[0] == "call":
            opn(t[1], u, d)
            for o in t[2]:
                opn(o, u, d)
            pl(t[3], u, d, True)
        elif t[0] == "assert":
            opn(t[1], u, d)
            for o in t[4]:
                opn(o, u, d)
        elif t[0] == "return":
            if 0 not in d:
                u.add(0)
        use[b], dfn[b] = u, d
    live = {b: set(use[b]) for b in cfg.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo):
            o = set()
            for s in cfg.succ[b]:
                if s in live:
                    o |= live[s]
            n_ = use[b] | (o - dfn[b])
            if n_ != live[b]:
                live[b] = n_
                ch = True
    return live, borrowed
