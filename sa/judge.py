"""Decides one obligation: 'ok' | 'violation' | 'open' (analysis gave no verdict), with a report."""
import json, os, traceback
from core import *
import core
import models
from compare import outcome, compare_outcomes, facts, align, differ, clip, _match_atoms
from engine import Unsupported
from models import is_ok, unok
from obligations import Same, Quiet, Reported, Told, Shown, Anchored
from panics import remaining, axioms, unexpected, evident, unsettled
from program import human

RESIDUE = {"fold", "foldv", "prefix", "while", "opaquefn", "wlast", "resume"}


class Result:
    def __init__(self, ob, verdict, **kw):
        self.ob, self.verdict = ob, verdict
        self.__dict__.update(kw)


STD = ("core::", "std::", "alloc::", "hashbrown::", "tokio::", "futures", "tracing")


def crates_of(o):
    """opaque name -> True when every callee of that name belongs to a general purpose library"""
    d = {}
    for c in o.E.calls:
        ca = c["ca"]
        d[c["name"]] = d.get(c["name"], True) and (ca is None or ca.defp.startswith(STD))
    return d


def names_of(o, kind="all"):
    s = set()
    for v in values(o, kind):
        for x in subterms(v):
            if x.k == "app":
                s.add(x.a[0])
            elif x.k == "op" and len(x.a) > 1 and isinstance(x.a[1], str):
                s.add(x.a[1])
    return s


def values(o, kind="all"):
    """what is compared: the text of an error counts only where the whole value does"""
    return ([is_ok(o.ret), unok(o.ret)] if kind == "ok" else [o.ret]) + list(o.roots.values()) + [o.world]


def kinds(o):
    s = set()
    for v in values(o):
        for x in subterms(v):
            s.add(x.k)
    return s & RESIDUE


def loops_of(o):
    return {x for v in values(o) for x in subterms(v) if x.k in ("while", "fold")}


def reached(o, P):
    out = []
    for p in sorted(o.E.visited):
        b = P.bodies.get(p)
        if b is not None and b.crate != "sp_spec" and "{closure" not in p:
            out.append("%s (%s)" % (human(b), b.span.split(":")[0]))
    return out


def run(P, ob, known):
    """every obligation is evaluated in a process of its own, so that the (creation-ordered) normal forms do not
    depend on what was analysed before; a difference is confirmed with the reference evaluated first"""
    r = forked(lambda: _guarded(P, ob, known, False))
    if r.verdict != "ok" and isinstance(ob, Same):
        r2 = forked(lambda: _guarded(P, ob, known, True))
        if r2.verdict == "ok" or (r.verdict == "violation" and r2.verdict == "open"):
            return r2
    if r.verdict == "violation" and isinstance(ob, Same):
        for order in other_orders(r.__dict__.get("plain") or ()):
            r2 = forked(lambda: _guarded(P, ob, known, order))
            if r2.verdict == "ok":
                return r2
    return r


def other_orders(used, most=24):
    """the fields of a private struct have no order of their own: the other ways to write such a struct as a tuple"""
    from itertools import permutations, product
    ways = [[(p, o) for o in permutations(range(n))] for p, n in used]
    total = 1
    for w in ways:
        total *= len(w)
    if not ways or total > most:
        return []
    return [dict(c) for c in list(product(*ways))[1:]]


def forked(fn):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            r = fn()
            d = dict(r.__dict__)
            d.pop("ob")
            with os.fdopen(wr, "w") as f:
                json.dump(d, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    os.waitpid(pid, 0)
    try:
        d = json.loads(text)
    except ValueError:
        d = dict(verdict="open", why="analysis process ended without a result", fns=[])
    return Result(None, **d)


def _guarded(P, ob, known, flip):
    try:
        if isinstance(flip, dict):
            core.PLAIN.update(flip)
            flip = False
        r = _run(P, ob, known, flip)
        if r.verdict == "violation":
            r.plain = [(p, len(core.PLAIN[p])) for p in sorted(core.PLAIN_USED)]
        return r
    except Unsupported as e:
        return Result(ob, "open", why="construct outside the analysed fragment: %s" % e, fns=[])
    except RecursionError:
        return Result(ob, "open", why="recursion limit", fns=[])
    except Exception as e:  # the analysis itself failed: no verdict
        return Result(ob, "open", why="analysis error %s: %s" % (type(e).__name__, str(e)[:200]), fns=[],
                      trace=traceback.format_exc()[-1500:])


def _reported(P, ob):
    """-> list of results, one per offending method, and one for all others"""
    out, fns = [], []
    for b in sorted(P.bodies.values(), key=lambda b: b.path):
        if b.kind != "fn" or not b.pub or b.crate != ob.crate or b.impltrait or b.implself is None or b.argc == 0:
            continue
        t = b.implself.strip()
        a0 = b.locals[1]
        if t.k != "adt" or not t.p.endswith("::" + ob.type_) or a0.k != "ref" or not a0.m:
            continue
        if any(ob.carrier in x.long() for x in [b.ret]):
            fns.append(human(b) + " (returns it)")
            continue
        o = outcome(P, b)
        changed = []
        for part in ob.parts:
            v0, v1 = mkv("param", "a0"), o.roots.get("a0", UNDEF)
            for f in part.split("."):
                v0, v1 = field(v0, f), field(v1, f)
            if v1 is not v0 and differ(v0, v1, o.guard) is not None:
                changed.append(part)
        fns.append(human(b))
        if changed and b.path.split("::")[-1] not in ob.restoring:
            out.append((human(b), changed))
    return out, fns


def settled(g):
    """the part of a condition the axioms on library facts do not refute"""
    for _ in range(3):
        g2 = land(g, axioms(g))
        if g2 is g:
            break
        g = g2
    return g


def seq():
    return mkv("seq", EMPTY)


def _told(P, ob, b):
    o = outcome(P, b)
    ts = subterms(o.world)
    sent = [t for t in ts if t.k == "app" and t.a[0] == "await" and t.a[1].k == "app" and t.a[1].a[0] == ob.request]
    parsed = [t for t in ts if t.k == "app" and t.a[0] == "de::from_str" and any(s in subterms(t) for s in sent)]
    if not sent or not parsed:
        return Result(ob, "open", why="no request found whose answer is decoded", fns=reached(o, P))
    fail = {t: F for t in ts if t.k == "is" and t.a[0] in sent and t.a[1] == 0}
    answered = {t: T for t in ts if t.k == "is" and t.a[1] == 0 and t.a[0].k == "app" and t.a[0].a[0] in ("await", "Url::join", "de::from_str")}
    empty = {t: seq() for t in ts if t.k == "proj" and t.a[0] in parsed and t.a[1] == 0}
    bad, good = subst(o.world, fail), subst(subst(o.world, answered), empty)
    if differ(bad, good) is None:
        return Result(ob, "violation", where=ob.fn, fns=reached(o, P),
                      why="the effects are the same whether %s fails or answers with an empty list" % ob.request)
    return Result(ob, "ok", fns=reached(o, P))


def _anchored(P, ob, b):
    o = outcome(P, b)
    fns = reached(o, P)
    calls = [c for c in o.E.calls if c["name"] == ob.call and c["args"][1].k == "app" and c["args"][1].a[0] == "Transaction::compute_txid"
             and c["args"][1].a[1].k == "b"]
    info = dict(fns=fns, cases=len(calls))
    if not calls:
        return Result(ob, "open", why="no transaction of a block is recorded in a known way", **info)
    for c in calls:
        tx = c["args"][1].a[1]
        # a transaction that pays nobody here: no condition on an output is true, what is found is empty
        out = field(tx, "output")
        paid = {a: F for a in atoms(c["guard"]) if a.k == "any" and a.a[0] is out}
        paid.update({a: T for a in atoms(c["guard"]) if (a.k == "le" and a.a[1] == 0 or a.k == "app" and a.a[0].endswith("::is_empty"))
                     and (out in subterms(a) or a.k == "app" and a.a[1].k == "named" and str(a.a[1].a[0]).startswith("Default<"))})
        if settled(subst(c["guard"], paid)) is F:
            return Result(ob, "violation", where="%s (%s)" % (c["fn"], c["span"].split(":")[0]),
                          why="a transaction that spends is only recorded depending on %s" % " and ".join(clip(a, 300) for a in paid), **info)
        src = tx.a[0]
        at = [t for t in subterms(c["args"][2]) if t.k == "adt" and t.a[0].endswith("::TxPosInBlock")]
        if src.k == "it:skip" and src.a[1].k == "int" and src.a[1].a[0] > 1:
            return Result(ob, "violation", where="%s (%s)" % (c["fn"], c["span"].split(":")[0]),
                          why="the first %d transactions of a block are passed over" % src.a[1].a[0], **info)
        src = src.a[0] if src.k == "it:skip" else src
        if len(at) != 1 or src.k != "fld":
            return Result(ob, "open", why="anchor of an unknown form", **info)
        block = field(at[0], "block")
        got, ref = field(field(at[0], "block_id"), "hash"), app("Block::block_hash", block)
        for name, got, ref in (("block", field(block, "txdata"), src), ("hash", got, ref)):
            if name == "hash" and (got.k != "app" or got.a[0] != ref.a[0]):
                continue
            d = differ(got, ref, c["guard"], name)
            if d is not None:
                return Result(ob, "violation", where="%s (%s)" % (c["fn"], c["span"].split(":")[0]),
                              why="the anchor's %s is %s, the transaction's is %s" % (name, clip(got, 300), clip(ref, 300)), **info)
    return Result(ob, "ok", **info)


def _implies_done(g, name):
    """a condition that only holds once the call has answered Ok"""
    done = [a for a in atoms(g) if a.k == "is" and a.a[1] == 0 and a.a[0].k == "app" and a.a[0].a[0] == name]
    return any(cofactor(g, a, False) is F for a in done)


def _shown(P, ob, b, known):
    a = P.adts.get(ob.enum)
    v = next((v for v in (a or {}).get("v", ()) if v["n"] == ob.variant), None)
    if v is None:
        return Result(ob, "violation", where=ob.enum, why="anchor missing: no command %s" % ob.variant, fns=[])
    fields = [f["n"] for f in v["f"]]
    s = P.fn(ob.spec)
    if s is None or any(n not in fields for n in ob.args):
        raise Unsupported("reference function or argument of the command missing")
    o, w = outcome(P, b), outcome(P, s)
    fns = reached(o, P)
    ts = subterms(o.world)
    asked = [t for t in ts if t.k == "proj" and t.a[1] == v["d"] and t.a[0].k == "fld" and t.a[0].a[1] == "command"]
    loaded = [t for t in ts if t.k == "app" and t.a[0] == "Store::load"]
    if ob.stored == "*":
        kept = [t for t in ts if t.k == "proj" and t.a[1] == 1 and any(x in loaded for x in subterms(t.a[0]))]
    else:
        kept = [t for t in ts if t.k == "fld" and t.a[1] == ob.stored and any(x in loaded for x in subterms(t.a[0]))]
    if not asked or (ob.stored and not kept):
        return Result(ob, "open", why="command or stored state not found", fns=fns)
    base = asked[0].a[0]
    sub = {mkv("param", "a%d" % i): proj(base, v["d"], fields.index(n)) for i, n in enumerate(ob.args)}
    if ob.stored:
        sub[mkv("param", "a%d" % len(ob.args))] = min(kept, key=lambda t: len(subterms(t)))
    want, ok = subst(unok(w.ret), sub), subst(land(w.guard, is_ok(w.ret)), sub)
    first = proj(base, v["d"], fields.index(ob.args[0]))
    if ob.way == "display":
        made = [t for t in ts if t.k == "app" and t.a[0] == "display"]
    else:
        made = [c["args"][1] for c in o.E.calls if c["name"] == ob.way]
    made = sorted((t for t in made if first in subterms(t)), key=lambda t: -len(subterms(t)))
    info = dict(fns=fns, cases=len(made), terms=len(subterms(want)))
    if not made:
        return Result(ob, "violation", where=b.path, why="%s %s nothing made from its %s" % (
            ob.variant, "prints" if ob.way == "display" else "stores", ob.args[0]), **info)
    if want.k == "adt" and want.a[0].startswith("sp_spec::"):
        # the type that is stored belongs to the program: compare field by field
        names = FIELDNAMES.get((want.a[0], want.a[1]), ())
        made, want = [mkv("tuple", *[field(t, n) for n in names]) for t in made], mkv("tuple", *[field(want, n) for n in names])
    d = None
    for t in made:
        d = differ(t, want, ok)
        if d is None:
            early = [c for c in o.E.calls if ob.after and c["name"] == "stdio::_print" and any(t in subterms(a) for a in c["args"])
                     and not _implies_done(c["guard"], ob.after)]
            if early:
                return Result(ob, "violation", where="%s (%s)" % (early[0]["fn"], early[0]["span"].split(":")[0]),
                              why="printed without %s having succeeded" % ob.after, **info)
            return Result(ob, "ok", **info)
    o.ret, o.world, o.roots = made[-1], mkv("world"), {}
    w.ret, w.world, w.roots = want, mkv("world"), {}
    return _differs(ob, d, o, w, known, info)


def _run(P, ob, known, flip=False):
    if isinstance(ob, Reported):
        bad, fns = _reported(P, ob)
        if not fns:
            return Result(ob, "violation", where=ob.type_, why="anchor missing: no public method found", fns=[])
        if bad:
            return Result(ob, "violation", where="; ".join(n for n, _ in bad), fns=fns,
                          why="; ".join("%s changes %s without returning a %s" % (n, ", ".join(c), ob.carrier) for n, c in bad))
        return Result(ob, "ok", fns=fns)
    b = P.fn(ob.code)
    if b is None:
        return Result(ob, "violation", where=ob.code, why="anchor missing: the public entry point of the obligation no longer builds", fns=[])
    if isinstance(ob, Told):
        return _told(P, ob, b)
    if isinstance(ob, Anchored):
        return _anchored(P, ob, b)
    if isinstance(ob, Shown):
        return _shown(P, ob, b, known)
    if isinstance(ob, Quiet):
        o = outcome(P, b, eqlen=ob.eqlen)
        left = [(p, r) for p, r in ((p, remaining(p)) for p in o.panics) if r is not F]
        fns = reached(o, P)
        bad = [(p, r) for p, r in left if evident(p) and not unsettled(r)]
        if bad:
            p, r = bad[0]
            return Result(ob, "violation", where="%s in %s (%s)" % (p["name"] or p["kind"], p["fn"], p["span"].split(":")[0]),
                          why="panic reachable when %s" % clip(r, 900), fns=fns, sites=o.E.checked)
        if left:
            return Result(ob, "open", why="%s in %s: not shown unreachable, when %s" % (left[0][0]["kind"], left[0][0]["fn"], clip(left[0][1], 300)), fns=fns)
        return Result(ob, "ok", fns=fns, sites=o.E.checked)
    s = P.fn(ob.spec)
    if s is None:
        raise Unsupported("reference function missing: " + ob.spec)
    if flip:
        os_ = outcome(P, s, eqlen=ob.eqlen)
    oc = outcome(P, b, eqlen=ob.eqlen)
    if not flip:
        os_ = outcome(P, s, eqlen=ob.eqlen)
    d = compare_outcomes(oc, os_, ob.kind)
    if d is not None:
        align(oc, os_)
        d = compare_outcomes(oc, os_, ob.kind)
    if d is not None:
        f = facts(oc, os_)
        if f is not T:
            d = compare_outcomes(oc, os_, ob.kind, f)
    fns = reached(oc, P)
    info = dict(fns=fns, cases=len(leaves(oc.ret)), terms=sum(len(subterms(v)) for v in values(oc)))
    if d is None:
        stops = settled(land(os_.guard, neg(oc.guard)))
        if stops is F:
            u = unexpected(oc.panics, os_.panics, os_.guard, differ, _match_atoms)
            if u is None:
                return Result(ob, "ok", **info)
            d = ("%s in %s (%s)" % (u[0]["name"] or u[0]["kind"], u[0]["fn"], u[0]["span"].split(":")[0]), u[1], None)
        else:
            d = ("termination", stops, None)
    return _differs(ob, d, oc, os_, known, info)


def _differs(ob, d, oc, os_, known, info):
    """the two sides differ: a violation, unless a part of the code has no known meaning"""
    lib, kind = crates_of(oc), getattr(ob, "kind", "all")
    unknown = sorted(n for n in names_of(oc, kind) - names_of(os_, kind) - known if lib.get(n, False))
    resid = sorted(kinds(oc) - kinds(os_))
    lc, ls = loops_of(oc), loops_of(os_)
    if len(lc) > len(ls) and any(x.k == "while" for x in lc - ls):
        resid = resid or ["while"]
    if resid:
        return Result(ob, "open", why="loop or closure without a closed form: %s" % ", ".join(resid), **info)
    if unknown:
        return Result(ob, "open", why="calls whose meaning is not known: %s" % ", ".join(unknown), **info)
    if d[2] is None:
        return Result(ob, "violation", where=d[0], why="panics where the reference returns: when %s" % clip(d[1], 900), **info)
    return Result(ob, "violation", where=d[0], why="got %s; want %s" % (clip(d[1], 900), clip(d[2], 900)), **info)
