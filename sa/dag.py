"""Readable printing of shared terms: repeated large subterms are let-bound."""
from core import *
import core


def dag(vs, minlen=40):
    """vs: list of (label, V) -> text with let-bindings for shared subterms"""
    cnt = {}
    order = []

    def visit(v):
        if v in cnt:
            cnt[v] += 1
            return
        cnt[v] = 1
        for x in v.a:
            if isinstance(x, V):
                visit(x)
            elif isinstance(x, tuple):
                for z in x:
                    if isinstance(z, V):
                        visit(z)
        order.append(v)
    for _, v in vs:
        visit(v)
    names = {}
    out = []
    n = [0]
    for v in order:
        if v.k in ("param", "int", "bytes", "adt") and len(v.a) < 3:
            continue
        txt = core_show(v, names)
        if (cnt[v] > 1 and len(txt) > minlen) or len(txt) > 220:
            nm = "$%d" % n[0]
            n[0] += 1
            out.append("    let %s = %s" % (nm, txt))
            names[v] = nm
    for l, v in vs:
        out.append("  %s: %s" % (l, core_show(v, names)))
    return "\n".join(out)


def core_show(v, names):
    import core as c
    old = c.show

    def sh(x, d=0, mx=200):
        if x in names:
            return names[x]
        return old(x, d, mx)
    c.show = sh
    try:
        return old(v, 0, 200)
    finally:
        c.show = old
