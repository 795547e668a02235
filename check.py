#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current source by static analysis and rewrites evidence/<property>.json.
exit 0: held; exit 1 with a VIOLATION line otherwise."""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import obligations
    obs = obligations.PROPS[pid]
    from extract import extract, ExtractError, BUILD
    results, spec_error, src = [], None, ""
    try:
        crates, src = extract()
        from program import Program
        import judge
        P = Program(crates)
        f = os.path.join(BUILD, "mir", src, "spec_error")
        if os.path.exists(f):
            spec_error = open(f).read()
        for ob in obs:
            r = judge.run(P, ob, obligations.KNOWN_CALLS)
            r.ob = ob
            results.append(r)
    except ExtractError as e:
        spec_error = str(e)
    bad = [r for r in results if r.verdict == "violation"]
    known = known_findings(pid)
    new, old = [], []
    for r in bad:
        (old if key(r) in known else new).append(r)
    opens = [r for r in results if r.verdict == "open"]
    ok = [r for r in results if r.verdict == "ok"]
    fns = sorted({f for r in results for f in getattr(r, "fns", [])})
    cov = {
        "explanation": "Static analysis of the compiler's MIR of /repo's current source: every path of each entry point is "
                       "summarised by value flow into a canonical normal form; each obligation compares that normal form with "
                       "the one of a reference statement, or discharges every panicking construct reached, or decides a "
                       "structural query over the same program representation.",
        "source": src,
        "obligations": len(obs), "discharged": len(ok), "inconclusive": len(opens),
        "rules": [{"obligation": r.ob.name, "rule": r.ob.rule(), "verdict": r.verdict, "detail": detail(r)} for r in results],
        "functions_analysed": len(fns), "functions": fns,
        "samples": [r.ob.name for r in results][:5],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": obligations.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in ok:
        print("ok        %s" % r.ob.name)
    for r in opens:
        print("no verdict %s: %s" % (r.ob.name, r.why[:400]))
    for r in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, r.ob.name, r.where))
    if spec_error and not results or new:
        rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for r in new:
                f.write("obligation: %s\nrule: %s\nat: %s\n%s\nfunctions analysed:\n  %s\n\n" % (
                    r.ob.name, r.ob.rule(), r.where, r.why, "\n  ".join(r.fns)))
            if spec_error:
                f.write("build:\n" + spec_error)
        for r in new:
            print("%s\n  at %s\n  %s" % (r.ob.name, r.where, r.why[:1500]))
        if spec_error:
            print(spec_error[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("property %s: %d/%d obligations discharged, %d without verdict (%.1fs)" % (pid, len(ok), len(obs), len(opens), time.time() - t0))
    return 0


def detail(r):
    d = {k: v for k, v in r.__dict__.items() if k in ("cases", "terms", "sites", "why", "where")}
    for k in list(d):
        if isinstance(d[k], str):
            d[k] = d[k][:500]
    return d


def key(r):
    return "%s | %s" % (r.ob.name, r.where)


def known_findings(pid):
    out = set()
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.add(l.split(" ", 2)[2].split(" ## ")[0].strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
