#!/usr/bin/env python3
"""mkseed.py <spec.py>...: builds and confirms planted bugs.

A spec file defines ID, PROP, EDITS=[(file, old, new)], DEMO (Rust source of a main), NEEDS, BREAKS and optionally
DEPS (toml lines).  Writes seeded/<ID>/, applies the patch in /repo, builds, runs the stable tests, runs the demo
with and without it, runs the property's check (and all, with --all), and undoes the patch."""
import json, os, subprocess, sys, shutil, tempfile
V = "/verif"
CORE = 'bdk_sp = { path = "/repo/silentpayments", features = ["serde", "psbt_sp_spend"] }\n'
SH = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not
H="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$H/demo.rs" "$D/src/main.rs"
cp "$H/demo.toml" "$D/Cargo.toml"
cp /repo/Cargo.lock "$D/Cargo.lock"
cd "$D" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET:-$D/target}"
timeout 280 cargo run -q --offline
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def base_tests():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "stable", "tests", "pass"):
        if k in d:
            return set(d[k] if isinstance(d[k], list) else d[k].keys())
    return set()


def main():
    full = "--all" in sys.argv
    demo_only = "--nodemo" not in sys.argv
    for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
        ns = {"CORE": CORE}
        exec(open(f).read(), ns)
        one(ns, full)


def one(ns, full):
    sid, d = ns["ID"], os.path.join(V, "seeded", ns["ID"])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    os.makedirs(d, exist_ok=True)
    try:
        for (p, old, new) in ns["EDITS"]:
            t = open("/repo/" + p).read()
            assert t.count(old) == 1, (p, t.count(old), old)
            open("/repo/" + p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(ns["DEMO"].lstrip())
        open(d + "/demo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' + ns.get("DEPS", CORE))
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, DEMO_TARGET="/tmp/demo-target")
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(sid, "BUILD FAILS", (b.stdout + b.stderr)[-1500:]); return
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        t = tests("/tmp/seed-out.json")
        missing = sorted(base_tests() - t)
        x = sh("bash %s/demo.sh" % d, cwd="/repo", env=env)
        checks = json.load(open(V + "/MANIFEST.json"))["checks"]
        got = []
        for c in checks:
            pid = c.get("property") or c.get("id")
            if full or pid == ns["PROP"]:
                r = sh("VERIF_TIER=quick python3 check.py %s" % pid, cwd=V)
                if r.returncode == 1 and "VIOLATION property=%s" % pid in r.stdout:
                    got.append(pid)
                elif r.returncode or "no verdict" in r.stdout:
                    got.append(pid + "?" + [l for l in (r.stdout + r.stderr).splitlines() if "no verdict" in l or r.returncode][:1][0][:200])
    finally:
        sh("git -C /repo checkout -- .")
    y = sh("bash %s/demo.sh" % d, cwd="/repo", env=env)
    print(sid, ns["PROP"], "tests lost:", missing[:3], "demo with/without:", x.returncode, y.returncode, "caught by:", got, flush=True)
    if x.returncode == 0: print((x.stdout + x.stderr)[-500:])
    if y.returncode != 0: print((y.stdout + y.stderr)[-1500:])


def tests(f):
    d = json.load(open(f))
    for k in ("passed", "stable", "tests", "pass"):
        if k in d:
            return set(d[k] if isinstance(d[k], list) else [a for a, b in d[k].items() if b in (True, "pass", "passed", "ok")])
    return set()


if __name__ == "__main__":
    main()
