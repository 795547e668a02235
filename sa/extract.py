"""Builds the MIR exporter, runs it over /repo's current working tree, returns the exported crates.

An overlay workspace (symlinks into /repo, a Cargo.toml without the members that need a git
dependency which is not available offline) is created under /verif/.build, never in /repo.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, ".build"))
CRATES = ["bdk_sp", "dleq", "indexer", "bdk_sp_oracles", "sp_cli1"]
SPEC = "sp_spec"


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del e[k]
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             BITCOIND_SKIP_DOWNLOAD="1", ELECTRSD_SKIP_DOWNLOAD="1")
    return e


def _sysroot(e):
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, check=True,
                          capture_output=True, text=True).stdout.strip()


def build_driver():
    e = _env()
    src = os.path.join(VERIF, "driver")
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    p = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=src, env=e,
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError("exporter build failed:\n" + p.stderr[-4000:])
    return os.path.join(BUILD, "driver", "release", "mirdump")


def source_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    skip = {"target", ".git", "docs"}
    files = []
    for root, ds, fs in os.walk(repo):
        ds[:] = sorted(d for d in ds if d not in skip)
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, repo).encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    spec = [os.path.relpath(os.path.join(r, f), VERIF) for r, _, fs in os.walk(os.path.join(VERIF, "spec")) for f in fs
            if f.endswith((".rs", ".toml"))]
    for f in ["driver/src/main.rs", "driver/src/json.rs", "sa/extract.py"] + sorted(spec):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def overlay(repo, ws):
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    for d in sorted(os.listdir(repo)):
        if d == "target" or d.startswith("."):
            continue
        if os.path.isdir(os.path.join(repo, d)):
            os.symlink(os.path.join(repo, d), os.path.join(ws, d))
    text = open(os.path.join(repo, "Cargo.toml")).read()
    text = re.sub(r"^(?:default-)?members\s*=\s*\[[^\]]*\]",
                  lambda m: re.sub(r'"(?:wallet|cli/v2)"[ \t]*,?', "", m[0]), text, flags=re.M)
    text = re.sub(r"^(members\s*=\s*\[)", r'\1"spec", ', text, count=1, flags=re.M)
    os.symlink(os.path.join(VERIF, "spec"), os.path.join(ws, "spec"))
    open(os.path.join(ws, "Cargo.toml"), "w").write(text)
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))


def extract(repo=None, quiet=True):
    """-> (dict crate -> parsed json, source hash)"""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash(repo)
        out = os.path.join(BUILD, "mir", h)
        if not os.path.exists(os.path.join(out, "done")):
            drv = os.path.join(BUILD, "driver", "release", "mirdump")
            drv = build_driver()
            ws = os.path.join(BUILD, "ws")
            overlay(repo, ws)
            tgt = os.path.join(BUILD, "target")
            # cargo's freshness cache would skip the wrapper: drop the members' fingerprints
            for fp in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if re.match(r"(bdk_sp|dleq|indexer|bdk_sp_oracles|bdk_sp_cli|sp_fuzz|sp_spec)", d):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            e = _env()
            e["CARGO_TARGET_DIR"] = tgt
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["LD_LIBRARY_PATH"] = _sysroot(e) + "/lib"
            e["MIRDUMP_OUT"] = out
            p = subprocess.run(["cargo", "+nightly", "check", "--keep-going", "--manifest-path", ws + "/Cargo.toml", "--offline",
                                "--workspace", "--exclude", "sp_fuzz", "--all-features", "--lib", "--bins"],
                               cwd=ws, env=e, capture_output=True, text=True)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
            if p.returncode != 0 and missing:
                raise ExtractError("cargo check of the tree failed:\n" + "\n".join(l for l in p.stderr.splitlines() if len(l) < 600)[-6000:])
            if p.returncode != 0:
                open(os.path.join(out, "spec_error"), "w").write("\n".join(l for l in p.stderr.splitlines() if len(l) < 600)[-6000:])
            if missing:
                raise ExtractError("exporter produced nothing for %s\n%s" % (missing, p.stderr[-3000:]))
            open(os.path.join(out, "done"), "w").write("ok")
            # keep only the newest few exports
            base = os.path.join(BUILD, "mir")
            ds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
            for d in ds[:-6]:
                shutil.rmtree(d, ignore_errors=True)
        res = {}
        for c in CRATES + [SPEC]:
            f = os.path.join(out, c + ".json")
            if c == SPEC and not os.path.exists(f):
                continue
            with open(f) as fh:
                res[c] = json.load(fh)
        return res, h


if __name__ == "__main__":
    t = time.time()
    if "--setup" in sys.argv:
        build_driver()
    r, h = extract()
    print("exported", {k: len(v["bodies"]) for k, v in r.items()}, h, "%.1fs" % (time.time() - t))
