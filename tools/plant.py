#!/usr/bin/env python3
"""Makes and confirms planted bugs (not used by any check).

plant.py make FILE     each bug of FILE (a python list PLANTS) into /verif/seeded/<id>, confirmed in a scratch copy of /repo:
                       applies, builds, passes the stable tests, demo.sh passes without it and fails with it
plant.py quiet FILE [BUNDLE...] [PROPERTY...]   runs the checks on bundles of edits that keep the behaviour
plant.py try ID [PROPERTY...]   runs the checks against the bug, in a mount namespace with scratch copies of /repo and /verif
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, time

SEED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# Builds the library from the working directory and runs the program beside this file.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
rustc --edition 2021 --crate-name raw_btree --crate-type rlib --cfg 'feature="dot"' -C debug-assertions=on -o "$d/libraw_btree.rlib" src/lib.rs >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
"""
RUN = """rustc --edition 2021 -A warnings --extern raw_btree="$d/libraw_btree.rlib" -o "$d/demo" "$here/demo.rs" || exit 3
MALLOC_PERTURB_=165 timeout -k 5 60 "$d/demo"
"""
RUN_MUST_NOT_COMPILE = """# must not compile
if rustc --edition 2021 -A warnings --emit=metadata --extern raw_btree="$d/libraw_btree.rlib" -o "$d/demo.rmeta" "$here/demo.rs" 2>"$d/log"; then
  echo "compiles"; exit 1
fi
grep -q 'E0277' "$d/log" || { cat "$d/log"; exit 3; }
"""
RUN_MUST_COMPILE = """# must compile
rustc --edition 2021 -A warnings --emit=metadata --extern raw_btree="$d/libraw_btree.rlib" -o "$d/demo.rmeta" "$here/demo.rs" || exit 1
"""
RUN_MIRI = """# in Miri
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
raw-btree = { path = "$PWD" }
[workspace]
EOF
cd "$d" && MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-ignore-leaks" CARGO_TARGET_DIR="$d/target" timeout -k 5 280 cargo +nightly miri run --offline
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable(repo_ns):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return base


def in_ns(repo, cmd, verif=None):
    """Runs cmd with `repo` at /repo (and `verif` at /verif)."""
    m = f"mount --bind {repo} /repo"
    if verif:
        m += f" && mount --bind {verif} /verif"
    return subprocess.run(["unshare", "-m", "bash", "-c", f"{m} && {cmd}"], capture_output=True, text=True, cwd="/")


def make(p, repo):
    d = os.path.join(SEED, p["id"])
    sh("git checkout -q -- .", cwd=repo)
    for f, old, new in p["edits"]:
        path = os.path.join(repo, f)
        s = open(path).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches of {old!r}"
        open(path, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=repo).stdout
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(diff)
    mode = p.get("mode", "run")
    open(f"{d}/demo.sh", "w").write((DEMO_SH.replace("debug-assertions=on", "debug-assertions=off") if mode == "plain" else DEMO_SH) + dict(run=RUN, plain=RUN, nocompile=RUN_MUST_NOT_COMPILE, compile=RUN_MUST_COMPILE, miri=RUN_MIRI)[mode])
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(p["demo"].lstrip("\n"))
    json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    r = in_ns(repo, "bash /opt/vp/build.sh")
    if r.returncode:
        return "does not build: " + r.stderr[-1500:]
    out = tempfile.mktemp()
    r = in_ns(repo, f"timeout 120 bash /opt/vp/test.sh {out}")
    res = open(out).read() if os.path.exists(out) else "{}"
    if r.returncode:
        return "fails the tests: " + "\n".join(l for l in (r.stdout + r.stderr).splitlines() if re.search(r"FAILED|failed|panicked|error", l))[:600]
    r = in_ns(repo, f"cd /repo && timeout 300 bash {d}/demo.sh")
    if r.returncode == 0 or r.returncode == 3:
        return f"demo with the bug: {r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}"
    how = (r.stdout + r.stderr).strip().splitlines()
    sh("git checkout -q -- .", cwd=repo)
    r = in_ns(repo, f"cd /repo && timeout 300 bash {d}/demo.sh")
    if r.returncode:
        return f"demo without the bug: {r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}"
    return None


def scratch(name, with_verif=False):
    base = f"/tmp/plant/{name}"
    os.makedirs(base, exist_ok=True)
    sh(f"rsync -a --delete /repo/ {base}/repo/")
    if with_verif:
        sh(f"rsync -a --delete --exclude seeded --exclude .git /verif/ {base}/verif/")
    return base


if __name__ == "__main__":
    if sys.argv[1] == "make":
        plants = runpy.run_path(sys.argv[2])["PLANTS"]
        only = sys.argv[3:]
        base = scratch("make")
        for p in plants:
            if only and p["id"] not in only:
                continue
            if not only and os.path.exists(f"{SEED}/{p['id']}/patch.diff"):
                continue
            e = make(p, f"{base}/repo")
            if e:
                shutil.rmtree(os.path.join(SEED, p["id"]), ignore_errors=True)
            print(p["id"], p["property"], "REJECTED: " + e if e else "ok", flush=True)
        shutil.rmtree(base)
    elif sys.argv[1] == "try":
        ids = [a for a in sys.argv[2:] if not re.fullmatch(r"C\d\d", a)]
        if ids == ["all"]:
            ids = sorted(os.listdir(SEED))
        props = [a for a in sys.argv[2:] if re.fullmatch(r"C\d\d", a)]
        base = scratch("try%d" % os.getpid(), True)
        for i in ids:
            sh("git checkout -q -- .", cwd=f"{base}/repo")
            r = sh(f"git apply {SEED}/{i}/patch.diff", cwd=f"{base}/repo")
            if r.returncode:
                print(i, "does not apply", r.stderr)
                continue
            for p in props or [json.load(open(f"{SEED}/{i}/meta.json"))["property"]]:
                r = in_ns(f"{base}/repo", f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {p}", f"{base}/verif")
                v = f"VIOLATION property={p}" in r.stdout
                print(i, p, {(0, False): "MISSED", (1, True): "caught"}.get((r.returncode, v), f"rc={r.returncode}: {r.stderr[-1500:]}"), flush=True)
                if v:
                    print("    " + "\n    ".join(x[:230] for x in r.stdout.splitlines()[:3]), flush=True)
        shutil.rmtree(base)
    elif sys.argv[1] == "quiet":
        bundles = runpy.run_path(sys.argv[2])["BUNDLES"]
        only = [a for a in sys.argv[3:] if a in bundles]
        props = [a for a in sys.argv[3:] if re.fullmatch(r"C\d\d", a)] or ["C%02d" % k for k in range(1, 30)]
        base = scratch("quiet%d" % os.getpid(), True)
        for name, edits in bundles.items():
            if only and name not in only:
                continue
            sh("git checkout -q -- .", cwd=f"{base}/repo")
            bad = False
            for f, old, new in edits:
                path = os.path.join(base, "repo", f)
                s = open(path).read()
                if s.count(old) != 1:
                    print(name, f, s.count(old), "matches of", repr(old[:200]))
                    bad = True
                    continue
                open(path, "w").write(s.replace(old, new))
            if bad:
                continue
            r = in_ns(f"{base}/repo", "bash /opt/vp/build.sh")
            out = tempfile.mktemp()
            if r.returncode == 0:
                r = in_ns(f"{base}/repo", f"timeout 120 bash /opt/vp/test.sh {out}")
            if r.returncode:
                print(name, "does not build or pass the tests", r.stderr[-2500:], r.stdout[-1500:])
                continue
            for p in props:
                t = time.time()
                r = in_ns(f"{base}/repo", f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {p}", f"{base}/verif")
                print(name, p, "quiet" if r.returncode == 0 else f"rc={r.returncode}: {r.stdout[:700]} {r.stderr[-700:]}", f"{time.time() - t:.0f} s", flush=True)
        shutil.rmtree(base)
