#!/usr/bin/env python3
"""Systematic small changes to the library: which ones pass its tests and every check? (not used by any check)

mutate.py gen OUT                  lists the changes (JSON lines), and which of them build and pass the tests
mutate.py run IN OUT ORDERS [CHECK...]   runs the checks (explorer orders as given, e.g. 4 or 8,4p) on the survivors of IN,
                                   until one reports a violation
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, queue

FILES = ["src/lib.rs", "src/storage.rs", "src/balancing.rs", "src/node/mod.rs", "src/node/internal.rs", "src/node/leaf.rs",
         "src/node/addr.rs", "src/utils/mod.rs", "src/utils/array.rs", "src/item.rs"]
SWAPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
         (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r" \+= 1", [" += 2", " -= 1"]), (r" -= 1", [" += 1"]), (r"\.incr\(\)", [".decr()"]), (r"\.decr\(\)", [".incr()"]),
         (r"is_lt\(\)", ["is_le()"]), (r"is_le\(\)", ["is_lt()"]), (r"is_gt\(\)", ["is_ge()"]), (r"is_ge\(\)", ["is_gt()"]), (r"is_eq\(\)", ["is_le()", "is_ge()"]),
         (r"Ordering::Less", ["Ordering::Greater", "Ordering::Equal"]), (r"Ordering::Greater", ["Ordering::Less", "Ordering::Equal"]),
         (r"Ordering::Equal", ["Ordering::Less", "Ordering::Greater"]),
         (r"\b0\b", ["1"]), (r"\b1usize\b", ["2usize"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]),
         (r" / 2", [""]), (r"\bM\b", ["(M - 1)", "(M + 1)"]), (r"UNDERFLOW\b", ["(UNDERFLOW + 1)"]),
         (r"\bleft_", ["right_"]), (r"\bright_", ["left_"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
         (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"child_min\b", ["child_max"]), (r"child_max\b", ["child_min"]),
         (r"Some\(addr\)$", ["None"]), (r"return Some\(addr\);", ["return None;"]), (r"Some\((self\.\w+)\)", ["None"]), (r"\bnext\b", ["next_back"]), (r"\bnext_back\b", ["next"]),
         (r"\.rev\(\)", [""]), (r"\.unwrap\(\)", [".unwrap_or_default()"]),
         (r"std::mem::swap\(", ["std::mem::drop(("]),
         (r"\bif (?!let)(.*) \{$", [r"if !(\1) {", r"if true || (\1) {", r"if false && (\1) {"])]


def mutants():
    out = []
    for f in FILES:
        lines = open(os.path.join("/repo", f)).read().split("\n")
        for i, l in enumerate(lines):
            c = l.split("//")[0].rstrip()
            if not c.strip() or c.strip().startswith(("#", "use ", "pub use", "mod ", "pub mod", "impl", "pub fn", "fn ", "unsafe fn", "pub unsafe fn", "pub struct", "pub enum", "where", "const", "///")):
                continue
            seen = {l}
            def add(new):
                if new not in seen:
                    seen.add(new)
                    out.append(dict(file=f, line=i + 1, old=l, new=new))
            for pat, news in SWAPS:
                for m in re.finditer(pat, c):
                    for new in news:
                        add(c[:m.start()] + m.expand(new) + c[m.end():])
            s = c.strip()
            # statements of their own
            if s.endswith(";") and not re.match(r"(let|return|use|type|break|continue|const|pub|static)\b", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.startswith((")", "}", ".")):
                add(re.match(r"\s*", c).group() + "{}")
            if re.match(r"(break|continue|return)\b.*;$", s):
                pass
    for k, m in enumerate(out):
        m["id"] = k
    return out


def ns(base, cmd, timeout):
    m = f"mount --bind {base}/repo /repo"
    if os.path.isdir(f"{base}/verif"):
        m += f" && mount --bind {base}/verif /verif"
    p = subprocess.Popen(["unshare", "-m", "bash", "-c", f"{m} && {cmd}"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -KILL -s {p.pid}", shell=True)
        p.kill()
        p.communicate()
        return "timeout", "", ""


def apply(base, m):
    subprocess.run("git checkout -q -- .", shell=True, cwd=f"{base}/repo")
    path = f"{base}/repo/{m['file']}"
    ls = open(path).read().split("\n")
    assert ls[m["line"] - 1] == m["old"]
    ls[m["line"] - 1] = m["new"]
    open(path, "w").write("\n".join(ls))


def pool(n, setup, work, items):
    q = queue.Queue()
    for i in items:
        q.put(i)
    def run(k):
        base = f"/tmp/mut/w{k}"
        os.makedirs(base, exist_ok=True)
        subprocess.run(f"rsync -a --delete /repo/ {base}/repo/", shell=True)
        setup(base)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            work(base, i)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


lock = threading.Lock()


def gen(out):
    ms = mutants()
    print(len(ms), "changes", flush=True)
    f = open(out, "w")
    def work(base, m):
        apply(base, m)
        rc, o, e = ns(base, f"cd /repo && ulimit -v 8000000 && CARGO_TARGET_DIR={base}/target timeout -k 2 40 cargo test --offline --features dot --test basic --test iter", 60)
        m["tests"] = "pass" if rc == 0 else "nobuild" if re.search(r"^error(\[|: could not compile)", e, re.M) else "fail"
        with lock:
            f.write(json.dumps(m) + "\n")
            f.flush()
    pool(8, lambda base: None, work, ms)


def run(src, out, orders, checks):
    ms = [m for m in map(json.loads, open(src)) if m["tests"] == "pass" and not m.get("caught")]
    done = {}
    if os.path.exists(out):
        done = {json.loads(l)["id"]: 1 for l in open(out)}
    ms = [m for m in ms if m["id"] not in done]
    print(len(ms), "to do", flush=True)
    f = open(out, "a")
    def setup(base):
        subprocess.run(f"rsync -a --delete --exclude seeded --exclude .git --exclude target /verif/ {base}/verif/", shell=True)
        p = f"{base}/verif/check.py"
        s = open(p).read()
        s = s.replace('ORDERS = [8, 4, "4p"]', f"ORDERS = [{orders}]")
        open(p, "w").write(s)
        # (building takes longer than most checks)
        p = f"{base}/verif/mc/Cargo.toml"
        s = open(p).read()
        open(p, "w").write(s.replace("opt-level = 2", "opt-level = 1"))
    def work(base, m):
        apply(base, m)
        m["caught"] = None
        m["odd"] = []
        for c in checks or LIKELY[m["file"]].split():
            rc, o, e = ns(base, f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 400 python3 check.py {c}", 420)
            if rc == 1 and "VIOLATION" in o:
                m["caught"] = c
                m["how"] = o.split("\n")[0][:200]
                break
            if rc != 0:
                m["odd"].append((c, rc, e[-300:]))
                if "cannot build" in e:
                    break
        with lock:
            f.write(json.dumps(m) + "\n")
            f.flush()
    pool(int(os.environ.get("JOBS", "3")), setup, work, ms)


# the checks that see most of a file's changes first
LIKELY = {
    "src/storage.rs": "C06 C28 C08 C07 C12 C10", "src/node/internal.rs": "C19 C18 C16 C15 C28", "src/node/leaf.rs": "C19 C18 C16 C15 C02",
    "src/node/mod.rs": "C27 C18 C06 C19 C14 C15", "src/lib.rs": "C05 C16 C15 C12 C03 C04 C14", "src/utils/mod.rs": "C18 C01 C11",
    "src/utils/array.rs": "C26 C10", "src/balancing.rs": "C08 C02 C28", "src/item.rs": "C17", "src/node/addr.rs": "C27",
}
if sys.argv[1] == "gen":
    gen(sys.argv[2])
else:
    run(sys.argv[2], sys.argv[3], ",".join(o if o.isdigit() else f'"{o}"' for o in sys.argv[4].split(",")), sys.argv[5:])
