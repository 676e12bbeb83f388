#!/usr/bin/env python3
"""Runs the check of one property:  check.py ID      (tier from VERIF_TIER, default quick)
Re-runs one reported violation:  check.py --replay FILE

exit 0: the property held on everything explored (known findings are printed)
exit 1: VIOLATION line printed
exit 2: the check itself failed (no verdict)
"""
import hashlib, json, os, re, resource, shlex, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
UB = os.path.join(HERE, "ub")
T0 = time.time()
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
DEEP = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED") or 1)
GB = 1 << 30

# legs run inside Miri (see ub/src/main.rs)
UB_LEGS = {"C20": ["trees", "tall", "panics", "iters", "nodes", "arrays"], "C13": ["race"]}
UB_HELD = {"C20": "held"}
NATIVE = {"C20": False}


# orders explored at each run; those of plain builds (see base()) are left out where the subject exists only with debug assertions
ORDERS = [8, 4, "4p"]
ONLY_CHECKED = {"C16"}


class Broken(Exception):
    """The check cannot give a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_for(order):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if base(order) != 8:
        e["RUSTFLAGS"] = f"--cfg raw_btree_order_{base(order)}"
    return e


# an order followed by "p": built plainly, without debug assertions and overflow checks, as a user's release build is
def base(order):
    return int(str(order).rstrip("p"))


def profile(order):
    return "plain" if str(order).endswith("p") else "dev"


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


# ---------------------------------------------------------------- native explorer
# C26 uses functions that are no part of the crate's nameable interface: it has a build of its own, so that
# the other checks do not depend on them
FEATURES = {"C26": "arrays"}
FEATURE = None


def target(order):
    return os.path.join(MC, "target", f"{FEATURE or 'o'}{base(order)}")


def build(orders):
    """Builds the explorer against /repo's working tree, once per order of the tree."""
    ps = []
    for o in orders:
        e = env_for(o)
        e["CARGO_TARGET_DIR"] = target(o)
        ps.append((o, subprocess.Popen(["cargo", "build", "--offline", "--quiet", "--profile", profile(o)] + (["--features", FEATURE] if FEATURE else []), cwd=MC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for o, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise Broken(f"cannot build the explorer (order {o}):\n{out[-4000:]}")


def mc(order):
    return os.path.join(target(order), "plain" if profile(order) == "plain" else "debug", "mc")


def read_slot(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 24:
        return None
    seq, case, n = struct.unpack_from("<QQQ", b)
    if len(b) < 24 + 2 * n:
        return None
    return seq, case, list(struct.unpack_from(f"<{n}H", b, 24))


def replay_args(order, prop, leg, unit, case, broken):
    a = [mc(order), "replay", prop, "--leg", str(leg), "--tier", TIER, "--unit", " ".join(map(str, unit)), "--case", str(case)]
    return a + (["--broken"] if broken else [])


def replay_one(order, prop, leg, unit, case, broken, timeout):
    """-> (what happened, text): held, violated, crash, hang, error"""
    p = subprocess.Popen(replay_args(order, prop, leg, unit, case, broken), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, preexec_fn=limits(12 * GB))
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", f"no end within {timeout} s"
    if p.returncode < 0 or p.returncode in (101, 134, 139):
        return "crash", f"the process ended with {signal_name(p.returncode)}"
    return {0: "held", 1: "violated"}.get(p.returncode, "error"), out


def signal_name(rc):
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return f"signal {-rc}"
    return f"code {rc}"


def run_leg(order, prop, leg, patience, deadline):
    """Runs one leg. -> (report or None, list of violations)"""
    with tempfile.TemporaryDirectory(prefix="mc-slots-") as d:
        out = open(os.path.join(d, "out"), "w+")
        err = open(os.path.join(d, "err"), "w+")
        cmd = [mc(order), "run", prop, "--leg", str(leg), "--tier", TIER, "--threads", "8", "--deadline", str(deadline), "--slots", d]
        p = subprocess.Popen(cmd, stdout=out, stderr=err, start_new_session=True, preexec_fn=limits(24 * GB))
        seen = {}
        hung = []
        while True:
            try:
                p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            for i in range(8):
                s = read_slot(os.path.join(d, f"slot{i}"))
                if not s or s[1] == 0:
                    seen.pop(i, None)
                    continue
                k = (s[0], s[1])
                if seen.get(i, (None,))[0] != k:
                    seen[i] = (k, now)
                elif now - seen[i][1] > patience:
                    hung.append(s)
            if hung or now - T0 > (7000 if DEEP else 800):
                kill(p)
                break
        out.seek(0)
        text = out.read()
        slots = [read_slot(os.path.join(d, f"slot{i}")) for i in range(8)]
        if p.returncode == 0 and not hung:
            rep = json.loads(text)
            if rep["error"]:
                raise Broken(f"order {order}, leg {rep['leg']}: {rep['error']}")
            bad = [dict(f, order=order, leg=leg, legname=rep["leg"]) for f in rep["found"]]
            return rep, bad
        # the process died or stopped: which case did it, alone?
        err.seek(0)
        tail = err.read()[-1500:]
        bad = []
        suspects = hung or [s for s in slots if s and s[1]]
        for s in suspects:
            for broken in (False, True):
                what, txt = replay_one(order, prop, leg, s[2], s[1], broken, patience * 2)
                if what in ("crash", "hang"):
                    bad.append(dict(order=order, leg=leg, legname=f"leg {leg}", unit=s[2], case=s[1], broken=broken, kind=what.capitalize(),
                                    msg=txt, label=f"case {s[1]}", path=""))
                    break
                if what == "violated":
                    m = re.search(r"VIOLATED: (.*)", txt)
                    bad.append(dict(order=order, leg=leg, legname=f"leg {leg}", unit=s[2], case=s[1], broken=broken, kind="Violation",
                                    msg=m.group(1) if m else txt[-300:], label=f"case {s[1]}", path=""))
                    break
            if bad:
                break
        if not bad:
            # memory corrupted earlier, or an error of the harness: again, with one thread, to see whether it is repeatable
            cmd[cmd.index("8")] = "1"
            q = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True, preexec_fn=limits(24 * GB))
            try:
                o2, _ = q.communicate(timeout=300)
            except subprocess.TimeoutExpired:
                kill(q)
                raise Broken(f"order {order}, leg {leg}: ended with {signal_name(p.returncode)}, not repeatable\n{tail}")
            if q.returncode == 0:
                rep = json.loads(o2)
                bad = [dict(f, order=order, leg=leg, legname=rep["leg"]) for f in rep["found"]]
                if bad:
                    return rep, bad
                raise Broken(f"order {order}, leg {leg}: ended with {signal_name(p.returncode)}, not repeatable\n{tail}")
            s = read_slot(os.path.join(d, "slot0"))
            bad.append(dict(order=order, leg=leg, legname=f"leg {leg}", unit=(s[2] if s else []), case=(s[1] if s else 0), broken=False, kind="Crash",
                            msg=f"the exploration ends with {signal_name(q.returncode)} (also with a single thread)", label="memory corrupted by this or an earlier case",
                            path="", cmd=cmd[:-2]))
        return None, bad


# ---------------------------------------------------------------- Miri
def miri_env(order, extra):
    e = env_for(order)
    e["CARGO_TARGET_DIR"] = os.path.join(UB, "target", f"o{order}")
    # borrows: the permissive of the two aliasing models; leaks are C03's and C04's
    e["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation"
    e.update(extra)
    return e


# the item array has no nameable type: should its functions change, the other legs go on
UB_FEATURES = ["--features", "arrays"]


def miri_cmd(legs, shard, case=None):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet"] + UB_FEATURES + ["--", ",".join(legs), shard] + ([str(case)] if case is not None else [])


def miri_verdict(out, err):
    """-> (label, what) of an undefined behaviour in this output, or None"""
    m = re.search(r"^error: Undefined Behavior: (.*)$", err, re.M)
    if not m:
        return None
    cases = re.findall(r"^CASE (\S+) (\d+) (.*)$", out, re.M)
    where = re.search(r"-->\s*(\S+)", err[m.end():])
    inside = re.findall(r"(?:inside|at) .*?(/repo/src/\S+|src/\S+:\d+:\d+)", err[m.end():])
    c = cases[-1] if cases else ("?", "0", "?")
    return c, m.group(1), (where.group(1) if where else "?") + (f" (from {inside[0]})" if inside else "")


def miri_shard(order, legs, shard, extra, limit, res):
    env = miri_env(order, dict(extra, UB_LIMIT=str(limit)))
    done, aborted = [], []
    todo = list(legs)
    start = None
    while todo:
        if start is not None:
            env["UB_FROM"] = str(start)
        else:
            env.pop("UB_FROM", None)
        # the rotation of the shards depends on the position of the leg
        base = legs.index(todo[0])
        sh, of = shard
        with tempfile.TemporaryFile("w+") as fo, tempfile.TemporaryFile("w+") as fe:
            p = subprocess.Popen(miri_cmd(todo, f"{(sh + 3 * base) % of}/{of}"), cwd=UB, env=env, stdout=fo, stderr=fe, start_new_session=True)
            late = False
            try:
                p.wait(timeout=limit + 90)
            except subprocess.TimeoutExpired:
                kill(p)
                late = True
            fo.seek(0)
            fe.seek(0)
            out, err = fo.read(), fe.read()
        v = miri_verdict(out, err)
        done += [json.loads(x) for x in re.findall(r"^DONE (.*)$", out, re.M)]
        res["labels"] += [" ".join(x) for x in re.findall(r"^CASE (\S+) \d+ (.*)$", out, re.M)[:2]]
        if v:
            res["bad"].append(v)
            break
        if p.returncode == 0:
            break
        cases = re.findall(r"^CASE (\S+) (\d+) (.*)$", out, re.M)
        if late:
            aborted.append("no end of: " + " ".join(cases[-1]) if cases else "no output")
            break
        if not cases:
            res["error"] = err[-3000:]
            break
        # an abort (not an undefined behaviour) in one case: go on after it
        aborted.append(" ".join(cases[-1]) + ": " + (re.search(r"^error: (.*)$", err, re.M) or [None, err[-200:]])[1])
        if "unsupported operation" in err:
            res["error"] = err[-3000:]
            break
        if len(aborted) > 200:
            break
        todo = todo[todo.index(cases[-1][0]):]
        start = int(cases[-1][1]) + 1
    res["done"] += done
    res["aborted"] += aborted


def miri(order, legs, limit, shards=8):
    global UB_FEATURES
    tour = None
    extra = {"UB_DEEP": "1"} if DEEP else {}
    if "trees" in legs:
        items = {8: 10, 5: 8}.get(order, 9 if DEEP else 7)
        tour = os.path.join(UB, "target", f"tour-{order}-{TIER}.txt")
        os.makedirs(os.path.dirname(tour), exist_ok=True)
        try:
            r = subprocess.run([mc(order), "tour", "--items", str(items), "--len", "40"], capture_output=True, text=True, timeout=60)
            text = r.stdout if r.returncode == 0 else ""
        except subprocess.TimeoutExpired:
            text = ""
        if not text:
            # the tree is too broken to be explored: the histories of the original one
            text = open(os.path.join(UB, f"tour-{order if order != 5 else 4}.txt")).read()
        open(tour, "w").write(text)
        extra["UB_TOUR"] = tour
    r = subprocess.run(miri_cmd(["noop"], "0/1"), cwd=UB, env=miri_env(order, extra), capture_output=True, text=True)
    if r.returncode and "arrays" in legs and re.search(r"^error\[", r.stderr, re.M):
        UB_FEATURES = []
        legs = [x for x in legs if x != "arrays"]
        log("the leg 'arrays' does not compile and is left out")
        r = subprocess.run(miri_cmd(["noop"], "0/1"), cwd=UB, env=miri_env(order, extra), capture_output=True, text=True)
    if r.returncode or "DONE" not in r.stdout:
        raise Broken(f"cannot run Miri:\n{r.stderr[-4000:]}")
    res = [dict(done=[], bad=[], aborted=[], labels=[], error=None) for _ in range(shards)]
    ts = [threading.Thread(target=miri_shard, args=(order, legs, (i, shards), extra, limit, res[i])) for i in range(shards)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for x in res:
        if x["error"] and not any(y["bad"] for y in res):
            raise Broken(f"Miri failed:\n{x['error']}")
    out = {}
    for x in res:
        for d in x["done"]:
            o = out.setdefault(d["leg"], dict(leg="miri:" + d["leg"], order=order, cases=0, steps=0, refused=0, complete=True, total=d["total"]))
            o["cases"] += d["cases"]
            o["steps"] += d["steps"]
            o["refused"] += d["refused"]
            o["complete"] &= d["complete"]
    bad = []
    for x in res:
        for (leg, no, label), msg, where in x["bad"]:
            bad.append(dict(order=order, leg=leg, legname="miri:" + leg, unit=[], case=int(no), broken=False, kind="UndefinedBehaviour", msg=f"{msg} at {where}",
                            label=label, path="", extra=extra, miri=True))
    aborted = [a for x in res for a in x["aborted"]]
    if aborted:
        for o in out.values():
            o["complete"] = False
    samples = [l for x in res for l in x["labels"]][:4]
    return list(out.values()), bad, aborted, samples


def miri_cases(order, leg, extra):
    """Each case of a leg in a process of its own. -> [(no, label, verdict or None)]"""
    out = []
    procs = []
    for no in range(64):
        with_env = miri_env(order, extra)
        procs.append((no, subprocess.Popen(miri_cmd([leg], "0/1", no), cwd=UB, env=with_env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        if len(procs) == 8:
            stop = False
            for no, p in procs:
                o, e = p.communicate()
                c = re.findall(r"^CASE (\S+) (\d+) (.*)$", o, re.M)
                if not c:
                    stop = True
                    continue
                out.append((no, c[-1][2], miri_verdict(o, e)))
            procs = []
            if stop:
                break
    return out


# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        m = re.match(r"finding: property=(\S+) leg=(\S+) case=/(.*?)/ error=/(.*?)/ (.*)$", line)
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


def is_known(findings, leg, label, msg):
    for i, (l, c, e, text) in enumerate(findings):
        if l == leg and re.search(c, label) and re.search(e, msg):
            return i
    return None


# ---------------------------------------------------------------- reports
def write_replay(prop, f):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps([f.get(k) for k in ("order", "leg", "unit", "case", "msg")]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    if f.get("miri"):
        cmd = f"cd {UB} && MIRIFLAGS='{miri_env(f['order'], {})['MIRIFLAGS']}' " + shlex.join(miri_cmd([f["leg"]], "0/1", f["case"]))
    else:
        cmd = shlex.join(f.get("cmd") or replay_args(f["order"], prop, f["leg"], f["unit"], f["case"], f["broken"]))
    json.dump(dict(f, property=prop, tier=TIER, command=cmd, how=f"python3 {os.path.join(HERE, 'check.py')} --replay {path}"), open(path, "w"), indent=1)
    return path


def report(prop, bad):
    # the shortest history first
    bad.sort(key=lambda f: (len(f["unit"]), f["case"]))
    f = bad[0]
    path = write_replay(prop, f)
    print(f"{prop}: order {f['order']}, {f['legname']}: {f['kind']}: {f['msg']}")
    if f.get("path"):
        print(f"  history: {f['path']}")
    print(f"  case: {f['label']}")
    if len(bad) > 1:
        print(f"  ({len(bad)} violating cases in this leg, this is the shortest)")
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def evidence(prop, legs, samples, assumptions, violations, extra):
    states = sum(l.get("states", 0) for l in legs)
    transitions = sum(l.get("transitions", 0) for l in legs)
    execs = sum(l.get("executions", 0) for l in legs)
    cov = dict(
        states=states,
        transitions=transitions,
        traces_validated_against_impl=execs,
        samples=samples[:12],
        exhaustive=all(l["complete"] for l in legs) and bool(legs),
        legs=legs,
        explanation="The explored system is the implementation itself: every transition is an execution of the code in /repo, so each explored trace is "
        "validated against it. states: distinct tree shapes (or start configurations, or schedule tree nodes) visited; transitions: operations (or scheduling "
        "points) executed between them; traces_validated_against_impl: executions compared with the reference.",
    )
    cov.update(extra)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(
        dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 3), violations=violations),
        open(os.path.join(d, f"{prop}.json"), "w"),
        indent=1,
    )


ASSUMPTIONS = [
    "items are tracked by identity and ordered by position: values beyond their order do not matter to the code (it is generic in the item type)",
    "order 8 is the shipped order; orders 4 and 5 are the same source with a smaller M (cfg raw_btree_order_4, raw_btree_order_5)",
    "stable rustc; orders 8, 4 and 5 with overflow checks and debug assertions on (validate exists only there), orders marked p without, as in a release build",
]


def check(prop):
    global FEATURE
    FEATURE = FEATURES.get(prop)
    orders = ORDERS + (["8p", 5] if DEEP else [])
    if prop in ONLY_CHECKED:
        orders = [o for o in orders if profile(o) == "dev"]
    build(orders)
    legs, bad, samples, extra = [], [], [], {}
    patience = 150 if prop == "C13" else 45
    if NATIVE.get(prop, True):
        for o in sorted(orders, key=lambda o: (profile(o) == "plain", base(o))):
            names = subprocess.run([mc(o), "legs", prop, "--tier", TIER], capture_output=True, text=True)
            if names.returncode:
                raise Broken(f"mc legs {prop}: {names.stderr}")
            for k, _ in enumerate(names.stdout.splitlines()):
                rep, b = run_leg(o, prop, k, patience, 2400 if DEEP else 240)
                bad += b
                if rep:
                    c = dict(rep["counts"])
                    leg = dict(leg=rep["leg"], order=o, states=rep["states"], transitions=rep["transitions"], executions=c.pop("executions", 0), depth=rep["depth"],
                               complete=rep["complete"] and not b, wall_s=rep["wall"])
                    if "schedules" in c:
                        leg["units"] = leg["states"]
                        leg["states"] = c.pop("schedule tree nodes")
                        leg["executions"] = c.pop("schedules")
                    if c:
                        leg["counts"] = c
                    if rep["note"]:
                        leg["note"] = rep["note"]
                    legs.append(leg)
                    samples += [f"order {o}: {s}" for s in rep["samples"][:2]]
                if bad:
                    break
            if bad:
                break
    assumptions = list(ASSUMPTIONS)
    lines = []
    if prop in UB_LEGS and not bad:
        assumptions += ["Miri's interpreter is right about which executions are undefined; aliasing is judged by Tree Borrows",
                        "in Miri the crate is compiled without overflow checks and debug assertions, as in a user's optimised build"]
        for o in ([4, 8] if DEEP else [4]):
            l, b, aborted, s = miri(o, UB_LEGS[prop], 2400 if DEEP else 420)
            bad += b
            for x in l:
                legs.append(dict(leg=x["leg"], order=o, states=x["cases"], transitions=x["steps"], executions=x["steps"] + x["refused"], complete=x["complete"],
                                 cases_in_leg=x["total"], refused_by_panic=x["refused"]))
            samples += [f"miri, order {o}: {x[:300]}" for x in s]
            if aborted:
                extra["not evaluated (aborted or endless executions, no undefined behaviour)"] = aborted[:20]
            if bad:
                break
        if prop in UB_HELD and not bad:
            leg = UB_HELD[prop]
            findings = known(prop)
            hits = {}
            cases = miri_cases(4, leg, {})
            for no, label, v in cases:
                if not v:
                    continue
                i = is_known(findings, leg, label, v[1])
                if i is None:
                    bad.append(dict(order=4, leg=leg, legname="miri:" + leg, unit=[], case=no, broken=False, kind="UndefinedBehaviour", msg=f"{v[1]} at {v[2]}", label=label,
                                    path="", extra={}, miri=True))
                else:
                    hits.setdefault(i, []).append(label)
            for i, l in hits.items():
                lines.append(f"KNOWN-FINDING: property={prop} {findings[i][3]} ({len(l)} histories, e.g. {l[0]})")
            legs.append(dict(leg="miri:" + leg, order=4, states=len(cases), transitions=len(cases), executions=len(cases), complete=bool(cases), known=sum(map(len, hits.values()))))
    if not legs and not bad:
        raise Broken("nothing was explored")
    evidence(prop, legs, samples, assumptions, len(bad), extra)
    for l in lines:
        print(l)
    if bad:
        report(prop, bad)
        return 1
    t = sum(l["transitions"] for l in legs)
    print(f"{prop}: held; {sum(l['states'] for l in legs)} states, {t} transitions, {sum(l['executions'] for l in legs)} executions, "
          f"{'complete within the bounds' if all(l['complete'] for l in legs) else 'NOT complete (see evidence)'}, {time.time() - T0:.1f} s")
    return 0


def do_replay(path):
    global TIER, DEEP, FEATURE
    f = json.load(open(path))
    FEATURE = FEATURES.get(f["property"])
    TIER = f["tier"]
    DEEP = TIER == "thorough"
    if f.get("miri"):
        if f["leg"] == "trees":
            build([f["order"]])
        e = miri_env(f["order"], f.get("extra") or {})
        r = subprocess.run(miri_cmd([f["leg"]], "0/1", f["case"]), cwd=UB, env=e)
        return 1 if r.returncode else 0
    build([f["order"]])
    if f.get("cmd"):
        return 1 if subprocess.run(f["cmd"]).returncode else 0
    what, txt = replay_one(f["order"], f["property"], f["leg"], f["unit"], f["case"], f["broken"], 300)
    print(txt)
    return {"held": 0, "error": 2}.get(what, 1)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            build(ORDERS)
            for FEATURE in sorted(set(FEATURES.values())):
                try:
                    build(ORDERS)
                except Broken as e:
                    log(e)
            print("the explorer builds")
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(do_replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except Broken as e:
        log(f"check error: {e}")
        sys.exit(2)
