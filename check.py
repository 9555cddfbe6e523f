#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled code:  check.py ID
VERIF_TIER (quick, thorough), VERIF_SEED and VERIF_BUDGET (seconds) come from the environment.
Other uses:  check.py --setup          build everything
             check.py --replay FILE    run a recorded counterexample on the real code
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
CPUS = os.cpu_count() or 4
T0 = time.time()


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def say(*a):
    print(*a, flush=True)


def tree_hash():
    """content of everything the builds read"""
    h = hashlib.sha256()
    files = []
    for top in (REPO + "/tsfile-writer", REPO + "/tsfile-writer-c", HERE + "/harness", HERE + "/lit", HERE + "/tsym"):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as x:
            h.update(x.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def run(cmd, cwd, e, log, timeout=850):
    with open(log, "wb") as f:
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise BuildError("timeout: " + " ".join(cmd))
    if p.returncode != 0:
        with open(log, "rb") as f:
            t = f.read().decode("utf-8", "replace")
        raise BuildError(" ".join(cmd) + "\n" + t[-3000:])


def sysroot():
    p = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, check=True)
    return p.stdout.decode().strip()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("tsym"):
        d = os.path.join(BUILD, "tsym")
        run(["cargo", "build", "--release", "--offline"], HERE + "/tsym", env(CARGO_TARGET_DIR=d), os.path.join(BUILD, "tsym.log"))
        return os.path.join(d, "release", "tsym")


def spec(variant):
    v = J.VARIANTS[variant]
    return v["features"], v["cfg"], os.path.join(HERE, v.get("dir", "harness"))


def confirming(variant):
    return J.VARIANTS[variant].get("confirm", variant)


def crate_args(feat):
    return ["--features", feat] if feat else []


def stamp_ok(path, key, outs):
    try:
        with open(path) as f:
            return f.read() == key and all(os.path.exists(o) for o in outs)
    except OSError:
        return False


def build_ir(variant, key):
    """the whole program (harness, crate under test, std) as one optimised LLVM module"""
    feat, cfg, src = spec(variant)
    with Lock("ir_" + variant):
        d = os.path.join(BUILD, "ir_" + variant)
        out = os.path.join(BUILD, variant + ".ll")
        st = os.path.join(BUILD, variant + ".ir.key")
        if stamp_ok(st, key, [out]):
            return out
        for p in (st, out):
            if os.path.exists(p):
                os.remove(p)
        log = os.path.join(BUILD, "ir_" + variant + ".log")
        e = env(CARGO_TARGET_DIR=d, RUSTFLAGS="-C save-temps -C no-vectorize-loops -C no-vectorize-slp " + cfg)
        deps = os.path.join(d, "ir", "deps")
        fresh(d, src, e, log)
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith("harness-") and ".bc" in f:
                    os.remove(os.path.join(deps, f))
        run(["cargo", "rustc", "--offline", "--lib", "--crate-type", "staticlib", "--profile", "ir"] + crate_args(feat), src, e, log)
        bc = [f for f in os.listdir(deps) if re.match(r"harness-.*-cgu\.0\.rcgu\.bc$", f)]
        if len(bc) != 1:
            raise BuildError("expected one bitcode file, found %r" % bc)
        opt = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
        run([opt, "-passes=internalize,globaldce", "-internalize-public-api-list=h_*,tsym_*,getrandom", "-S", os.path.join(deps, bc[0]), "-o", out + ".tmp"],
            HERE, env(), log)
        os.rename(out + ".tmp", out)
        with open(st, "w") as f:
            f.write(key)
        for f in os.listdir(deps):
            if ".rcgu." in f or f.endswith(".bc"):
                os.remove(os.path.join(deps, f))
        return out


def fresh(d, src, e, log):
    """forget the crates whose sources may have changed (cargo goes by times, not by content)"""
    if os.path.isdir(d):
        run(["cargo", "clean", "--offline", "-p", "harness", "-p", "tsfile-writer", "--profile", "ir"], src, e, log)
        run(["cargo", "clean", "--offline", "-p", "harness", "-p", "tsfile-writer"], src, e, log)


def build_native(variant, key):
    """the same entries as an ordinary program, for replays"""
    feat, cfg, src = spec(variant)
    with Lock("nat_" + variant):
        d = os.path.join(BUILD, "nat_" + variant)
        out = os.path.join(d, "debug", "replay")
        st = os.path.join(BUILD, variant + ".nat.key")
        if stamp_ok(st, key, [out]):
            return out
        if os.path.exists(st):
            os.remove(st)
        log = os.path.join(BUILD, "nat_" + variant + ".log")
        e = env(CARGO_TARGET_DIR=d, RUSTFLAGS=cfg)
        fresh(d, src, e, log)
        run(["cargo", "build", "--offline", "--bin", "replay"] + crate_args(feat), src, e, log)
        with open(st, "w") as f:
            f.write(key)
        return out


def build_all(variants):
    key = tree_hash()
    res, err = {}, {}

    def go(k, f, *a):
        try:
            res[k] = f(*a)
        except Exception as x:  # noqa: BLE001
            err[k] = str(x)

    th = [threading.Thread(target=go, args=(("engine",), build_engine))]
    for v in variants:
        th.append(threading.Thread(target=go, args=(("ir", v), build_ir, v, key)))
    for v in sorted(set(variants) | set(confirming(v) for v in variants)):
        th.append(threading.Thread(target=go, args=(("nat", v), build_native, v, key)))
    for t in th:
        t.start()
    for t in th:
        t.join()
    return res, err


# ---------------------------------------------------------------------------------------------
def names(mangled):
    """the path inside a mangled name, roughly"""
    if mangled.startswith("_ZN"):
        out, p = [], 3
        while p < len(mangled) and mangled[p].isdigit():
            q = p
            while mangled[q].isdigit():
                q += 1
            n = int(mangled[p:q])
            out.append(mangled[q:q + n])
            p = q + n
        if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
            out.pop()
        return "::".join(out)
    if mangled.startswith("_R"):
        out = []
        p = 2
        while p < len(mangled):
            m = re.compile(r"(\d+)_?").match(mangled, p)
            if m and int(m.group(1)) and m.end() + int(m.group(1)) <= len(mangled) and mangled[p - 1].isalpha() or m and mangled[p - 1] == "_":
                n = int(m.group(1))
                w = mangled[m.end():m.end() + n]
                if re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", w):
                    out.append(w)
                    p = m.end() + n
                    continue
            p += 1
        return "::".join(out)
    return mangled


class Pool:
    def __init__(self, engine, irs, tier, seed, budget):
        self.engine, self.irs, self.tier, self.seed = engine, irs, tier, seed
        self.deadline = T0 + budget
        self.stop = False
        self.lock = threading.Lock()
        self.live = set()

    def start(self, jobs, done):
        self.queue = list(jobs)
        th = [threading.Thread(target=self.work, args=(done,)) for _ in range(CPUS)]
        for t in th:
            t.start()
        for t in th:
            t.join()

    def work(self, done):
        while True:
            with self.lock:
                if self.stop or not self.queue:
                    return
                j = self.queue.pop(0)
            r = self.one(j)
            done(j, r)

    def one(self, j):
        left = self.deadline - time.time()
        limit = min(left, j.get("time", 120 if self.tier == "quick" else 600))
        if limit < 3:
            return {"ok": False, "error": "time limit exceeded (not started)", "skipped": True}
        name = "%s_%s_%s" % (j["variant"], j["entry"], "_".join(str(p) for p in j["params"]))
        out = os.path.join(OUT, "run", str(os.getpid()) + "_" + name[:100] + ".json")
        cmd = [self.engine, self.irs[j["variant"]], j["entry"], "--params", ",".join(str(p) for p in j["params"]),
               "--out", out, "--time", "%.1f" % limit, "--seed", str(self.seed), "--samples", str(j.get("samples", 6))]
        if self.tier == "thorough":
            cmd += ["--cross", "200"]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        with self.lock:
            self.live.add(p)
            if self.stop:
                kill(p)
        try:
            _, e = p.communicate(timeout=limit + 60)
        except subprocess.TimeoutExpired:
            kill(p)
            p.communicate()
            e = b"time limit exceeded (killed)"
        with self.lock:
            self.live.discard(p)
        try:
            with open(out) as f:
                r = json.load(f)
            os.remove(out)
        except (OSError, ValueError):
            r = {"ok": False, "error": "no result: " + e.decode("utf-8", "replace")[-300:]}
            if self.stop:
                r["skipped"] = True
        return r

    def cancel(self):
        with self.lock:
            self.stop = True
            for p in self.live:
                kill(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def replay(exe, j, inputs, memory=False, timeout=60):
    """(outcome, message, observations) of the real code"""
    cmd = [exe, j["entry"], ",".join(str(p) for p in j["params"]), ",".join(str(x) for x in inputs)]
    if memory and shutil.which("valgrind"):
        cmd = ["valgrind", "-q", "--error-exitcode=9"] + cmd
        timeout *= 5
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.join(OUT, "run"))
    except subprocess.TimeoutExpired:
        return "hang", "does not end", []
    obs, out, msg = [], None, ""
    for l in p.stdout.decode("utf-8", "replace").splitlines():
        if l.startswith("OBS "):
            obs.append(int(l[4:]))
        elif l == "DONE":
            out = "done"
        elif l == "ASSUME":
            out = "assume"
        elif l.startswith("FAIL "):
            out, msg = "fail", l[5:]
        elif l.startswith("PANIC "):
            out, msg = "panic", l[6:]
    if p.returncode == 9 and memory:
        return "memory", p.stderr.decode("utf-8", "replace")[:300], obs
    if p.returncode < 0:
        return "crash", "signal %d" % -p.returncode, obs
    if out is None:
        return "broken", p.stderr.decode("utf-8", "replace")[-300:], obs
    return out, msg, obs


BAD = ("fail", "panic", "memory", "crash", "hang")


def known(pid):
    """findings recorded and not repaired: {"property", "entry", "params", "msg"} per line starting with 'open:'"""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("open:"):
                k = json.loads(l[5:])
                if k["property"] == pid:
                    res.append(k)
    return res


def check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "840"))
    todo = J.jobs(pid, tier)
    variants = sorted(set(j["variant"] for j in todo))
    os.makedirs(os.path.join(OUT, "run"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(OUT, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    built, err = build_all(variants)
    t_build = time.time() - T0
    notes = []
    if ("engine",) in err:
        say("engine does not build:", err[("engine",)])
        return 2
    usable = [v for v in variants if ("ir", v) in built and ("nat", v) in built and ("nat", confirming(v)) in built]
    for k, m in sorted(err.items()):
        say("build of %s failed: %s" % ("/".join(k), m))
        notes.append("variant %s did not build" % "/".join(k))
    dropped = [j for j in todo if j["variant"] not in usable]
    todo = [j for j in todo if j["variant"] in usable]
    if not todo:
        return 2
    todo.sort(key=lambda j: -j.get("cost", 1))
    pool = Pool(built[("engine",)], {v: built[("ir", v)] for v in usable}, tier, seed, budget)
    nat = {v: built[("nat", v)] for v in usable}
    real = {v: built[("nat", confirming(v))] for v in usable}
    results, found, unconfirmed, mismatches, knowns = [], [], [], [], []
    lock = threading.Lock()
    kn = known(pid)
    validated = [0]

    def record(j, v, inputs, outcome, msg):
        n = len(found) + len(knowns)
        path = os.path.join(rdir, "%d.json" % n)
        with open(path, "w") as f:
            json.dump({"property": pid, "variant": confirming(j["variant"]), "entry": j["entry"], "params": j["params"], "inputs": [str(x) for x in inputs],
                       "symbolic": {"kind": v["kind"], "msg": v["msg"], "stack": [names(s) if s.startswith("_") else s for s in v.get("stack", [])][:12]},
                       "real code": {"outcome": outcome, "msg": msg},
                       "run": "python3 %s/check.py --replay %s" % (HERE, path)}, f, indent=1)
        return path

    def done(j, r):
        if r.get("skipped") and pool.stop:
            return
        viols = r.get("violations", [])
        for v in viols:
            inputs = [int(x) & (2 ** 64 - 1) for _, x in v["inputs"]]
            outcome, msg, _ = replay(real[j["variant"]], j, inputs, memory=v["kind"] == "memory", timeout=20 if v["kind"] == "hang" else 60)
            with lock:
                if outcome in BAD and (v["kind"] != "hang" or outcome == "hang"):
                    for k in kn:
                        if k["entry"] == j["entry"] and j["params"] in k["params"] and re.search(k["msg"], msg):
                            knowns.append((k, record(j, v, inputs, outcome, msg)))
                            break
                    else:
                        found.append((j, v, outcome, msg, record(j, v, inputs, outcome, msg)))
                elif v["kind"] != "hang":
                    unconfirmed.append({"entry": j["entry"], "params": j["params"], "variant": j["variant"], "msg": v["msg"], "kind": v["kind"], "inputs": [str(x) for x in inputs], "native": outcome + " " + msg, "stack": v.get("stack", [])[:6]})
            if found:
                pool.cancel()
                break
        if not found:
            for s in r.get("samples", []):
                inputs = [int(x) & (2 ** 64 - 1) for _, x in s["inputs"]]
                outcome, msg, obs = replay(nat[j["variant"]], j, inputs)
                want = [int(x) for x in s["obs"]]
                with lock:
                    validated[0] += 1
                    if outcome in BAD:
                        # the real code breaks the property where the executor did not notice
                        v = {"kind": "validation", "msg": msg}
                        found.append((j, v, outcome, msg, record(j, v, inputs, outcome, msg)))
                    elif outcome != "done" or obs != want:
                        mismatches.append({"entry": j["entry"], "params": j["params"], "variant": j["variant"], "inputs": [str(x) for x in inputs], "outcome": outcome + " " + msg,
                                           "obs": [str(x) for x in obs][:20], "want": [str(x) for x in want][:20]})
                if found:
                    pool.cancel()
                    break
        with lock:
            results.append((j, r))
        if os.environ.get("VERIF_VERBOSE"):
            say("  [%5.1f] %-5s %s %s %s: %s paths %s queries %.1fs %s" % (time.time() - T0, "ok" if r.get("ok") else "INC", j["variant"], j["entry"], j["params"], r.get("paths"), r.get("queries"), r.get("time", 0), r.get("error", "")[:150]))

    pool.start(todo, done)
    ran = [(j, r) for j, r in results if "paths" in r]
    complete = [(j, r) for j, r in ran if r.get("ok") and not r.get("violations")]
    incomplete = [(j, r) for j, r in results if not r.get("ok")]
    engine_errors = [(j, r) for j, r in incomplete if "time limit" not in r.get("error", "")]
    tot = lambda k: sum(r.get(k, 0) for _, r in ran)  # noqa: E731
    funcs = {}
    for _, r in ran:
        for n, hit, total in r.get("functions", []):
            nm = names(n)
            if "tsfile_writer" in nm or "snap::" in nm or n.startswith(("schema_", "file_writer")):
                o = funcs.get(nm, (0, 0))
                funcs[nm] = (max(o[0], hit), max(o[1], total))
    reach = {}
    for j, r in ran:
        for k, n in r.get("reach", {}).items():
            reach[k] = reach.get(k, 0) + n
    vac = []
    for j, r in complete:
        if r.get("paths", 0) == 0:
            vac.append("%s %s: no path" % (j["entry"], j["params"]))
        for k in j.get("need", []):
            if k not in r.get("reach", {}):
                vac.append("%s %s: '%s' not reached" % (j["entry"], j["params"], k))
    samples = []
    for j, r in ran:
        for s in r.get("samples", [])[:1]:
            samples.append({"entry": j["entry"], "params": j["params"], "inputs": [x for _, x in s["inputs"]][:24]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("killed"),
            "transitions": tot("insts"),
            "traces_validated_against_impl": validated[0],
            "samples": samples[:12],
            "rule": "states: symbolic paths explored to their end; transitions: LLVM instructions executed symbolically; traces validated: paths whose solver-chosen inputs were run through the natively compiled code with equal observations (results of the writes and the bytes of the files)",
            "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "assertions_checked": tot("asserts"), "cache_hits": tot("cache_hits"), "solver_s": round(tot("solver_time"), 2),
            "cross_checked_with_cvc5": tot("cross_checked"), "forks": tot("forks"), "merges": tot("merges"),
            "bounds": [{"entry": j["entry"], "variant": j["variant"], "params": j["params"], "meaning": J.MEANING.get(j["entry"], ""), "paths": r.get("paths"), "queries": r.get("queries"),
                        "complete": bool(r.get("ok")), "s": round(r.get("time", 0), 1)} for j, r in results],
            "incomplete": ["%s %s %s: %s" % (j["variant"], j["entry"], j["params"], r.get("error", "")) for j, r in incomplete],
            "not_run": ["%s %s %s" % (j["variant"], j["entry"], j["params"]) for j in dropped],
            "vacuous": vac,
            "reached": reach,
            "functions_encoded": ["%s (%d of %d blocks)" % (k, v[0], v[1]) for k, v in sorted(funcs.items())],
            "build_s": round(t_build, 1),
            "unconfirmed": unconfirmed[:5],
            "validation_mismatches": mismatches[:5],
            "exhaustive": False,
        },
        "assumptions": J.ASSUMPTIONS + J.PROPERTY[pid].get("assumptions", []) + notes,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(found),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i, (k, p) in enumerate(knowns):
        if not any(k is o for o, _ in knowns[:i]):
            say("KNOWN-FINDING: property=%s %s (replay %s)" % (pid, k["what"], p))
    say("%s %s: %d jobs (%d complete, %d incomplete, %d not run), %d paths, %d queries, %.1f s solver, %d traces validated, %.0f s" % (
        pid, tier, len(results), len(complete), len(incomplete), len(dropped), tot("paths"), tot("queries"), tot("solver_time"), validated[0], time.time() - T0))
    for m in vac:
        say("note: vacuous:", m)
    for j, r in incomplete:
        say("note: incomplete: %s %s %s: %s" % (j["variant"], j["entry"], j["params"], r.get("error", "")[:300]))
    if found:
        j, v, outcome, msg, path = found[0]
        say("  %s %s %s: %s: %s" % (j["variant"], j["entry"], j["params"], outcome, msg))
        say("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for u in unconfirmed[:5]:
        say("counterexample that the real code does not confirm:", json.dumps(u)[:1500])
    for u in mismatches[:5]:
        say("the executor and the real code disagree:", json.dumps(u)[:1500])
    if unconfirmed or mismatches:
        return 2
    if engine_errors and len(engine_errors) * 2 > len(results):
        say("the executor failed on most jobs")
        return 2
    if not complete:
        say("no job was completed")
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        _, err = build_all(sorted(J.VARIANTS))
        for k, m in err.items():
            say("/".join(k), m)
        return 1 if err else 0
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            r = json.load(f)
        os.makedirs(os.path.join(OUT, "run"), exist_ok=True)
        exe = build_native(r["variant"], tree_hash())
        o, m, _ = replay(exe, r, [int(x) for x in r["inputs"]], memory=r["symbolic"]["kind"] == "memory")
        say(o, m)
        return 1 if o in BAD else 0
    return check(a[0])


if __name__ == "__main__":
    sys.exit(main())
