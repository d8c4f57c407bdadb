#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [--tier quick|thorough] [--seed N]

Builds the harness from /repo's working tree (hooks on), runs the native monitors and
the Miri / sanitizer workloads of the property, writes evidence/<ID>.json.
Exit 0: held on everything observed; 1: VIOLATION; 2: inconclusive / harness error.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, LEVELS

T0 = time.time()
EV = os.path.join(HERE, "evidence")
TARGET = os.environ.get("VERIF_TARGET_DIR") or os.path.join(HERE, "target")

def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_BUILD_TARGET",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.update(extra or {})
    return e

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

class Inconclusive(Exception):
    pass

def run(cmd, cwd, extra=None, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return p.returncode, out, err, True

def build_native(bins, kind="native"):
    """Returns the directory of the built binaries and whether the hooks are on."""
    flags = {"native": "", "asan": "-Zsanitizer=address -Cllvm-args=-asan-stack=0", "tsan": "-Zsanitizer=thread"}[kind]
    tc = [] if kind == "native" else ["+nightly"]
    extra_args = []
    sub = "debug"
    if kind != "native":
        extra_args += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/debug"
    if kind == "tsan":
        extra_args += ["-Zbuild-std"]
    for hooks in (True, False):
        f = (flags + (" --cfg futures_verif" if hooks else "") + " -Awarnings").strip()
        td = os.path.join(TARGET, kind + ("" if hooks else "-nohooks"))
        cmd = ["cargo"] + tc + ["build", "--offline", "--target-dir", td] + extra_args
        for b in bins:
            cmd += ["--bin", b]
        freshen(td)
        rc, out, err, to = run(cmd, os.path.join(HERE, "harness"), {"RUSTFLAGS": f}, timeout=700)
        if rc == 0:
            return os.path.join(td, sub), hooks
        log("build failed (%s, hooks=%s):\n%s" % (kind, hooks, err[-3000:]))
    raise Inconclusive("harness does not build against /repo (%s)" % kind)

def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()

REPO_HASH = None
def freshen(td):
    """cargo decides by mtime; make it rebuild whenever the contents of /repo differ from what
    this target directory was last built from."""
    global REPO_HASH
    if REPO_HASH is None:
        REPO_HASH = repo_hash()
    stamp = os.path.join(td, "repo.sha256")
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != REPO_HASH and os.path.isdir(td):
        for root, dirs, files in os.walk(td):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.startswith(("futures", "hv-", "mw-")):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
            elif os.path.basename(root) in ("deps", "build", "incremental"):
                dirs[:] = []
    os.makedirs(td, exist_ok=True)
    open(stamp, "w").write(REPO_HASH)

class Result:
    def __init__(self):
        self.workloads = []
        self.violations = []   # (summary, replay dict)
        self.notes = []
        self.lock = threading.Lock()
        self.errors = []

def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12]), f[0]
    except OSError:
        return None

def confirm_hang(binp, wl, case, tier, serial):
    """Re-runs one case alone; a deterministic case that normally takes milliseconds and does
    not finish in 25 s (twice) makes no progress."""
    for _ in range(2):
        p = subprocess.Popen([binp, "--workload", wl, "--case", str(case), "--tier", tier], env=env(),
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        t = time.time()
        hung = True
        while time.time() - t < 25:
            if p.poll() is not None:
                hung = False
                break
            time.sleep(0.2)
        if hung:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        else:
            return False
    return True

def native(prop, cfg, tier, seed, res, kind="native"):
    bins = cfg["bins"]
    # entries: "bin" or ("bin", scale, only)
    bins = [b if isinstance(b, (list, tuple)) else (b, None, None) for b in bins]
    names = [b[0] for b in bins]
    d, hooks = build_native(names, kind)
    log("built", kind, names, "hooks=%s" % hooks)
    for b, bscale, only in bins:
        binp = os.path.join(d, b)
        cmd = [binp, "--seed", str(seed), "--tier", tier]
        oargs = ["--only", only] if only else []
        cmd += oargs
        scale = bscale or cfg.get("scale_" + kind)
        if scale:
            cmd += ["--scale", str(scale)]
        cmd += cfg.get("args", [])
        ex = {}
        if kind == "tsan":
            ex["TSAN_OPTIONS"] = "halt_on_error=1 abort_on_error=0 exitcode=66"
        if kind == "asan":
            ex["ASAN_OPTIONS"] = "detect_leaks=0 abort_on_error=0 exitcode=66 detect_stack_use_after_return=0"
        tries = 0
        while True:
            tries += 1
            rc, out, err, to = run(cmd, HERE, ex, timeout=600 if tier == "quick" else 3000)
            wls = []
            for line in out.splitlines():
                if line.startswith("WORKLOAD "):
                    wl = json.loads(line[9:])
                    if len(bins) > 1:
                        wl["workload"] = b + "/" + wl["workload"]
                    wl["engine"] = kind + ("+hooks" if hooks else "")
                    wls.append(wl)
            if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE) and tries < 2:
                log("native run died with", rc, "- repeating to confirm")
                continue
            break
        with res.lock:
            res.workloads += wls
        if to:
            raise Inconclusive("%s did not finish in time" % b)
        if rc == 0:
            continue
        replay = {"property": prop, "binary": b, "engine": kind, "hooks": hooks, "seed": seed, "tier": tier}
        if rc == 1:
            for line in out.splitlines():
                if line.startswith("FAIL "):
                    f = json.loads(line[5:])
                    replay.update(workload=f["workload"], case=f["case"], violations=f["violations"],
                                  cmd="%s --workload %s --case %s --tier %s" % (binp, f["workload"], f["case"], tier))
                    c2, o2, e2, t2 = run([binp, "--workload", f["workload"], "--case", str(f["case"]), "--tier", tier] + oargs, HERE, ex, timeout=60)
                    replay["reproduced"] = (c2 == 1)
                    replay["trace"] = o2.splitlines()[-400:]
                    with res.lock:
                        res.violations.append(("%s: %s" % (f["workload"], "; ".join(f["violations"])), replay))
            continue
        if rc == 3:
            m = re.search(r"HANG(-SERIAL)? workload=(\S+) case=(\d+)", out)
            if m and confirm_hang(binp, m.group(2), m.group(3), tier, bool(m.group(1))):
                replay.update(workload=m.group(2), case=int(m.group(3)),
                              cmd="%s --workload %s --case %s --tier %s" % (binp, m.group(2), m.group(3), tier),
                              violations=["no progress: the case never finishes"])
                with res.lock:
                    res.violations.append(("%s: the case makes no progress (confirmed twice)" % m.group(2), replay))
                continue
            raise Inconclusive("a case of %s exceeded the wall-clock watchdog and did so only once" % b)
        if rc == 66:
            rep = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer)[^\n]*(\n.*){0,60}", err)
            replay.update(violations=["sanitizer report"], trace=(rep.group(0) if rep else err[-4000:]).splitlines(), cmd=" ".join(cmd))
            with res.lock:
                res.violations.append((rep.group(0).splitlines()[0] if rep else "sanitizer report", replay))
            continue
        if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            replay.update(violations=["process died with signal %d (twice)" % -rc], trace=err.splitlines()[-60:], cmd=" ".join(cmd))
            with res.lock:
                res.violations.append(("process died with signal %d" % -rc, replay))
            continue
        raise Inconclusive("%s exited with %s: %s" % (b, rc, err[-2000:]))

MIRI_BAD = [
    (r"error: Undefined Behavior: (.*)", "undefined behaviour: "),
    (r"MONITOR-VIOLATION: (.*)", "monitor: "),
    (r"error: (?:a thread blocked forever|the evaluated program deadlocked|deadlock.*)", "deadlock (lost wake-up)"),
    (r"error: memory leaked: (.*)", "memory leak: "),
    (r"error: abnormal termination: (.*)", "abnormal termination: "),
    (r"thread '[^']*'[^\n]* panicked at ([^\n]*\n[^\n]*)", "unexpected panic at "),
]

def miri(prop, cfg, tier, seed, res):
    freshen(os.path.join(TARGET, "miri"))
    for m in cfg.get("miri", []):
        name, quick, thorough = m[0], m[1], m[2]
        flags0 = m[3] if len(m) > 3 else ""
        n = quick if tier == "quick" else thorough
        rounds = [("", n)]
        if tier == "thorough":
            rounds.append(("-Zmiri-tree-borrows", n // 2))
        for bi, (tb, cnt) in enumerate(rounds):
            start = (seed % 100000) * 10000 + bi * 500000
            flags = "-Zmiri-many-seeds=%d..%d -Zmiri-preemption-rate=0.08 -Zmiri-compare-exchange-weak-failure-rate=0.3 %s %s" % (start, start + cnt, tb, flags0)
            t = time.time()
            rc, out, err, to = run(["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--bin", name],
                                   os.path.join(HERE, "miri"), {"MIRIFLAGS": flags, "RUSTFLAGS": "-Awarnings"},
                                   timeout=650 if tier == "quick" else 3000)
            tried = len(re.findall(r"^Trying seed: ", err, re.M))
            with res.lock:
                res.workloads.append({"workload": "miri:" + name + (" tree-borrows" if tb else ""), "engine": "miri", "evaluations": tried, "nontrivial": tried,
                                      "distinct": tried, "events": tried, "seconds": round(time.time() - t, 2), "counters": {"miri_executions": tried},
                                      "samples": ["%s: %d interpreted executions, Miri seeds %d..%d" % (name, tried, start, start + cnt)]})
            log("miri", name, "executions", tried, "rc", rc, "%.1fs" % (time.time() - t))
            if to:
                raise Inconclusive("miri %s did not finish in time" % name)
            if rc == 0:
                if tried == 0:
                    raise Inconclusive("miri ran nothing")
                continue
            if re.search(r"error: unsupported operation|error: resource exhaustion|error\[E\d+\]|could not compile|error: no matching package", err):
                raise Inconclusive("miri %s: %s" % (name, err[-2000:]))
            for pat, pre in MIRI_BAD:
                mm = re.search(pat, err)
                if mm:
                    what = pre + (mm.group(1) if mm.groups() else "")
                    fs = re.search(r"(?:seed|Seed)[^\n]*?(\d+)[^\n]*fail|[Ff]ailing seeds?: ?([^\n]*)", err)
                    replay = {"property": prop, "engine": "miri", "binary": name, "miriflags": flags, "violations": [what],
                              "cmd": "cd %s/miri && MIRIFLAGS='%s' cargo +nightly miri run --offline --bin %s" % (HERE, flags, name),
                              "failing_seed": fs.group(0) if fs else None, "trace": [l for l in err.splitlines() if not l.startswith("Trying seed")][:150]}
                    with res.lock:
                        res.violations.append(("miri %s: %s" % (name, what.replace("\n", " ")), replay))
                    break
            else:
                raise Inconclusive("miri %s failed: %s" % (name, err[-2000:]))

def main():
    prop = sys.argv[1]
    a = sys.argv
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    res = Result()
    def guarded(f, *args):
        try:
            f(*args)
        except Inconclusive as e:
            res.errors.append(str(e))
        except Exception as e:
            res.errors.append("harness error: %r" % e)
    ths = []
    if cfg.get("bins"):
        ths.append(threading.Thread(target=guarded, args=(native, prop, cfg, tier, seed, res)))
    if cfg.get("miri"):
        ths.append(threading.Thread(target=guarded, args=(miri, prop, cfg, tier, seed, res)))
    for t in ths: t.start()
    for t in ths: t.join()
    for kind in cfg.get("sanitizers", []):
        if isinstance(kind, (list, tuple)):
            kind, on = kind
            if on == "thorough" and tier != "thorough":
                continue
        sub = dict(cfg, bins=cfg.get("bins_" + kind, cfg.get("bins", [])))
        guarded(native, prop, sub, tier, seed, res, kind)
    # known findings
    known = []
    try:
        known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop and k.get("status") != "fixed"]
    except FileNotFoundError:
        pass
    viol = []
    for s, r in res.violations:
        k = [k for k in known if k.get("workload") == r.get("workload") and all(re.fullmatch(k["match"], v) for v in r.get("violations", ["?"]))]
        if not k:
            viol.append((s, r))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wl = res.workloads
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "exploration"),
        "coverage": {
            "evaluations": sum(w["evaluations"] for w in wl),
            "distinct_nontrivial": sum(w["distinct"] for w in wl),
            "rule": cfg["rule"],
            "samples": [s for w in wl for s in w.get("samples", [])][:24],
            "monitored_events": sum(w["events"] for w in wl),
            "workloads": [{k: w[k] for k in ("workload", "engine", "evaluations", "nontrivial", "distinct", "events", "seconds", "counters")} for w in wl],
            "inconclusive": res.errors,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    for w in wl:
        log("%-34s evals %-9d distinct %-9d events %-10d %.1fs" % (w["workload"], w["evaluations"], w["distinct"], w["events"], w["seconds"]))
    if viol:
        for i, (s, r) in enumerate(viol):
            path = os.path.join(EV, "replay", "%s-%d.json" % (prop, i))
            json.dump(r, open(path, "w"), indent=1)
            print("  " + s)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if res.errors:
        print("INCONCLUSIVE: " + " | ".join(res.errors))
        sys.exit(2)
    need = cfg.get("min_distinct", 100)
    if ev["coverage"]["distinct_nontrivial"] < need:
        print("INCONCLUSIVE: only %d distinct non-trivial cases observed" % ev["coverage"]["distinct_nontrivial"])
        sys.exit(2)
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    sys.exit(0)

main()
