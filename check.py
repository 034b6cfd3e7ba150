#!/usr/bin/env python3
"""check.py ID quick|thorough   -- decide one property on /repo's current working tree.

Builds the harness crate that links the real code of /repo, runs its stages, merges what
they observed into evidence/ID.json.  Exit 0: held on everything observed.  Exit 1: a
VIOLATION line was printed.  Exit 2: no answer (build failure, harness trouble).
"""
import json, os, re, resource, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402

TARGET = os.path.join(ROOT, "target")
STABLE = "1.99.0-x86_64-unknown-linux-gnu"
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e.update(kw)
    return e


class NoAnswer(Exception):
    pass


def cargo(crate, args, e, timeout=800):
    d = os.path.join(ROOT, "harness", crate)
    lock = os.path.join(d, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    r = subprocess.run(["cargo"] + args, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    after = open(lock, "rb").read() if os.path.exists(lock) else None
    if before is not None and before != after:
        open(lock, "wb").write(before)
    if r.returncode != 0:
        raise NoAnswer("cargo %s failed in harness/%s:\n%s" % (" ".join(args), crate, r.stdout[-6000:]))
    return r.stdout


def build_native(crate, profile="dev"):
    td = os.path.join(TARGET, crate)
    cargo(crate, ["build", "--offline", "--profile", profile], env(CARGO_TARGET_DIR=td))
    return os.path.join(td, "debug" if profile == "dev" else profile, PROPS_BIN[crate])


PROPS_BIN = {"dom": "domcheck", "pure": "purecheck", "sel": "selcheck", "mt": "mtcheck", "apps": "appcheck"}


def scratch(name):
    p = os.path.join(TARGET, "scratch", name)
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p


MEM = 4 << 30  # a case that needs more than this (normally a few MB) grows without bound


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run_result(cmd, e, timeout):
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace", preexec_fn=limit_memory)
    m = None
    for l in r.stdout.splitlines():
        if l.startswith("RESULT "):
            m = l[7:]
        elif l.startswith("{"):
            m = l
    return r, (json.loads(m) if m else None)


def replay_case(exe, pid, tier, seed, planned, ix, e):
    """run one case alone; ('ok'|'violated'|'crashed'|'hang'|'error', text)"""
    def lim():
        limit_memory()
        resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    cmd = [exe, pid, "--tier", tier, "--seed", str(seed), "--cases", str(planned), "--one", str(ix)]
    try:
        r = subprocess.run(cmd, env=dict(e, VERIF_TRACE_LIVE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=400, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return "error", "no end within 400 s"
    tr = [l[7:] for l in r.stderr.splitlines() if l.startswith("trace: ")]
    if r.returncode == 0:
        return "ok", "\n".join(tr)
    if r.returncode == 1:
        return "violated", r.stdout
    if r.returncode in (-24, -9):
        return "hang", "\n".join(tr)
    if r.returncode < 0 and "memory allocation of" in r.stderr:
        return "unbounded", "\n".join(tr)
    if r.returncode < 0:
        return "crashed", "\n".join(tr + r.stderr.splitlines()[-10:])
    return "error", r.stdout[-2000:] + r.stderr[-2000:]


def stage_native(pid, spec, tier, seed, st):
    try:
        exe = build_native(st["crate"])
    except NoAnswer as x:
        if not st.get("control"):
            raise
        # do the programs under test fail to compile, or does nothing compile?
        cargo(st["crate"], ["build", "--offline", "--features", "control"], env(CARGO_TARGET_DIR=os.path.join(TARGET, st["crate"])))
        text = str(x)
        m = re.search(r"(?m)^error.*(?:\n.*){0,3}", text)
        return {"cases": 0, "distinct": 0, "planned": 0, "counters": {}, "samples": [], "known": {}, "errors": [], "wall_s": 0,
                "violations": [{"case": -1, "message": "%s: %s" % (st["control"], m.group(0) if m else ""), "trace": text.splitlines()[-150:],
                                "replay": "cd %s && cargo build --offline" % os.path.join(ROOT, "harness", st["crate"])}]}
    secs = st["secs"][tier]
    cmd = [exe, st.get("prop", pid), "--tier", tier, "--seed", str(seed), "--secs", str(secs), "--scratch", scratch(pid)]
    if "cases" in st:
        cmd += ["--cases", str(st["cases"][tier])]
    e = env(**st.get("env", {}))
    r, res = run_result(cmd, e, secs + 500)
    if res is None:
        raise NoAnswer("no result from %s: %s" % (cmd, (r.stdout + r.stderr)[-3000:]))
    sub = " ".join(cmd[1:2])
    for v in res["violations"]:
        v["replay"] = "%s %s --tier %s --seed %d --cases %d --one %d" % (exe, sub, tier, seed, res["planned"], v["case"])
        if "the process died" in v["message"] and not v["trace"]:
            what, text = replay_case(exe, sub, tier, seed, res["planned"], v["case"], e)
            v["message"] += " [run again alone: %s]" % what
            v["trace"] = text.splitlines()[-200:]
    errs = []
    for m in res["errors"]:
        h = re.search(r"case (\d+) did not finish|the process died .* in case (\d+);(?s:.*)memory allocation of", m)
        if h:
            ix = int(h.group(1) or h.group(2))
            what, text = replay_case(exe, sub, tier, seed, res["planned"], ix, e)
            if what in ("hang", "unbounded"):
                res["violations"].append({"case": ix, "case_seed": 0, "message": "the app never comes to rest: this case, which normally takes milliseconds and a few megabytes, " + ("was still computing after 60 s of processor time" if what == "hang" else "used up 4 GB of memory"),
                                          "trace": text.splitlines()[-200:],
                                          "replay": "%s %s --tier %s --seed %d --cases %d --one %s" % (exe, sub, tier, seed, res["planned"], ix)})
                continue
            m += " [run again alone: %s]" % what
        errs.append(m)
    res["errors"] = errs
    return res


def stage_inline(pid, spec, tier, seed, st):
    """one process under a sanitizer or interpreter; findings come from its exit and stderr"""
    tool = st["tool"]
    crate = st["crate"]
    td = os.path.join(TARGET, crate + "-" + tool)
    host = "x86_64-unknown-linux-gnu"
    prop = st.get("prop", pid)
    secs = st["secs"][tier]
    jobs = st.get("jobs", 8)
    if tool == "miri":
        e = env(CARGO_TARGET_DIR=td, RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS=st.get("miriflags", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"))
        e["MIRI_SYSROOT"] = ensure_miri_sysroot(e)
        base = ["cargo", "miri", "run", "--offline", "-q", "--"]
        cwd = os.path.join(ROOT, "harness", crate)
    else:
        san = {"tsan": "thread", "asan": "address"}[tool]
        e = env(CARGO_TARGET_DIR=td, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=%s" % san)
        a = ["build", "--offline", "--target", host]
        if tool == "tsan":
            a += ["-Zbuild-std"]
        cargo(crate, a, e)
        base = [os.path.join(td, host, "debug", PROPS_BIN[crate])]
        e["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66 history_size=4 report_signal_unsafe=0"
        e["ASAN_OPTIONS"] = "detect_leaks=%d exitcode=66 halt_on_error=1" % (1 if st.get("leaks") else 0)
        cwd = ROOT
    total = st["cases"][tier]
    procs = []
    sc = scratch(pid + "-" + tool)
    for j in range(jobs):
        lo = total * j // jobs
        hi = total * (j + 1) // jobs
        if hi <= lo:
            continue
        ee = dict(e)
        if tool == "miri":
            # a different scheduling seed for every process
            ee["MIRIFLAGS"] += " -Zmiri-seed=%d" % (seed * 1000 + j)
            if j == 0:
                # builds the interpreter's sysroot and the crate once
                b = subprocess.run(base + [prop, "--cases", "0", "--inline", "-", "--secs", "1"], cwd=cwd, env=ee, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
                if b.returncode != 0:
                    raise NoAnswer("miri build failed:\n" + b.stderr[-5000:])
        out = open(os.path.join(sc, "out%d" % j), "w")
        err = open(os.path.join(sc, "err%d" % j), "w")
        cmd = base + [prop, "--tier", tier, "--seed", str(seed), "--cases", str(hi), "--from", str(lo), "--secs", str(secs), "--inline", "-"]
        procs.append((j, cmd, lo, hi, subprocess.Popen(cmd, cwd=cwd, env=ee, stdout=out, stderr=err)))
    merged = {"cases": 0, "distinct": 0, "planned": total, "counters": {}, "samples": [], "violations": [], "errors": [], "known": {}, "wall_s": 0}
    end = time.time() + secs + 400
    for j, cmd, lo, hi, p in procs:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            merged["errors"].append("%s process %d did not end" % (tool, j))
            continue
        so = open(os.path.join(sc, "out%d" % j), errors="replace").read()
        se = open(os.path.join(sc, "err%d" % j), errors="replace").read()
        m = [l for l in so.splitlines() if l.startswith("RESULT ")]
        if rc == 0 and m:
            r = json.loads(m[-1][7:])
            merged["cases"] += r["cases"]
            merged["distinct"] += r["distinct"]
            for k, v in r["counters"].items():
                merged["counters"][k] = max(merged["counters"].get(k, 0), v) if k.startswith("max:") else merged["counters"].get(k, 0) + v
            merged["samples"] += r["samples"]
            for v in r["violations"]:
                v["replay"] = " ".join(cmd)
                merged["violations"].append(v)
            merged["errors"] += r["errors"]
            continue
        finding = re.search(r"(error: Undefined Behavior:[^\n]*|error: memory leaked[^\n]*|Data race detected[^\n]*|WARNING: ThreadSanitizer: [^\n]*|ERROR: AddressSanitizer: [^\n]*|ERROR: LeakSanitizer: [^\n]*|error: deadlock[^\n]*|error: the evaluated program deadlocked[^\n]*)", se)
        if finding:
            merged["violations"].append({"case": lo, "message": "%s: %s" % (tool, finding.group(1)), "trace": se.splitlines()[-120:], "replay": " ".join(cmd)})
        elif rc in (-6, -11, 134, 139):
            merged["violations"].append({"case": lo, "message": "%s run crashed (%d)" % (tool, rc), "trace": se.splitlines()[-120:], "replay": " ".join(cmd)})
        else:
            merged["errors"].append("%s process %d: exit %s: %s" % (tool, j, rc, se[-2500:]))
    shutil.rmtree(sc, ignore_errors=True)
    return merged


def stage_css(pid, spec, tier, seed, st):
    """random style sheets through the css! macro, expanded by rustc, run by node"""
    import csscheck
    crate = st["crate"]
    td = os.path.join(TARGET, crate)
    d = os.path.join(ROOT, "harness", crate)
    sc = scratch(pid)
    cargo(crate, ["build", "--offline", "--features", "control"], env(CARGO_TARGET_DIR=td))

    def run(args, src):
        p = subprocess.run(["cargo"] + args, cwd=d, env=env(CARGO_TARGET_DIR=td, CSS_SRC=src, RUSTC_BOOTSTRAP="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
        return p.returncode, p.stdout, p.stderr
    out = {"cases": 0, "distinct": 0, "planned": 0, "counters": {}, "samples": [], "known": {}, "violations": [], "errors": [], "wall_s": 0}
    lock = os.path.join(d, "Cargo.lock")
    before = open(lock, "rb").read()
    end = time.time() + st["secs"][tier]
    k = 0
    seen = set()
    while k < st["rounds"][tier] and (k == 0 or time.time() < end):
        s = seed * 1000 + k
        n = st["cases"][tier]
        replay = "cd %s && python3 csscheck.py %d %d" % (ROOT, s, n)
        k += 1
        try:
            sheets, bad, cov = csscheck.run_round(s, n, run, sc, td, "r%d" % k)
        except csscheck.Broken as b:
            # everything but the invocations of css! compiles (see above)
            out["violations"].append({"case": -1, "message": "the expansion of css! does not compile: " + str(b)[:400], "trace": str(b).splitlines()[-150:], "replay": replay})
            break
        out["cases"] += len(sheets)
        seen |= {"".join(t for t, _ in x.pieces) for x in sheets}
        for c, v in cov.items():
            out["counters"][c] = max(out["counters"].get(c, 0), v) if c.startswith("max:") else out["counters"].get(c, 0) + v
        if len(out["samples"]) < 4:
            out["samples"].append("sheet " + csscheck.shorten(sheets[seed % len(sheets)], 300))
        for i, m in bad[:20]:
            if m.startswith("HARNESS:"):
                out["errors"].append(m)
            else:
                out["violations"].append({"case": i, "message": m, "trace": ["sheet %d: %s" % (i, csscheck.shorten(sheets[i], 3000))] if i is not None else [], "replay": replay})
        if bad:
            break
    out["planned"] = out["cases"]
    out["distinct"] = len(seen)
    if open(lock, "rb").read() != before:
        open(lock, "wb").write(before)
    shutil.rmtree(sc, ignore_errors=True)
    return out


def ensure_miri_sysroot(e):
    d = os.path.join(TARGET, "miri-sysroot")
    ee = dict(e, MIRI_SYSROOT=d)
    ee.pop("MIRIFLAGS", None)
    os.makedirs(d, exist_ok=True)
    r = subprocess.run(["cargo", "miri", "setup", "--offline"], env={k: v for k, v in ee.items() if k != "MIRI_SYSROOT"} | {"XDG_CACHE_HOME": d}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700, cwd=ROOT)
    if r.returncode != 0:
        raise NoAnswer("cargo miri setup failed:\n" + r.stdout[-3000:])
    return os.path.join(d, "miri")


STAGES = {"native": stage_native, "css": stage_css, "inline": stage_inline}


def known_findings():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    replay = os.path.join(ROOT, "evidence", "replay-%s.txt" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    viol, errs, known, samples = [], [], {}, []
    cases = distinct = 0
    counters, stages = {}, []
    for st in spec["stages"]:
        if tier not in st["secs"]:
            continue
        t = time.time()
        try:
            res = STAGES[st["kind"]](pid, spec, tier, seed, st)
        except NoAnswer as x:
            errs.append(str(x))
            break
        name = st.get("name") or st.get("tool") or "native"
        cases += res["cases"]
        distinct += res["distinct"]
        for k, v in res["counters"].items():
            k = k if name == "native" else "%s/%s" % (name, k)
            counters[k] = counters.get(k, 0) + v
        samples += res["samples"][:4]
        known.update(res.get("known") or {})
        viol += res["violations"]
        errs += res["errors"]
        stages.append({"stage": name, "cases": res["cases"], "distinct": res["distinct"], "wall_s": round(time.time() - t, 1)})
        if not res["violations"] and not res["errors"]:
            need = st.get("min", {}).get(tier, 1)
            if res["cases"] < need or res["distinct"] < st.get("min_distinct", 1):
                errs.append("stage %s observed too little: %d cases (need %d), %d distinct" % (name, res["cases"], need, res["distinct"]))
            for k in st.get("need", []):
                if not res["counters"].get(k):
                    errs.append("stage %s never observed '%s'" % (name, k))
        if viol or errs:
            break
    listed = known_findings()
    fresh = [k for k in known if (pid, k) not in listed]
    for k in fresh:
        viol.append({"case": -1, "message": "unlisted finding %s: %s" % (k, known[k]), "trace": [], "replay": ""})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": distinct, "rule": spec["rule"],
            "samples": samples[:6], "stages": stages, "observed": {k: counters[k] for k in sorted(counters)},
        },
        "assumptions": spec["assumptions"], "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    if errs:
        ev["coverage"]["no_answer"] = [x[:1500] for x in errs]
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        if (pid, k) in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[(pid, k)]))
    if viol:
        with open(replay, "w") as f:
            for v in viol:
                f.write("property %s violated\n%s\n" % (pid, v["message"]))
                f.write("replay: %s\n" % v.get("replay", ""))
                f.write("what happened:\n" + "\n".join("  " + t for t in v.get("trace", [])) + "\n\n")
        v = viol[0]
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        print("  " + v["message"][:600].replace("\n", " "))
        sys.exit(1)
    if errs:
        for x in errs:
            log("NO ANSWER for %s: %s" % (pid, x[:4000]))
        sys.exit(2)
    print("%s held: %d cases, %d distinct, %.1f s" % (pid, cases, distinct, time.time() - T0))


main()
