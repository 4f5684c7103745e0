#!/usr/bin/env python3
"""Decide one property: build harness IR from /repo, execute it symbolically, let the solver decide,
replay every counterexample natively, write the evidence file.

exit 0 held, 1 violated (VIOLATION line), anything else: the check could not decide."""
import concurrent.futures as cf
import fcntl, json, os, re, resource, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
BUILD = os.environ.get("KOM_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("KOM_JOBS", "8"))


def env():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                e[k] = v
    except OSError:
        pass
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


class CheckError(Exception):
    pass


def sh(cmd, cwd, e, log):
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    open(log, "w").write(r.stdout + r.stderr)
    if r.returncode != 0:
        raise CheckError("build failed (%s):\n%s" % (" ".join(cmd)[:120], (r.stdout + r.stderr)[-3000:]))


def build_engine(e):
    e = dict(e)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "ks")
    e["RUSTFLAGS"] = ""
    sh(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "komsym"), e, os.path.join(BUILD, "engine.log"))
    return os.path.join(BUILD, "ks", "release", "komsym")


def build_harness(e, feature):
    e = dict(e)
    tgt = os.path.join(BUILD, "h")
    rt = os.path.join(BUILD, "rt.o")
    src = os.path.join(VERIF, "harness")
    sh(["gcc", "-O2", "-c", os.path.join(src, "rt.c"), "-o", rt], src, e, os.path.join(BUILD, "rt.log"))
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp --cfg komunikilo_verif" + (" --cfg komunikilo_verif_py" if feature == "c40" else "")
    deps = os.path.join(tgt, "release", "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith("drv-"):
                os.remove(os.path.join(deps, f))
    sh(["cargo", "rustc", "--release", "--offline", "--features", feature, "--", "--emit=llvm-ir", "-C", "link-arg=" + rt],
       src, e, os.path.join(BUILD, "harness.log"))
    ll = [f for f in os.listdir(deps) if f.startswith("drv-") and f.endswith(".ll")]
    bn = [f for f in os.listdir(deps) if f.startswith("drv-") and "." not in f]
    newest = lambda l: sorted(l, key=lambda f: os.path.getmtime(os.path.join(deps, f)))[-1:]
    ll, bn = newest(ll), newest(bn)
    if len(ll) != 1 or len(bn) != 1 or ll[0][:-3] != bn[0]:
        raise CheckError("expected one IR file and one binary, found %s %s" % (ll, bn))
    return os.path.join(deps, ll[0]), os.path.join(deps, bn[0])


def f64(h):
    return struct.unpack("<d", struct.pack("<Q", int(h, 16)))[0]


KOM_PY = "/repo/kom_py"


def python_native():
    """an ordinary interpreter with numpy, for the Python modules"""
    for p in ("/opt/kom-venv/bin/python", "/usr/bin/python3"):
        if os.path.exists(p):
            return [p, os.path.join(VERIF, "pysym", "native.py"), KOM_PY]
    raise CheckError("no Python interpreter for the reference modem")


def native(binary, replay, e, timeout=60):
    """run the real code on a replay file"""
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30,) * 2)
    try:
        r = subprocess.run(list(binary) + [replay], env=e, capture_output=True, text=True, timeout=timeout, errors="replace", preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "fails": [], "obs": [], "may": False, "out": "native run did not end in %d s" % timeout}
    fails = re.findall(r"^CHECKFAIL (.*)$", r.stdout, re.M)
    return {
        "rc": r.returncode,
        "fails": fails,
        "obs": re.findall(r"^OBS ([0-9a-f]{16})$", r.stdout, re.M),
        "may": "MAYPANIC 1" in r.stdout,
        "out": (r.stdout[-1500:] + r.stderr[-1500:]),
    }


def broken(n):
    """does a native run show the property broken?"""
    if n["fails"]:
        return "check failed on the real code: " + ", ".join(sorted(set(n["fails"]))[:3])
    if n["rc"] == "timeout":
        return "the real code does not terminate"
    if isinstance(n["rc"], int) and n["rc"] < 0 and not n["may"]:
        m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", n["out"])
        return "the real code panics: " + (" ".join(m.groups()) if m else "signal %d" % -n["rc"])
    return None


STOP = threading.Event()
LOCK = threading.Lock()
RUNNING = {}


def kill_group(pr):
    """the engine and its solver"""
    try:
        os.killpg(pr.pid, signal.SIGKILL)
    except OSError:
        pass


def stop_all():
    STOP.set()
    with LOCK:
        for pr in RUNNING.values():
            kill_group(pr)


def run_config(engine, ll, c, k, work, seed, samples, secs, e):
    fn, ps, fs, opt = c
    pre = os.path.join(work, "%s_%d" % (fn, k))
    cmd = list(engine) + ["--ll", ll, "--fn", fn, "--p", ",".join(str(x) for x in ps), "--f", ",".join(repr(float(x)) for x in fs),
           "--seed", str(seed + k), "--samples", str(samples), "--secs", str(opt.get("secs", secs)), "--out", pre,
           "--qms", str(opt.get("qms", 60000)), "--kmax", str(opt.get("kmax", 10))]

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (opt.get("mem", 14) << 30,) * 2)
    t = time.time()
    if STOP.is_set():
        j = {"skipped": True}
    else:
        pr = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=lim, errors="replace",
                              start_new_session=True)
        with LOCK:
            RUNNING[pr.pid] = pr
        try:
            out, err = pr.communicate(timeout=opt.get("secs", secs) + 60)
            try:
                j = json.loads(out)
            except ValueError:
                j = {"error": "engine: rc %s %s" % (pr.returncode, (out + err)[-600:])}
        except subprocess.TimeoutExpired:
            kill_group(pr)
            pr.communicate()
            j = {"error": "engine timed out"}
        with LOCK:
            RUNNING.pop(pr.pid, None)
        if STOP.is_set() and "error" in j:
            j = {"skipped": True}
    j["cfg"] = "%s p=%s f=%s" % (fn, ps, fs)
    j["fn"] = fn
    j["wall"] = time.time() - t
    return j


def replay_json(path):
    d = {"params": [], "reals": [], "inputs": []}
    for l in open(path):
        w = l.split()
        if w[0] == "fn":
            d["harness"] = w[1]
        elif w[0] == "p":
            d["params"].append(int(w[1]))
        elif w[0] == "f":
            d["reals"].append(f64(w[1]))
        elif w[0] == "i":
            d["inputs"].append(w[3])
    if len(d["inputs"]) > 64:
        d["inputs"] = d["inputs"][:64] + ["... %d inputs in all" % len(d["inputs"])]
    return d


def known_findings(prop):
    """known findings of a property: identified by configuration and by the check that fails"""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop and k.get("kind") == "finding":
                    out.append(k)
    return out


def main():
    prop = sys.argv[1]
    if prop == "setup":
        # everything a check needs can be built; each check builds again from /repo's current tree
        os.makedirs(BUILD, exist_ok=True)
        e = env()
        build_engine(e)
        build_harness(e, "c01")
        print("setup: engine and harness build")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = os.path.join(BUILD, "runs", prop)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    import checks
    ck = checks.CHECKS[prop]
    e = env()
    if ck.get("python"):
        engine = ["python3-vt", os.path.join(VERIF, "pysym", "run.py"), "--root", KOM_PY]
        return decide(prop, tier, seed, ck, engine, "", python_native(), work, e, t0, 0.0)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(build_engine, e)
            b = ex.submit(build_harness, e, prop.lower())
            engine = a.result()
            ll, binary = b.result()
        build_s = time.time() - t0
        rc = decide(prop, tier, seed, ck, [engine], ll, [binary], work, e, t0, build_s)
    return rc


def decide(prop, tier, seed, ck, engine, ll, binary, work, e, t0, build_s):
    cfgs = list(ck["quick"]) + (list(ck.get("thorough", [])) if tier == "thorough" else [])
    cfgs = [(c + ({},)) if len(c) == 3 else c for c in cfgs]
    secs = 3000 if tier == "thorough" else 300
    samples = 4 if tier == "thorough" else 2
    errors, violations, findings, validated, mismatches = [], [], [], 0, []
    known = known_findings(prop)
    reached = {}
    tot = dict.fromkeys(["checks", "proved", "folded", "steps", "branches", "merges", "forks", "lemmas", "queries", "cached",
                         "unsat", "sat", "unknown", "solver_s", "inputs", "panics_expected", "atoms", "nodes"], 0)
    called, maxq, samples_out = set(), 0.0, []

    def verdict(replay, what, j):
        n = native(binary, replay, e)
        why = broken(n)
        if why is None:
            return False
        for k in known:
            if k["config"] == j["cfg"] and any(f in k["checks"] for f in (n["fails"] or ["panic"])) and \
                    all(f in k["checks"] for f in (n["fails"] or ["panic"])):
                findings.append((k, replay))
                return True
        violations.append((replay, why, what, j["cfg"]))
        return True

    # longest first; a confirmed violation ends the run
    order = sorted(range(len(cfgs)), key=lambda i: (-cfgs[i][3].get("first", 0), -cfgs[i][3].get("cost", 0)))
    timer = threading.Timer(max(60, 780 - (time.time() - t0)), stop_all)
    timer.daemon = True
    if tier != "thorough":
        timer.start()
    res = [None] * len(cfgs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = {ex.submit(run_config, engine, ll, cfgs[i], i, work, seed, samples, secs, e): i for i in order}
        for f in cf.as_completed(fut):
            j = f.result()
            res[fut[f]] = j
            for x in [x["replay"] for x in j.get("failures", [])] + j.get("tries", []):
                if not STOP.is_set() and not known and broken(native(binary, x, e)):
                    stop_all()
    timer.cancel()
    ran = [j for j in res if "skipped" not in j]
    if len(ran) < len(res):
        errors.append("%d of %d configurations were not run" % (len(res) - len(ran), len(res)))

    for j in ran:
        if "error" in j:
            errors.append("%s: %s" % (j["cfg"], j["error"]))
            continue
        for k in tot:
            tot[k] += j[k]
        maxq = max(maxq, j["max_query_s"])
        called.update(j["called"])
        reached.setdefault(j["fn"], 0)
        reached[j["fn"]] += j["reached"].get("1", 0)
        real = False
        for f in j["failures"]:
            real |= verdict(f["replay"], f["id"], j)
        if j["failures"] and not real:
            errors.append("%s: counterexample did not reproduce on the real code: %s" % (j["cfg"], j["failures"][0]))
        if j["stop"] and not real:
            for x in j.get("tries", []):
                if verdict(x, "inputs of a path without verdict", j):
                    real = True
                    break
        if j["stop"] and not j["failures"] and not real:
            errors.append("%s: stopped: %s" % (j["cfg"], j["stop"]))
        if j["n_inconclusive"]:
            errors.append("%s: undecided: %s" % (j["cfg"], j["inconclusive"][:3]))
        # differential validation of the encoding against the real code
        for s in j["samples"]:
            n = native(binary, s, e)
            if n["rc"] == 3:
                continue
            if not j["failures"] and broken(n):
                if not verdict(s, "sample", j):
                    pass
                continue
            exp = [l.split() for l in open(s) if l.startswith("o ")]
            if n["may"] and isinstance(n["rc"], int) and n["rc"] < 0:
                validated += 1
                continue
            ok = len(exp) == len(n["obs"])
            if ok:
                for (_, h, t), g in zip(exp, n["obs"]):
                    if h == g:
                        continue
                    if t == "u":
                        ok = False
                        break
                    x, y = f64(h), f64(g)
                    if not abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
                        ok = False
                        break
            if ok:
                validated += 1
                if exp and len(samples_out) < 3:
                    d = replay_json(s)
                    d["observed"] = [f64(h) if t == "f" else int(h, 16) for _, h, t in exp[:8]]
                    samples_out.append(d)
            else:
                mismatches.append("%s: %s" % (j["cfg"], s))
    for fn, n in reached.items():
        if n == 0 and not violations:
            errors.append("%s: vacuous, no path reaches the end" % fn)
    if mismatches:
        errors.append("encoding and real code disagree: %s" % mismatches[:3])

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["steps"], "transitions": tot["branches"] + tot["merges"] + tot["forks"] + tot["lemmas"] + tot["queries"],
            "traces_validated_against_impl": validated,
            "samples": samples_out,
            "obligations": tot["checks"], "discharged": tot["proved"],
            "explanation": ("states: arithmetic operations on symbolic values; transitions" if ck.get("python") else
                            "states: IR instructions executed symbolically; transitions") + ": symbolic branches, merges, forks, "
                           "comparison lemmas and solver queries; obligations: assertions decided for all inputs within the bounds",
            "technique": "symbolic execution of the %s, assertions decided by z3" %
                         ("Python source" if ck.get("python") else "compiled LLVM IR"),
            "configurations": len(ran),
            "symbolic_inputs": tot["inputs"],
            "branches": tot["branches"], "merges": tot["merges"], "forks": tot["forks"],
            "assertions_folded_after_lemmas": tot["folded"], "comparison_lemmas": tot["lemmas"],
            "panics_proved_expected": tot["panics_expected"],
            "solver": {"program": "z3 5 (%s)" % ("python3-vt" if ck.get("python") else "z3-new"), "queries": tot["queries"], "answered_from_cache": tot["cached"],
                       "unsat": tot["unsat"], "sat": tot["sat"], "unknown": tot["unknown"],
                       "time_s": round(tot["solver_s"], 3), "longest_query_s": round(maxq, 3)},
            "functions_encoded": sorted(x for x in called if not x.startswith("h_"))[:400],
            "functions_encoded_count": len(called),
            "harnesses": {k: v for k, v in reached.items()},
            "bounds": ck["bounds"],
            "outside": ck.get("outside", ""),
            "per_configuration": [{"cfg": j["cfg"], "obligations": j.get("checks"), "queries": j.get("queries"),
                                   "seconds": round(j["wall"], 2)} for j in ran][:200],
            "build_s": round(build_s, 1),
            "errors": errors,
        },
        "assumptions": checks_assumptions(ck),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    seen = set()
    for k, r in findings:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        r, why, what, cfg = violations[0]
        keep = os.path.join(VERIF, "evidence", "replay-%s.txt" % prop)
        open(keep, "w").write(open(r).read())
        print("%d violations; first: %s (%s; obligation %s)" % (len(violations), why, cfg, what))
        print("replay with: %s %s" % (" ".join(binary), keep))
        print("VIOLATION property=%s replay=%s" % (prop, keep))
        return 1
    if errors:
        print("UNDECIDED property=%s" % prop)
        for x in errors[:20]:
            print("  " + x[:800])
        return 2
    print("HELD property=%s configurations=%d obligations=%d queries=%d validated=%d build=%.0fs wall=%.0fs" %
          (prop, len(cfgs), tot["checks"], tot["queries"], validated, build_s, time.time() - t0))
    return 0


def checks_assumptions(ck):
    if ck.get("python"):
        return ["Python and numpy compute sums and products of doubles up to rounding, which the margins cover", "z3 is right"] + list(ck.get("assumptions", []))
    base = [
        "rustc's LLVM IR (release, panic=abort, overflow checks on) has the meaning of the source",
        "cos, sin, exp, log are within a few ulp of the real functions (glibc)",
        "memory is bounded as stated; allocation never fails",
        "z3 is right",
    ]
    return base + list(ck.get("assumptions", []))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as x:
        print("ERROR: %s" % x)
        sys.exit(3)
