#!/usr/bin/env python3
"""run_check.py PROPERTY [quick|thorough]  -- decide one property by running the
real code of $MSF_REPO (default /repo) under the monitors in harness/.

Builds what it needs from the current working tree, runs the suites, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MSF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import BINARIES, CHECKS  # noqa: E402

SAN = {
    "none": [],
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"],
    "plain_g": ["-g1"],
}


def tree_hash(extra):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("msf_core", "msf_updates", "msf_timing", "msf_distort", "sensor_fusion_comm", "msf_eval")]
    roots += [os.path.join(VERIF, d) for d in ("harness", "shim", "tools")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".pyc"):
                    continue
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:20]


def target(run):
    """binary name, and the suites compiled into it (only those its run needs: compile time)"""
    if not BINARIES[run["bin"]].get("select"):
        return run["bin"], ()
    suites = tuple(sorted(set(run["quick"]) | set(run.get("thorough", {}))))
    return run["bin"] + "." + hashlib.sha256(" ".join(suites).encode()).hexdigest()[:6], suites


def compile_binary(base, name, suites, gen):
    b = BINARIES[base]
    out = os.path.join(BUILD, name)
    inc = ["-I" + os.path.join(VERIF, "shim"), "-I" + gen]
    inc += ["-I" + os.path.join(REPO, p) for p in ("msf_core/include", "msf_timing/include", "msf_updates/include", "msf_updates/src", "msf_distort/src")]
    cmd = [b.get("cxx", "g++"), "-std=c++17", "-w", b.get("opt", "-O1"), *SAN[b.get("san", "none")],
           '-DROS_PACKAGE_NAME="msf"', "-DBOOST_NO_CXX11_VARIADIC_TEMPLATES", "-DENABLE_MSF_TIMING",
           *inc, "-isystem", "/usr/include/eigen3", *b.get("flags", []), *(["-DSELECT"] + ["-DW_" + x for x in suites] if suites else []),
           os.path.join(VERIF, "harness", b["src"])]
    cmd += [s.replace("REPO/", REPO + "/") for s in b.get("extra", ["REPO/msf_timing/src/Timer.cc", "REPO/msf_core/src/lib/msf_tools.cc", "REPO/msf_core/src/lib/falsecolor.cc"])]
    cmd += ["-lglog", "-lpthread", "-o", out]
    stamp = out + ".stamp"
    key = tree_hash(" ".join(cmd))
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out, 0.0, None
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return out, time.time() - t, p.stdout
    open(stamp, "w").write(key)
    return out, time.time() - t, None


def known(prop):
    """key -> text of listed findings, and the fixed list, for this property."""
    k = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            k[m.group(2)] = m.group(3).strip()
    return k


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    subprocess.run([sys.executable, os.path.join(VERIF, "tools", "gen_ros.py"), REPO, gen], check=True)
    bins = sorted({(r["bin"],) + target(r) for r in c["runs"]})
    avail = next((int(l.split()[1]) for l in open("/proc/meminfo") if l.startswith("MemAvailable")), 1 << 25) >> 20
    with concurrent.futures.ThreadPoolExecutor(max(1, min(8, avail // 3))) as ex:
        res = list(ex.map(lambda n: compile_binary(*n, gen), bins))
    # a compiler that ran out of memory gets a second chance on its own
    res = [compile_binary(*n, gen) if e is not None and "Killed" in e else (o, dt, e) for n, (o, dt, e) in zip(bins, res)]
    for n, (o, dt, err) in zip((b[1] for b in bins), res):
        if err is not None:
            sys.stdout.write("BUILD-ERROR %s\n%s\n" % (n, err[-6000:]))
            return 2
    build_s = time.time() - t0
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    kn = known(prop)
    viol, seen_known, inconc = [], {}, 0
    agg = {"cases": 0, "nontrivial": 0, "distinct": 0, "crashes": 0, "counts": {}, "maxes": {}, "samples": [], "per_run": []}
    for r in c["runs"]:
        n = r["quick"] if tier == "quick" else r.get("thorough", {k: v * 10 for k, v in r["quick"].items()})
        if not n:
            continue
        out = os.path.join(BUILD, "%s-%s.json" % (prop, r.get("name", r["bin"])))
        cmd = r.get("wrap", []) + [os.path.join(BUILD, target(r)[0]), "--seed", str(seed), "--out", out, "--timeout", str(r.get("timeout", 120))]
        if r.get("jobs"):
            cmd += ["--jobs", str(r["jobs"])]
        for s, k in n.items():
            cmd += ["--suite", "%s:%d" % (s, k)]
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.run(cmd, env=dict(env, **r.get("env", {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or not os.path.exists(out):
            sys.stdout.write("RUN-ERROR %s rc=%d\n%s\n" % (" ".join(cmd), p.returncode, p.stdout[-4000:]))
            return 2
        d = json.load(open(out))
        inconc += d["inconclusive"]
        for k in ("cases", "nontrivial", "distinct", "crashes"):
            agg[k] += d[k]
        for k, v in d["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        for k, v in d["maxes"].items():
            if isinstance(v, str) or isinstance(agg["maxes"].get(k), str):
                agg["maxes"][k] = "nonfinite"
            else:
                agg["maxes"][k] = max(v, agg["maxes"].get(k, v))
        agg["samples"] += d["samples"][:3]
        agg["per_run"].append({"binary": r["bin"], "suites": n, "cases": d["cases"], "distinct": d["distinct"]})
        pat = re.compile(r.get("keys", c.get("keys", ".")))
        for v in d["violations"]:
            if not (v["key"].startswith(("crash:", "hang:")) or pat.search(v["key"])):
                continue
            if v["key"] in kn:
                seen_known[v["key"]] = v
                continue
            viol.append(dict(v, binary=r["bin"], cmd="VERIF_SEED=%d: VF_INPROC=1 build/%s --seed %d --only %s:%s" % (seed, target(r)[0], seed, v["suite"], v["case"])))
    missing = [k for k in c.get("need", []) if not agg["counts"].get(k)]
    cov = {
        "evaluations": agg["cases"], "distinct_nontrivial": agg["distinct"], "rule": c["rule"], "samples": agg["samples"][:8],
        "observed": agg["counts"], "extremes": agg["maxes"], "runs": agg["per_run"], "build_s": round(build_s, 1),
    }
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, text in kn.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        else:
            print("note: listed finding %s was not met in this run" % k)
    print("%s: %d executions, %d distinct non-trivial, %d inconclusive, %.1f s (build %.1f s)" % (prop, agg["cases"], agg["distinct"], inconc, time.time() - t0, build_s))
    if viol:
        rp = os.path.join(BUILD, "replay-%s.json" % prop)
        json.dump(viol, open(rp, "w"), indent=1)
        keys = []
        for v in viol:
            if v["key"] not in keys:
                keys.append(v["key"])
                print("  %s (%s case %s): %s" % (v["key"], v["suite"], v["case"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if missing:
        print("CHECK-ERROR: monitors observed no %s" % ", ".join(missing))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
