#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  check.py <property> [quick|thorough]

1. compiles the harness crate with /repo's current source to whole-program LLVM IR,
2. symbolically executes each entry of the property (symx), z3 deciding every branch and assertion,
3. replays counterexamples and sampled paths on the native build of the same program,
4. writes evidence/<property>.json.
Exit 0: held within the bounds; 1: violation (replayed natively); anything else: no answer.
"""
import glob, json, os, re, shutil, subprocess, sys, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "runner"))
import props


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", env()), **kw)


def build_engine():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
    r = run(["cargo", "+stable", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "engine"), env=e)
    b = os.path.join(BUILD, "engine", "release", "symx")
    if r.returncode or not os.path.exists(b):
        die("engine build failed\n" + r.stdout[-3000:])
    return b


def build_harness(features, profile):
    """Compile harness + foca from the current tree; returns (ll, so)."""
    e = env()
    tdir = os.path.join(BUILD, "h")
    e["CARGO_TARGET_DIR"] = tdir
    out = os.path.join(tdir, profile)
    for old in glob.glob(os.path.join(out, "deps", "harness-*.ll")) + glob.glob(os.path.join(out, "libharness.a")):
        os.remove(old)
    # make sure cargo looks at /repo again even if mtimes are unchanged
    for old in glob.glob(os.path.join(out, ".fingerprint", "foca-*")) + glob.glob(os.path.join(out, ".fingerprint", "harness-*")):
        shutil.rmtree(old)
    cmd = ["cargo", "+stable", "rustc", "--profile", profile, "--offline", "--lib", "--features", features,
           "--", "--emit=llvm-ir", "-C", "save-temps=no", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    r = run(cmd, cwd=os.path.join(VERIF, "harness"), env=e)
    if r.returncode:
        die("harness build failed\n" + r.stdout[-6000:])
    ll = glob.glob(os.path.join(out, "deps", "harness-*.ll"))
    lib = os.path.join(out, "libharness.a")
    if len(ll) != 1 or not os.path.exists(lib):
        die("harness build left no IR")
    so = os.path.join(out, "harness.so")
    r = run(["gcc", "-shared", "-o", so, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lpthread", "-ldl", "-lm"])
    if r.returncode:
        die("linking the native harness failed\n" + r.stdout[-3000:])
    return ll[0], so


def build_replay():
    b = os.path.join(BUILD, "replay")
    src = os.path.join(VERIF, "runner", "replay.c")
    r = run(["gcc", "-O1", "-o", b, src, "-ldl", "-rdynamic"])
    if r.returncode:
        die("replay build failed\n" + r.stdout[-3000:])
    return b


def replay(rb, so, jobs):
    f = os.path.join(BUILD, "jobs.txt")
    with open(f, "w") as fh:
        for entry, params, inputs in jobs:
            fh.write("%s|%s|%s\n" % (entry, ",".join(map(str, params)), " ".join(inputs)))
    r = subprocess.run([rb, so, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    res = r.stdout.splitlines()
    if r.returncode or len(res) != len(jobs):
        die("native replay failed: %d %d/%d %s" % (r.returncode, len(res), len(jobs), r.stderr[-500:]))
    return res


def read_viols(out):
    vs = []
    for f in sorted(glob.glob(out + "/viol-*.txt")):
        cur = None
        for l in open(f, errors="replace"):
            l = l.rstrip("\n")
            if l.startswith("VIOL "):
                cur = {"msg": l[5:], "inputs": [], "at": []}
            elif l.startswith("IN") and cur is not None:
                cur["inputs"] = l.split()[1:]
            elif l.startswith("AT ") and cur is not None:
                cur["at"].append(l[3:])
            elif l == "END" and cur is not None:
                vs.append(cur)
                cur = None
    return vs


def main():
    if sys.argv[1:] == ["setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        build_replay()
        # warm the dependencies; every check compiles foca and its harness again
        for features, profile in sorted({(P["features"], R.get("profile", "release")) for P in props.PROPS.values() for R in P["runs"]}):
            build_harness(features, profile)
            if not os.environ.get("SYMX_SETUP_ALL"):
                break
        print("setup done")
        return
    if len(sys.argv) < 2 or sys.argv[1] not in props.PROPS:
        die("usage: check.py <property> [quick|thorough]")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    symx = build_engine()
    rb = build_replay()
    jobs = int(os.environ.get("SYMX_JOBS", str(min(8, os.cpu_count() or 4))))
    known = [k for k in props.known_findings() if k["property"] == pid]
    builds = {}
    tot = {}
    runs = []
    funcs = {}
    cover = {}
    viols = []
    knownhits = {}
    validated = 0
    samples = []
    solver_s = 0.0
    for R in P["runs"]:
        if R.get("tier") and R["tier"] != tier:
            continue
        prof = R.get("profile", "release")
        if prof not in builds:
            builds[prof] = build_harness(P["features"], prof)
        ll, so = builds[prof]
        params = R.get(tier, R.get("quick"))
        out = os.path.join(BUILD, "out", pid + "-" + R["entry"])
        shutil.rmtree(out, ignore_errors=True)
        limit = R.get("time", 600) if tier == "quick" else R.get("thorough_time", 3000)
        cmd = [symx, "--ll", ll, "--entry", R["entry"], "--out", out, "--jobs", str(jobs), "--time", str(limit),
               "--params", ",".join(map(str, params)), "--traces", "4"]
        if R.get("max_steps"):
            cmd += ["--max-steps", str(R["max_steps"])]
        here = [k for k in known if re.match(k["run"], R["entry"] + ":" + ",".join(map(str, params)))]
        for k in here:
            cmd += ["--known", k["match"]]
        r = run(cmd)
        if not os.path.exists(out + "/result.json"):
            die("%s: the symbolic executor stopped (%d)\n%s" % (R["entry"], r.returncode, r.stdout[-3000:]))
        res = json.load(open(out + "/result.json"))
        vs = read_viols(out)
        # -------- counterexamples: replay on the native build
        cand = vs[:]
        cand.sort(key=lambda v: len(v["inputs"]))
        bymsg = {}
        for v in cand:
            bymsg.setdefault(v["msg"], []).append(v)
        pick = [v for m in sorted(bymsg) for v in bymsg[m][:5]]
        confirmed = []
        if pick:
            rr = replay(rb, so, [(R["entry"], params, v["inputs"]) for v in pick])
            for v, o in zip(pick, rr):
                m = v["msg"]
                if m.startswith("check: "):
                    ok = o == "fail " + m[7:]
                elif m.startswith("panic"):
                    ok = o == "panic"
                elif m.startswith("steps"):
                    ok = o == "timeout"
                else:
                    ok = o.startswith("crash") or o == "panic" or o == "timeout"
                v["native"] = o
                if ok:
                    confirmed.append(v)
            for v in confirmed:
                kf = next((k for k in here if k["match"] in v["msg"] and any(k["at"] in a for a in v["at"])), None)
                if kf:
                    knownhits[kf["match"]] = kf
                else:
                    v["entry"], v["params"], v["profile"] = R["entry"], params, prof
                    viols.append(v)
            if pick and not confirmed:
                print(r.stdout[-2000:])
                for v in pick[:5]:
                    print("  unreproduced: %s -> %s (%s)" % (v["msg"], v["native"], " ".join(v["inputs"])))
                if not viols:
                    die("%s: counterexample does not reproduce natively (the model is wrong)" % R["entry"])
        if viols:
            break
        if res["errors"] or res["incomplete"] or res["unknown"] or r.returncode:
            die("%s: incomplete exploration (errors=%d incomplete=%d unknown=%d rc=%d)\n%s" % (
                R["entry"], res["errors"], res["incomplete"], res["unknown"], r.returncode, r.stdout[-3000:]))
        if res["paths"] == 0:
            die("%s: no path completed (vacuous)" % R["entry"])
        need = R.get("cover", [])
        for c in need:
            if str(c) not in res["cover"]:
                die("%s: no path reaches cover point %d (vacuous)" % (R["entry"], c))
        # -------- sampled paths: the native build must observe the same trace
        tr = []
        for f in sorted(glob.glob(out + "/traces-*.txt")):
            for l in open(f):
                w = l.split()
                if w and w[0] == "T":
                    tr.append((w[1], w[2], w[3:]))
        rnd.shuffle(tr)
        tr = tr[:200]
        if tr:
            rr = replay(rb, so, [(R["entry"], params, t[2]) for t in tr])
            for t, o in zip(tr, rr):
                if o != "ok %016x %s" % (int(t[0], 16), t[1]):
                    die("%s: native run disagrees with the symbolic path: %s vs ok %s %s on %s" % (
                        R["entry"], o, t[0], t[1], " ".join(t[2])))
            validated += len(tr)
            samples += [{"entry": R["entry"], "inputs_hex": " ".join(t[2])[:400], "trace_hash": t[0]} for t in tr[:2]]
        for f in glob.glob(out + "/funcs-*.txt"):
            for l in open(f):
                w = l.split()
                if len(w) >= 2 and "foca" in w[0]:
                    a = funcs.setdefault(w[0], [int(w[1]), set()])
                    a[1].update(w[2:])
        for k in ("paths", "killed", "forks", "steps", "checks", "checks_symbolic", "queries", "z3_calls", "sat", "unsat", "cache_hits"):
            tot[k] = tot.get(k, 0) + res.get(k, 0)
        solver_s += res["solver_us"] / 1e6
        runs.append({"entry": R["entry"], "profile": prof, "params": params, "bounds": R["bounds"](params) if callable(R["bounds"]) else R["bounds"],
                     "paths": res["paths"], "forks": res["forks"], "max_path_steps": res["max_path_steps"], "max_symbolic_inputs": res["max_vars"],
                     "assertions": res["checks"], "assertions_decided_by_solver": res["checks_symbolic"], "queries": res["queries"], "z3_calls": res["z3_calls"],
                     "solver_s": round(res["solver_us"] / 1e6, 3), "wall_s": res["wall_s"], "cover": res["cover"]})
        print("%s %s: %d paths, %d assertions (%d symbolic), %d queries (%d to z3: %d unsat), %.1f s" % (
            pid, R["entry"], res["paths"], res["checks"], res["checks_symbolic"], res["queries"], res["z3_calls"], res["unsat"], res["wall_s"]))
        sys.stdout.flush()
    wall = time.time() - t0
    fl = []
    for n, (nb, ids) in sorted(funcs.items()):
        fl.append({"function": n, "blocks": nb, "blocks_reached": len(ids)})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("killed", 0),
            "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"counterexample": viols[0]["msg"]}] if (samples or viols) else [],
            "symbolic_paths": tot.get("paths", 0),
            "instructions_executed": tot.get("steps", 0),
            "assertions_evaluated": tot.get("checks", 0),
            "assertions_decided_by_solver": tot.get("checks_symbolic", 0),
            "queries_discharged": tot.get("queries", 0),
            "z3_calls": tot.get("z3_calls", 0), "z3_unsat": tot.get("unsat", 0), "z3_sat": tot.get("sat", 0),
            "query_cache_hits": tot.get("cache_hits", 0),
            "solver_s": round(solver_s, 3),
            "functions_encoded": fl,
            "runs": runs,
            "outside_bounds": P["outside"],
        },
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    for m, k in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    if viols:
        v = viols[0]
        rp = os.path.join(BUILD, "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print("counterexample: %s" % v["msg"])
        print("  entry %s params %s profile %s inputs %s" % (v["entry"], v["params"], v["profile"], " ".join(v["inputs"])))
        print("  native replay: %s" % v["native"])
        for a in v["at"][:6]:
            print("  at " + a)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s (%.1f s)" % (pid, wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
