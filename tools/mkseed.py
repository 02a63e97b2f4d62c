#!/usr/bin/env python3
"""mkseed.py SPEC: confirm a planted bug in a scratch copy and keep it in /verif/seeded/<id>/.
SPEC is a python file that defines id, property, needs, breaks, edits=[(file, old, new)], main (text of main.rs)."""
import os, sys, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedscratch"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    os.makedirs(S, exist_ok=True)
    r = S + "/repo"
    shutil.rmtree(r, ignore_errors=True)
    sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/ 2>/dev/null" % (r, r))
    d = os.path.join(S, "demo-" + ns["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(V + "/tools/common.rs", d)
    shutil.copy(V + "/tools/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(ns["main"])
    x = sh("bash %s/demo.sh" % d, cwd=r)
    if x.returncode:
        print(ns["id"], "DEMO FAILS WITHOUT THE CHANGE", x.stdout[-1500:]); continue
    ok = True
    for f, old, new in ns["edits"]:
        t = open(r + "/" + f).read()
        if t.count(old) != 1:
            print(ns["id"], "edit matches", t.count(old), "times:", old); ok = False; break
        open(r + "/" + f, "w").write(t.replace(old, new))
    if not ok: continue
    env = dict(os.environ, CARGO_TARGET_DIR=S + "/target", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
    bad = []
    for a in ("--all-features", ""):
        t = sh("cargo test --workspace --no-fail-fast --offline %s 2>&1 | grep -E '^error|FAILED|panicked|^test result' " % a, cwd=r, env=env)
        if "FAILED" in t.stdout or "error" in t.stdout or "test result" not in t.stdout:
            bad.append(t.stdout[-1500:])
    if bad:
        print(ns["id"], "TESTS FAIL", bad[0]); continue
    x = sh("bash %s/demo.sh" % d, cwd=r)
    if x.returncode != 1:
        print(ns["id"], "DEMO PASSES WITH THE CHANGE", x.returncode, x.stdout[-800:]); continue
    p = sh("git diff -- src", cwd=r).stdout
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    out = V + "/seeded/" + ns["id"]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    print(ns["id"], "ok:", x.stdout.strip().splitlines()[-1][:150] if x.stdout.strip() else "")
shutil.rmtree(S + "/repo", ignore_errors=True)
