#!/usr/bin/env python3
"""matrix.py [ids]: runs the quick check of each planted change's property (and those named by EXTRA=C07,C08)
on a copy of /repo with the change, and records the exit codes in tools/matrix.json."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, M = os.path.join(V, "seeded"), os.path.join(V, "tools/matrix.json")
for i in sys.argv[1:] or sorted(os.listdir(S)):
    props = [json.load(open(os.path.join(S, i, "meta.json")))["property"]] + [p for p in os.environ.get("EXTRA", "").split(",") if p]
    wt, out = "/tmp/mx-repo-" + i, "/tmp/mx-out-" + i
    for p in props:
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        subprocess.run(["git", "-C", wt, "apply", os.path.join(S, i, "patch.diff")], check=True)
        with open("/tmp/mx-%s-%s.log" % (i, p), "w") as f:
            r = subprocess.run([sys.executable, os.path.join(V, "run.py"), p, "quick"], stdout=f, stderr=f, env=dict(os.environ, VT_REPO=wt, VT_OUT=out))
        m = json.load(open(M)) if os.path.exists(M) else {}
        m.setdefault(i, {})[p] = r.returncode
        json.dump(m, open(M, "w"), indent=1, sort_keys=True)
        print(i, p, r.returncode, flush=True)
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
