#!/usr/bin/env python3
"""seedtest.py [--nocheck] [--notest] ID...: validates planted bugs against /repo (applied and undone in the scratch
copy /tmp/wt with its own build scripts /tmp/wtbuild.sh and /tmp/wttest.sh; see DESIGN.md)."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded")
a = sys.argv[1:]; nocheck = "--nocheck" in a; notest = "--notest" in a; a = [x for x in a if not x.startswith("--")] or sorted(os.listdir(S))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
base = json.load(open("/opt/vp/BASELINE.json"))
def passed(f):
    d = json.load(open(f)); r = d.get("passed") or [t["name"] for t in d.get("tests", []) if t.get("status") == "passed"]; return set(r)
want = set(base["stable"])
sh("git -C /tmp/wt fetch -q /repo && git -C /tmp/wt reset -q --hard FETCH_HEAD")
assert sh("git -C /tmp/wt status --porcelain").stdout.strip() == "", "repo dirty"
for i in a:
    d = os.path.join(S, i); meta = json.load(open(d + "/meta.json")); out = {"id": i, "property": meta["property"]}
    try:
        r = sh("git -C /tmp/wt apply %s/patch.diff" % d); assert r.returncode == 0, "apply: " + r.stdout
        r = sh("bash /tmp/wtbuild.sh"); assert r.returncode == 0, "build: " + r.stdout[-2000:]
        if not notest:
            sh("bash /tmp/wttest.sh /tmp/seed_out.json"); miss = want - passed("/tmp/seed_out.json"); out["tests"] = "ok" if not miss else "FAIL %s" % sorted(miss)[:5]
        r = sh("bash %s/demo.sh" % d, cwd="/tmp/wt"); out["demo"] = "%d %s" % (r.returncode, r.stdout.strip()[-200:])
        if not nocheck:
            for p in meta.get("also", []) + [meta["property"]]:
                t = time.time(); r = sh("VERIF_REPO=/tmp/wt VERIF_BUILD=/tmp/wtb VERIF_SEED=1 python3 run.py check %s --tier quick" % p, cwd=V); out["check " + p] = "%d %.0fs %s" % (r.returncode, time.time() - t, [l[:200] for l in r.stdout.splitlines() if l.startswith("FAILURE") or "ERROR" in l][:2])
    except AssertionError as e: out["error"] = str(e)
    finally: sh("git -C /tmp/wt checkout -- .")
    print(json.dumps(out, indent=1), flush=True)
sh("bash /tmp/wtbuild.sh")
for i in a:
    r = sh("bash %s/demo.sh" % os.path.join(S, i), cwd="/tmp/wt"); print("clean demo", i, r.returncode, r.stdout.strip()[-200:] if r.returncode else "")
