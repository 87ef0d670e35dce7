#!/usr/bin/env python3
"""Development aid: takes planted bugs through build, stable tests, demonstration and their property's check
in scratch copies mounted over /repo and /verif (needs a mount namespace; no check uses this).
usage: seedrun.py [--only-check] [--props C01,C02] [-j N] SEED..."""
import json, os, subprocess, sys, shutil, tempfile, argparse, concurrent.futures as cf
V = "/verif"
INNER = r'''
set -u
S=%(s)s; ID=%(id)s
mount --bind $S/repo /repo && mount --bind $S/verif /verif || exit 90
cd /repo
git checkout -q -- . 
if [ %(skip)d = 0 ]; then
  bash /opt/vp/build.sh > $S/build0.log 2>&1 || { echo "RESULT build-base FAIL"; exit 1; }
  (cd /repo; timeout 300 bash $S/demo/demo.sh > $S/demo0.log 2>&1); echo "RESULT demo-base $?"
fi
git apply $S/patch.diff || { echo "RESULT apply FAIL"; exit 1; }
if [ %(skip)d = 0 ]; then
  bash /opt/vp/build.sh > $S/build1.log 2>&1 || { echo "RESULT build-bug FAIL"; tail -5 $S/build1.log; exit 1; }
  bash /opt/vp/test.sh $S/t.json > $S/test.log 2>&1; echo "RESULT tests $(tail -1 $S/test.log)"
  (cd /repo; timeout 300 bash $S/demo/demo.sh > $S/demo1.log 2>&1); echo "RESULT demo-bug $?"
fi
for P in %(props)s; do
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $P quick > $S/check.$P.log 2>&1; echo "RESULT check $P $? $(grep -c VIOLATION $S/check.$P.log)"
  grep VIOLATION $S/check.$P.log | head -2
done
'''
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b
def one(sid, a):
    S = tempfile.mkdtemp(prefix="seedrun-", dir="/tmp")
    try:
        d = os.path.join(V, "seeded", sid)
        meta = json.load(open(os.path.join(d, "meta.json")))
        subprocess.check_call(["cp", "-a", "/repo", S + "/repo"])
        subprocess.check_call("mkdir %s/verif && cd /verif && tar c --exclude=./seeded --exclude=./replay --exclude=./evidence . | tar x -C %s/verif && mkdir -p %s/verif/evidence" % (S, S, S), shell=True)
        shutil.copytree(d, S + "/demo"); shutil.copy(d + "/patch.diff", S + "/patch.diff")
        for f in ("patch.diff", "meta.json"): os.unlink(S + "/demo/" + f)
        props = a.props.split(",") if a.props else [meta["property"]]
        sh = INNER % {"s": S, "id": sid, "skip": 1 if a.only_check else 0, "props": " ".join(props) if not a.no_check else ""}
        p = subprocess.run(["unshare", "-m", "bash", "-c", sh], capture_output=True, text=True)
        out = p.stdout + p.stderr
        if not a.only_check and os.path.exists(S + "/t.json"):
            try:
                base = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(S + "/t.json"))
                want = set(base.get("passed") or base.get("stable") or base.get("tests") or [])
                got = set(t.get("passed") or [])
                out += "RESULT stable-missing %s\n" % sorted(want - got)[:5]
            except Exception as e: out += "?? %r\n" % e
        if a.verbose:
            for f in ("demo0.log", "demo1.log"):
                if os.path.exists(S + "/" + f): out += "--%s--\n" % f + open(S + "/" + f, errors="replace").read()[-1500:]
            for q in props:
                if os.path.exists(S + "/check.%s.log" % q): out += open(S + "/check.%s.log" % q).read()[-1500:]
        return sid, out
    finally:
        shutil.rmtree(S, ignore_errors=True)
ap = argparse.ArgumentParser()
ap.add_argument("seeds", nargs="*"); ap.add_argument("--only-check", action="store_true"); ap.add_argument("--no-check", action="store_true")
ap.add_argument("--props"); ap.add_argument("-j", type=int, default=2); ap.add_argument("-v", "--verbose", action="store_true")
a = ap.parse_args()
ids = a.seeds or sorted(os.listdir(os.path.join(V, "seeded")))
with cf.ThreadPoolExecutor(a.j) as ex:
    for sid, out in ex.map(lambda s: one(s, a), ids):
        print("==", sid); print(out, flush=True)
