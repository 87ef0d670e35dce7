"""Runs requests on the repository's Python code."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/vp/venv/bin/python"
ENV = {"PATH": "/usr/bin:/bin", "PYTHONPATH": os.environ.get("PTV_REPO", "/repo"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8",
       "HOME": "/nonexistent", "TERM": "dumb"}


class PyError(Exception):
    pass


def _one(reqs, timeout):
    d = tempfile.mkdtemp(prefix="ptvpy")
    try:
        with open(d + "/q", "w") as f:
            json.dump(reqs, f)
        p = subprocess.run([PY, os.path.join(VERIF, "drv", "pydrv.py"), d + "/q", d + "/r"], env=dict(ENV, TMPDIR=d), cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if not os.path.exists(d + "/r"):
            return [{"error": "the interpreter ended: " + p.stdout.decode(errors="replace")[-300:]}] * len(reqs)
        return json.load(open(d + "/r"))
    except subprocess.TimeoutExpired:
        return [{"error": "no answer within the time limit"}] * len(reqs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(reqs, workers=8, timeout=600):
    n = min(workers, max(1, len(reqs) // 4))
    parts = [reqs[i::n] for i in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda p: _one(p, timeout), parts))
    out = [None] * len(reqs)
    for i, r in enumerate(rs):
        for j, x in enumerate(r):
            out[i + j * n] = x
    return out
