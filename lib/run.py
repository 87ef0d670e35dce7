"""Runs driver scripts against the real runtime and returns recorded traces."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

from lib import tdag as T

BASE27 = 1 << 27


def off(v):
    return [-1, 0] if v < 0 else [v >> 27, v & (BASE27 - 1)]


def limbs(v):
    return [(v >> (16 * i)) & 0xffff for i in range(4)]


def scratch_root():
    """tmpfs if it has room (a run writes ~256 MB of zeroes per process)."""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 6 << 30 and os.access("/dev/shm", os.W_OK):
            return "/dev/shm"
    except OSError:
        pass
    return tempfile.gettempdir()


HUNG = [0]  # runs that did not end; after a few of them the rest is not tried


class Run:
    __slots__ = ("script", "events", "status", "final", "stdout", "stderr", "error",
                 "files", "env", "tdagerr", "keep", "dlen")


def run_one(exe, script, env=None, stdin=None, want=("sources", "labels", "sinks", "srcindex",
            "functions", "events", "cflog"), timeout=60, keep_tdag=None, cat=(), out_kind="file",
            post=None, prior=None, db="o.tdag"):
    """script: list of op lines.  Paths of the form {D}/x are placed in the scratch dir.
    prior: a script run before with the same trace file (or bytes the file holds before).
    db: name of the trace file; None: POLYDB is not set (the documented default name is used)."""
    d = tempfile.mkdtemp(prefix="ptv", dir=scratch_root())
    r = Run()
    r.script, r.env, r.dlen = script, env or {}, len(d)
    try:
        r.events, r.error, r.tdagerr, r.files, r.keep = [], None, None, {}, None
        sp, ep, tp = d + "/script", d + "/events", d + "/" + (db or "polytracker.tdag")
        with open(sp, "w") as f:
            f.write("\n".join(script).replace("{D}", d) + "\n")
        e = {"PATH": "/usr/bin:/bin", "POLYDB": tp if db == "o.tdag" else db, "LC_ALL": "C"}
        if db is None:
            del e["POLYDB"]
        elif "/" in db:
            os.makedirs(os.path.dirname(tp))
        for k, v in (env or {}).items():
            e[k] = v.replace("{D}", d)
        if isinstance(prior, bytes):
            with open(tp, "wb") as f:
                f.write(prior)
        elif prior:
            with open(d + "/script0", "w") as f:
                f.write("\n".join(prior).replace("{D}", d) + "\n")
            try:
                subprocess.run([exe, d + "/script0", d + "/events0"], env=e, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
            except subprocess.TimeoutExpired:
                HUNG[0] += 1
        so = open(d + "/stdout", "wb")
        se = open(d + "/stderr", "wb")
        kw = {}
        if stdin is None:
            kw["stdin"] = subprocess.DEVNULL
        elif stdin[0] == "file":
            with open(d + "/stdin", "wb") as f:
                f.write(stdin[1])
            kw["stdin"] = open(d + "/stdin", "rb")
        else:
            kw["stdin"] = subprocess.PIPE
        if out_kind == "pipe":
            kw["stdout"] = subprocess.PIPE
        else:
            kw["stdout"] = so
        try:
            p = subprocess.Popen([exe, sp, ep], stderr=se, env=e, cwd=d, **kw)
            out, _ = p.communicate(stdin[1] if stdin and stdin[0] == "pipe" else None,
                                   timeout=timeout)
            r.status = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            r.status = -999
            HUNG[0] += 1
        so.close()
        se.close()
        r.stdout = out if out_kind == "pipe" else open(d + "/stdout", "rb").read()
        r.stderr = open(d + "/stderr", "rb").read()[-2000:]
        with open(ep, "rb") as f:
            for line in f:
                try:
                    r.events.append(json.loads(line.replace(d.encode(), b"{D}")))
                except ValueError:
                    r.error = "unreadable event line"
        for path in cat:
            q = path.replace("{D}", d)
            r.files[path] = open(q, "rb").read() if os.path.exists(q) else None
        r.final = None
        if os.path.exists(tp):
            try:
                t = T.Tdag(tp)
                r.final = {w: getattr(t, w)() for w in want}
                r.final["sections"] = t.sections
                r.final["filesize"] = t.filesize
                if "sources" in r.final:
                    r.final["sources"] = [(n.replace(d.encode(), b"{D}"), fd, sz)
                                          for n, fd, sz in r.final["sources"]]
                t.close()
            except (T.TdagError, KeyError, IndexError, ValueError) as ex:
                r.tdagerr = repr(ex)
                r.final = None
            if keep_tdag:
                shutil.move(tp, keep_tdag)
                r.keep = keep_tdag
            if post:
                r.keep = post(tp, r)
        else:
            r.tdagerr = "no tdag file"
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_many(exe, jobs, workers=8):
    """jobs: list of kwargs for run_one (with key script); None for runs not tried."""
    def one(j):
        return run_one(exe, **j) if HUNG[0] < 4 else None
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return [f.result() for f in [ex.submit(one, j) for j in jobs]]
