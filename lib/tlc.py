"""Runs TLC on the specifications."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.rejects, self.out, self.rc = [], "", 0
        self.prints = []
        self.violated = None
        self.error = None


def tlc(module, cfg, extra_modules=None, workers=8, args=(), timeout=800, xmx="6g",
        files=None, deadlock=False, xss="64m"):
    """module: name in spec/ or in extra_modules {name: text}.  cfg: text."""
    d = tempfile.mkdtemp(prefix="tlcv")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, text in (extra_modules or {}).items():
            open(os.path.join(d, n + ".tla"), "w").write(text)
        for n, text in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(text if isinstance(text, str) else json.dumps(text))
        open(os.path.join(d, "M.cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss" + xss, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d + "/md", "-noGenerateSpecTE",
               "-config", "M.cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as ex:
            out = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
            rc = -1
        r = Result()
        r.out, r.rc = out, rc
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct", out):
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"Invariant (\w+) is violated", out) or \
            re.search(r"(?:Action|Temporal) propert(?:y|ies) (\w*).* violated", out)
        if m:
            r.violated = m.group(1)
        if rc == -1:
            r.error = "timeout"
        elif rc != 0 and not r.violated:
            m = re.search(r"Error: (.*(?:\n.*){0,12})", out)
            r.error = m.group(1) if m else out[-1500:]
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def apalache(module, inv, length=0, init=None, args=(), timeout=800):
    """-> "" if the invariant holds, otherwise what went wrong."""
    d = tempfile.mkdtemp(prefix="tlcv")
    try:
        shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        cmd = ["apalache-mc", "check", "--length=%d" % length, "--inv=" + inv, "--out-dir=" + d + "/o"]
        if init:
            cmd.append("--init=" + init)
        p = subprocess.run(cmd + list(args) + [module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode == 0 and "NoError" in p.stdout:
            return ""
        return p.stdout[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


REJ = re.compile(r'<<\s*"@REJECT",\s*"([^"]*)",\s*(\d+),\s*(\{.*?\})\s*>>', re.S)


def validate(traces, active, spec="PTTrace", timeout=800, workers=8, extra_consts=""):
    """Validates recorded traces against a trace specification.

    -> (rejects [(trace name, event number, [conditions])], distinct states, transitions)
    A trace whose outcome the specification cannot even evaluate is rejected too."""
    rejects, distinct, gen = [], 0, 0
    todo = list(traces)
    cfg = ("SPECIFICATION TSpec\nCONSTANTS\n TraceFile = \"traces.json\"\n Active = {%s}\n%s\n"
           "INVARIANT Report\nVIEW View\nCHECK_DEADLOCK FALSE\n") % (
               ",".join('"%s"' % a for a in active), extra_consts)
    for _ in range(6):
        if not todo:
            break
        r = tlc(spec, cfg, files={"traces.json": todo}, timeout=timeout, workers=workers)
        for m in REJ.finditer(r.out):
            conds = re.findall(r'"([^"]*)",\s*"([^"]*)"', m.group(3))
            rejects.append((m.group(1), int(m.group(2)), ["%s: %s" % c for c in conds]))
        if r.error is None and not r.violated:
            expect = sum(len(t["ev"]) + 2 for t in todo)
            got = r.distinct
            short = sum(len(t["ev"]) + 1 - n for t in todo for (nm, n, _) in rejects if nm == t["name"])
            if got + short < expect:
                raise TlcError("validated %d of %d states" % (got, expect))
            distinct += r.distinct
            gen += r.generated
            return _uniq(rejects), distinct, gen
        # evaluation failed in one trace: find which
        m = re.search(r"/\\ tid = (\d+)", r.out) or re.search(r"tid \|?-?> (\d+)", r.out)
        ts = re.findall(r"/\\ tid = (\d+)", r.out)
        ii = re.findall(r"/\\ i = (\d+)", r.out)
        if not ts:
            raise TlcError((r.error or "")[:1500] + "\n" + r.out[-1500:])
        k = int(ts[-1]) - 1
        msg = re.sub(r"\s+", " ", (r.error or "")[:300])
        rejects.append((todo[k]["name"], int(ii[-1]) + 1 if ii else 0,
                        ["outcome outside the specification: " + msg]))
        distinct += r.distinct
        gen += r.generated
        todo = todo[:k] + todo[k + 1:]
    return _uniq(rejects), distinct, gen


def _uniq(rej):
    seen, out = set(), []
    for x in rej:
        if x[0] not in seen:
            seen.add(x[0])
            out.append(x)
    return out
