"""What every check shares: running scripts, validating traces, verdicts, evidence."""
import hashlib
import json
import os
import random
import sys
import time

from lib import build, run, tlc, trace

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0}
        self.models = []
        self.assumptions = []
        self.violations = []
        self.notes = []
        self._exe = {}
        self.parts = {}
        try:
            self.known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
        except FileNotFoundError:
            self.known = []

    # ---- building ---------------------------------------------------------
    def exe(self, drv="ptdrv.cpp"):
        if drv not in self._exe:
            self._exe[drv] = build.build(drv)
        return self._exe[drv]

    # ---- design models ----------------------------------------------------
    def model(self, name, module, cfg, extra_modules=None, **kw):
        r = tlc.tlc(module, cfg, extra_modules=extra_modules, **kw)
        if r.violated or r.error:
            raise tlc.TlcError("model %s: %s %s\n%s" % (name, r.violated, r.error, r.out[-2500:]))
        self.models.append({"model": name, "states": r.distinct, "transitions": r.generated})
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        return r

    def apalache(self, name, module, inv, length=0, init=None, args=()):
        """Symbolic check of a module of spec/ (all values, no bounds on integers)."""
        r = tlc.apalache(module, inv, length, init, args)
        if r:
            raise tlc.TlcError("apalache %s: %s" % (name, r))
        self.models.append({"model": name + " (Apalache, symbolic)", "states": 0, "transitions": 0})

    # ---- conformance ------------------------------------------------------
    def validate(self, traces, active=None, spec="PTTrace", jobs=None, rerun=None, **kw):
        """Validates traces; a rejection is repeated (rerun(name) -> fresh trace) before it counts."""
        if not traces:
            return
        active = active or [self.pid]
        rej, ds, tr = tlc.validate(traces, active, spec=spec, **kw)
        self.cov["states"] += ds
        self.cov["transitions"] += tr
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["samples"] += sum(len(t["ev"]) for t in traces)
        by = {t["name"]: t for t in traces}
        for name, pos, conds in rej:
            again = None
            if len(self.violations) >= 4 or self.violations and time.time() - self.t0 > 400:
                self.notes.append("further rejections not repeated")
                break
            if rerun:
                t2 = rerun(name)
                r2, _, _ = tlc.validate([t2], active, spec=spec, **kw)
                if not r2:
                    self.notes.append("rejection of %s did not repeat" % name)
                    continue
                again = r2[0]
            self.report(name, pos, conds, by[name], (jobs or {}).get(name), again)

    def traces_of(self, jobs, active=None, convert=None, workers=8, drv="ptdrv.cpp", **kw):
        """jobs: {name: dict(script=..., cfg=..., env=..., ...)} run on the driver and validated."""
        exe = self.exe(drv)
        names = list(jobs)

        def conv(n, r):
            j = jobs[n]
            if convert:
                return convert(n, j, r)
            return self.to_trace(n, j, r)
        rs = run.run_many(exe, [self._kw(jobs[n]) for n in names], workers)
        traces = []
        for n, r in zip(names, rs):
            if r is not None:
                traces.append(conv(n, r))
        self.validate(traces, active, jobs=jobs,
                      rerun=lambda n: conv(n, run.run_one(exe, **self._kw(jobs[n]))), **kw)
        return dict(zip(names, rs))

    @staticmethod
    def _kw(j):
        return {k: v for k, v in j.items() if k not in ("cfg", "parts", "meta", "expect_status")}

    @staticmethod
    def to_trace(n, j, r):
        kw = {}
        if "parts" in j:
            kw["parts"] = j["parts"]
        t = trace.convert(r, n, j.get("cfg"), **kw)
        bad = None
        want = j.get("expect_status", 0)
        if r.status != want:
            bad = "process ended with status %d instead of %d: %s" % (
                r.status, want, r.stderr[-300:].decode(errors="replace"))
        elif r.error:
            bad = r.error
        elif r.final is None:
            bad = "trace file unreadable: %s" % r.tdagerr
        if bad:
            t["ev"] = t["ev"] + [dict(op="crash", what=bad.replace('"', "'").replace("\\", "/")[:200])]
        return t

    # ---- verdicts ---------------------------------------------------------
    def report(self, name, pos, conds, tr=None, job=None, again=None):
        for k in self.known:
            if k["trace"] == name and all(c in k["conditions"] for c in conds) and k.get("event", pos) == pos:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                self.notes.append("known finding: " + k["what"])
                return
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        ev = tr["ev"][pos - 1] if tr and 0 < pos <= len(tr["ev"]) else None
        job = {k: v for k, v in (job or {}).items() if isinstance(v, (list, dict, str, int, tuple))}
        with open(path, "w") as f:
            json.dump({"property": self.pid, "trace": name, "event_number": pos, "conditions": conds,
                       "event": ev, "job": job, "final": (tr or {}).get("fin") if pos > len((tr or {"ev": []})["ev"]) else None,
                       "repeat": again}, f, indent=1, default=repr)
        self.violations.append(path)
        if len(self.violations) <= 5:
            print("  %s, event %d: %s" % (name, pos, "; ".join(conds)))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": dict(self.cov, models=self.models, **self.parts),
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
             "violations": len(self.violations)}
        if self.notes:
            e["coverage"]["notes"] = self.notes[:20]
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)
        print("%s %s: %s (%d traces, %d states, %.1f s)" % (
            self.pid, self.tier, "VIOLATED" if self.violations else "held",
            self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 1 if self.violations else 0
