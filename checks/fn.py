"""C12, C13, C17: callbacks of instrumented code.

FnGen enumerates callback sequences around initialisation (breadth first over a
small alphabet, simulation over wide numbers and odd names); PT says what the
trace has to contain, CFRead what the Python reader has to make of it."""
import os

from lib import py, tdagw
from checks.io import sequences

SMALLNAMES = ["61", "6162"]
NAMES = ["-", "61", "6162", "616263", "6100", "00", "ff80fe", "5f5a4e3173334261724576", "62" * 300, "63" * 255, "63" * 256, "20", "e282ac"]
FIDS = ["0", "1", "127", "128", "16383", "16384", "2097151", "2097152", "268435455", "268435456", "4294967295", "2147483648"]
LABS = ["0", "1", "127", "128", "255", "16383", "16384", "2097152", "268435456", "2147483647", "2147483648", "4294967295"]


def cfg(spec, ops, n, names, fids, labs, mayinit):
    s = lambda q: "{" + ",".join('"%s"' % x for x in q) + "}"
    return ("SPECIFICATION %s\nCONSTANTS Ops=%s\n MaxLen=%d\n Names=%s\n Fids=%s\n Labs=%s\n MayInit=%s\nINVARIANTS Sane%s\n" % (
        spec, s(ops), n, s(names), s(fids), s(labs), "TRUE" if mayinit else "FALSE", "" if spec == "SimSpec" else " Emit"))


def gen(ctx, name, ops, n, names=SMALLNAMES, fids=("1", "2"), labs=("0", "9"), mayinit=False, sim=0):
    kw = {}
    if sim:
        kw = dict(args=["-simulate", "num=%d" % sim, "-depth", str(n + 3), "-seed", str(ctx.seed)], workers=1)
    r = ctx.model("FnGen " + name, "FnGen", cfg("SimSpec" if sim else "Spec", ops, n, names, fids, labs, mayinit), **kw)
    return sequences(r.out)


LIVE = ["buf 0 24", "mkfile {D}/p 41424344454647", "open open 1 {D}/p r 0", "read read 1 0 0 7", "lb 0 2 1"]


def run(ctx):
    globals()["run_" + ctx.pid](ctx)


def run_C12(ctx):
    th = ctx.thorough
    jobs = {}
    q = gen(ctx, "named entries, all sequences", ["fent", "fex"], 6 if th else 5, names=["61", "6162"])
    ctx.parts["sequences"] = len(q)
    cap = 900 if not th else 12000
    if len(q) > cap:
        q = ctx.rng.sample(q, cap)
    # one run per first-entry order matters: names are renamed per sequence, so every sequence meets new functions
    for i in range(0, len(q), 60):
        s = ["init"]
        base = 0
        for k, h in enumerate(q[i:i + 60]):
            names = {}
            for line in h[1:]:
                t = line.split()
                if t[0] == "fent":
                    nm = t[1] + "%04x" % k
                    names.setdefault(nm, base + len(names))
                    s.append(" ".join([t[0], nm] + t[2:]))
                else:
                    s.append("fex %d" % (base + int(t[1])))
            base += len(names)
        jobs["seq%d" % i] = dict(script=s)
    q = gen(ctx, "named entries, simulation", ["fent", "fex"], 120, names=NAMES, sim=40 if not th else 400)
    for k, h in enumerate(q):
        jobs["sim%d" % k] = dict(script=h)
    many = ["init"]
    order = []
    for i in range(1500 if not th else 6000):
        if order and ctx.rng.random() < .5:
            n = ctx.rng.choice(order)
        else:
            n = "%06x" % ctx.rng.randrange(1 << 24)
            order.append(n)
        many.append("fent %s%s" % (n, ctx.rng.choice(["", " keep"])))
        if ctx.rng.random() < .3:
            many.append("fex %d" % ctx.rng.randrange(len(set(order))))
    jobs["many"] = dict(script=many)
    jobs["sizes"] = dict(script=["init"] + [x for n in (1, 2, 3, 255, 256, 257, 4095, 65534, 65535) for x in ("fent " + "61" * n, "fent " + "61" * (n - 1) if n > 1 else "fent -",
                         "fent " + "61" * n)])
    jobs["mix"] = dict(script=["init"] + LIVE + ["fent 6d61696e", "open open 2 {D}/p r 0", "fent 66", "open open 3 {D}/p r 0", "fent 6d61696e", "fex 1", "fent 67", "fex 2", "fex 0"])
    for j in jobs.values():
        j["want"] = ("labels", "functions", "events")
        j["parts"] = ("functions", "events")
    ctx.traces_of(jobs)


def readback(ctx, items, rs):
    """items: [(name, raw events, tdag bytes)] -> the reader's events validated against CFRead."""
    def ask(its):
        out = py.run([dict(kind="cflog", hex=h.hex()) for _, _, h in its])
        res = []
        for (n, raw, _), r in zip(its, out):
            t = dict(name=n, ev=[], raw=[[k, _l(f), _l(l or 0)] for k, f, l in raw], error=r.get("error", ""), got=[], again=[], named=[])
            t.update({k: v for k, v in r.items() if k != "error"})
            t["error"] = t["error"].replace('"', "'").replace("\\", "/")
            res.append(t)
        return res
    by = {n: (n, raw, h) for n, raw, h in items}
    ctx.validate(ask(items), spec="CFRead", rerun=lambda n: ask([by[n]])[0])
    ctx.cov["samples"] += sum(len(x[1]) for x in items)


def _l(v):
    return [(v >> (16 * i)) & 0xffff for i in range(4)]


def raw_of(script):
    on, out = False, []
    for x in script:
        t = x.split()
        if t[0] == "init":
            on = True
        elif on and t[0] == "ent":
            out.append((0, int(t[1]), None))
        elif on and t[0] == "lev":
            out.append((1, int(t[1]), None))
        elif on and t[0] == "tcf" and int(t[1][1:]) != 0:
            out.append((2, int(t[2]), int(t[1][1:])))
    return out


def run_C13(ctx):
    th = ctx.thorough
    q = gen(ctx, "control-flow callbacks, all sequences", ["ent", "lev", "tcf"], 7 if not th else 8)
    ctx.parts["sequences"] = len(q)
    cap = 2500 if not th else 20000
    small = ctx.rng.sample(q, cap) if len(q) > cap else q
    sims = gen(ctx, "control-flow callbacks, simulation", ["ent", "lev", "tcf"], 110, fids=FIDS, labs=LABS, sim=60 if not th else 500)
    jobs = {}
    for i in range(0, len(small), 80):
        s = ["init"]
        for h in small[i:i + 80]:
            s += [x for x in h if x != "init"]
        jobs["seq%d" % i] = dict(script=s)
    for k, h in enumerate(sims):
        jobs["sim%d" % k] = dict(script=h)
    # every number of bits, for both numbers
    s = ["init", "ent 7"]
    for b in range(32):
        for v in ((1 << b) - 1, 1 << b, (1 << b) | 1, ((1 << b) * 3) & 0xffffffff):
            s += ["ent %d" % v, "tcf #%d %d 1" % ((v * 5) & 0xffffffff or 1, v), "tcf #%d %d 0" % (v or 1, v), "lev %d" % v]
    jobs["widths"] = dict(script=s)
    deep = ["init"] + ["ent %d" % (i % 5) for i in range(400)] + ["tcf #3 2 1"] + ["lev 1"] * 20
    jobs["deep"] = dict(script=deep)
    items = [("read-" + "-".join([str(k), str(i)]), raw_of(h), tdagw.Writer(cflog=raw_of(h)).bytes()) for k, grp in (("seq", small), ("sim", sims))
             for i, h in enumerate(grp)]
    for j in jobs.values():
        j["want"] = ("labels", "cflog")
        j["parts"] = ("cflog",)

    def keep(tp, r):
        to = tp + ".small"
        try:
            tdagw.compact(tp, to)
            return open(to, "rb").read()
        except Exception:
            return None
    for n in jobs:
        if not n.startswith("seq"):
            jobs[n]["post"] = keep
    rs = ctx.traces_of(jobs)
    for n, r in rs.items():
        if r and r.keep:
            items.append(("run-" + n, raw_of(jobs[n]["script"]), r.keep))
    readback(ctx, items, rs)


def run_C17(ctx):
    th = ctx.thorough
    ops = ["init", "ent", "lev", "tcf", "fent", "fex", "br"]
    q = gen(ctx, "callbacks around initialisation, all sequences", ops, 4, names=["61"], fids=("5",), labs=("0", "3"), mayinit=True)
    ctx.parts["sequences"] = len(q)
    early = [h for h in q if h[0] != "init"]
    cap = 170 if not th else 1200
    pick = ctx.rng.sample(early, min(cap, len(early)))
    pick.sort(key=lambda h: 0 if "init" in h else 1)
    jobs = {}
    tail = LIVE + ["fent 7a", "ent 9", "tcf #1 9 1", "br 1", "tcf 1 9 0xfffffffffffffffe", "tcf 0 9 5", "lev 9", "fex 0"]
    for k, h in enumerate(pick):
        lines = [x if not x.startswith("br") else "br 0" for x in h]
        if "init" not in lines:
            lines.append("init")
        # every branch before initialisation uses a label constant too
        i = lines.index("init")
        pre = lines[:i] + ["li 5 %d" % (k % 3), "br 5", "brr 5", "tcf 5 6 %d" % (k * 77777777777 % (1 << 64)), "un 5 5 6"][: 2 + k % 4]
        jobs["early%d" % k] = dict(script=pre + lines[i:] + tail)
    sims = gen(ctx, "callbacks around initialisation, simulation", ops, 60, names=NAMES[:8], fids=FIDS, labs=LABS, mayinit=True, sim=40 if not th else 300)
    for k, h in enumerate(sims):
        if "init" not in h:
            h = h + ["init"]
        jobs["sim%d" % k] = dict(script=h + LIVE + ["tcf 1 4 2", "br 1"])
    conds = ["init"] + LIVE + ["ent 3"]
    for v in [0, 1, 2, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1, 0x8000000080000000]:
        conds += ["tcf 1 3 %d" % v, "tcf 0 3 %d" % v, "tcf #%d 3 %d" % (v & 0x7fffffff, v)]
    jobs["conditions"] = dict(script=conds)
    for j in jobs.values():
        j["want"] = ("labels", "cflog", "functions", "events", "sources")
        j["parts"] = ("cflog", "functions", "events", "cf", "sources")
    ctx.traces_of(jobs)
