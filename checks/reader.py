"""C18, C19, C20: what the Python reader makes of a trace.

TraceGen enumerates well-formed traces (all small ones, simulated larger ones);
they are written as files, read by the repository's reader, and TraceRead says
what every answer has to be."""
import os

from lib import py, run as R, tdagw
from lib.tdag import Tdag
from checks.io import sequences

NAMES = [b"a", b"/in/put", b"b.txt", b"\xff\xfe", "ü€".encode(), b"a b,c", b"<stdin>", b"argv:1", b"x" * 200, b"/tmp/\\n'\"q"]
BIG = [0, 1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 53) + 1, (1 << 54) - 1]


def seq(q):
    return "<<" + ",".join("<<%s>>" % ",".join(map(str, x)) for x in q) + ">>"


def cfg(spec, sources, offs, outs, lab, marks, sinks, fns=0, events=0, steps=0):
    s = lambda q: "{" + ",".join(map(str, q)) + "}"
    return None, ("SPECIFICATION %s\nCONSTANTS Sources<-Sources0\n Offsets=%s\n OutOffs=%s\n MaxLab=%d\n MaxMarks=%d\n MaxSinks=%d\n MaxFns=%d\n MaxEvents=%d\n"
            " Steps=%d\nINVARIANTS WellFormed%s\n" % (spec, s(offs), s(outs), lab, marks, sinks, fns, events, steps, "" if spec == "SimSpec" else " Emit"))


def gen(ctx, name, sources, offs, outs, lab, marks, sinks, fns=0, events=0, sim=0, steps=0, k=0):
    mod = "TG%d" % k
    text = "---- MODULE %s ----\nEXTENDS TraceGen\nSources0 == %s\n====\n" % (mod, seq(sources))
    kw = {}
    if sim:
        kw = dict(args=["-simulate", "num=%d" % sim, "-depth", str(steps + 3), "-seed", str(ctx.seed * 31 + k)], workers=1)
    r = ctx.model("TraceGen " + name, mod, cfg("SimSpec" if sim else "Spec", sources, offs, outs, lab, marks, sinks, fns, events, steps)[1],
                  extra_modules={mod: text}, **kw)
    return sequences(r.out)


def item(name, sources, t, rng, big=None, queries=3, NAMES=NAMES):
    """the contents of a trace as TraceRead wants them, and the file"""
    lab, sinks, fns, events = t
    nums = [[v, v] for v in range(0, 400)]
    val = lambda v: v
    if big:
        perm = rng.sample(BIG, len(BIG))
        nums = [[i, v] for i, v in enumerate(perm)]
        val = lambda v: perm[v] if v >= 0 else v
    word = {1: lambda a, b, c: tdagw.source_label(a, val(b), c), 2: tdagw.union_label, 3: tdagw.range_label}
    fnn = [NAMES[i % len(NAMES)] for i in range(fns)]
    w = tdagw.Writer(sources=[(NAMES[n], fd, val(sz)) for n, fd, sz in sources], labels=[word[e[0]](e[1], e[2], e[3]) for e in lab],
                     sinks=[(val(o), l, i) for o, l, i in sinks], functions=fnn, events=[tuple(e) for e in events])
    n = len(lab)
    qs = [sorted(rng.sample(range(1, n + 1), rng.randint(1, min(n, 3)))) for _ in range(queries)] if n else []
    return dict(name=name, src=[list(s) for s in sources], lab=lab, sinks=sinks, fns=[NAMES.index(x) for x in fnn], events=events, queries=qs,
                cavities=not big, nums=nums, hex=w.bytes().hex(), names=[x.hex() for x in NAMES])


EMPTY = dict(sources=[], count=0, nodes=[], inputlabels=[], sinks=[], functions=[], events=[], outputs=[], inputs=[], forest=[], edges=[], same=False,
             mapping=[], cavities=[], printed=[], icf=[], icfbase=[], taints=[])


def judge(ctx, items):
    def ask(its):
        out = py.run([dict(kind="trace", want=[ctx.pid], **{k: i[k] for k in ("hex", "nums", "names", "queries", "cavities")}) for i in its])
        res = []
        for i, r in zip(its, out):
            t = {k: v for k, v in i.items() if k not in ("hex", "nums", "names")}
            t["error"] = r.get("error", "").replace('"', "'").replace("\\", "/")
            t["r"] = dict(EMPTY, **{k: v for k, v in r.items() if k != "error"})
            t["ev"] = []
            res.append(t)
        return res
    by = {i["name"]: i for i in items}
    step = 4000
    for at in range(0, len(items), step):
        part = items[at:at + step]
        ctx.validate(ask(part), spec="TraceRead", rerun=lambda n: ask([by[n]])[0],
                     jobs={i["name"]: {k: i[k] for k in ("src", "lab", "sinks", "queries")} for i in part})
    ctx.cov["samples"] += len(items)


# the same file opened again with another descriptor, size or name
SETS = [[(0, 3, 2), (1, 4, 3)], [(0, 3, 3), (0, 4, 1)], [(0, 3, -1), (0, 3, -1)], [(1, 3, -1), (2, 3, 0)], [(0, 3, 1), (0, 3, 4)]]


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    items = []
    for k, s in enumerate(SETS):
        if not th and k == 3 and ctx.pid != "C18":
            continue
        q = gen(ctx, "all traces of 3 labels over %s" % (s,), s, [0, 1, 2] if th else [0, 2], [0, 1], 3, 1, 1, k=k)
        cap = 1500 if not th else 20000
        ctx.parts["traces of 3 labels, sources %d" % k] = len(q)
        if len(q) > cap:
            q = rng.sample(q, cap)
        items += [item("s%d-%d" % (k, i), s, t, rng) for i, t in enumerate(q)]
    if th:
        q = gen(ctx, "all traces of 4 labels", SETS[1], [0, 1], [0], 4, 1, 1, k=20)
        items += [item("four-%d" % i, SETS[1], t, rng) for i, t in enumerate(rng.sample(q, min(len(q), 20000)))]
    wide = [(i % len(NAMES), 3 + i % 4, (-1, 0, 5, 9, 30)[i % 5]) for i in range(14)]
    for k, (s, lab) in enumerate([(wide, 40), (SETS[1], 25), (wide[:5], 60)]):
        q = gen(ctx, "simulated traces %d" % k, s, range(0, 24), range(0, 12), lab, 3, 8, 6, 9, sim=60 if not th else 600, steps=lab * 3, k=30 + k)
        items += [item("sim%d-%d" % (k, i), s, t, rng, queries=4) for i, t in enumerate(q)]
    s = [(i % len(NAMES), i - 1, (-1, 0, 5, 9)[i % 4]) for i in range(6)]
    q = gen(ctx, "simulated traces with wide numbers", s, range(0, len(BIG)), range(0, len(BIG)), 25, 2, 6, 3, 5, sim=60 if not th else 600, steps=70, k=40)
    items += [item("big-%d" % i, s, t, rng, big=True) for i, t in enumerate(q)]
    items += [item("empty", [], [[], [], 0, []], rng), item("nolabels", wide, [[], [], 3, [[0, 1], [1, 0]]], rng)]
    # a long range, and ranges of ranges
    lab = [[1, 0, i, 0] for i in range(150)] + [[3, 1, 150, 0], [3, 100, 151, 0], [2, 152, 3, 1], [3, 1, 2, 0]]
    lab = [e[:3] + [1] if i < 152 else e for i, e in enumerate(lab)]
    items.append(item("longrange", [(0, 3, 300)], [lab, [[0, 151, 0], [1, 153, 0], [7, 154, 0]], 0, []], rng, queries=8))
    lab = [[1, 0, i, 0] for i in range(150)] + [[3, 11, 150, 0], [3, 100, 151, 0], [2, 152, 3, 0], [3, 5, 9, 0]]
    items.append(item("longrange2", [(0, 3, 300)], [lab, [[0, 151, 0], [1, 154, 0], [7, 154, 0]], 0, []], rng, queries=8))
    # many sources (the index takes a byte) and many functions
    many = [(i % len(NAMES), i, i % 60) for i in range(256)]
    items.append(item("manysources", many, [[[1, i, i % 50, i % 2] for i in range(256)] + [[3, 1, 255, 0]], [[i, i + 1, 255 - i] for i in range(256)], 300,
                                            [[i % 2, i] for i in range(300)]], rng))
    # labels in every position of the words of the index
    lab = [[1, 0, i % 40, 0] if i in (0, 62, 63, 64, 126, 127, 128, 190, 191, 192, 193, 255, 256) or i % 7 == 0 else [2, i, i - 1, 0] if i > 1 and i % 2 else [1, 0, i % 40, 0]
           for i in range(300)]
    items.append(item("index", [(0, 3, 40)], [lab, [[0, 300, 0]], 0, []], rng))
    lab = [[1, 0, 0, 0], [1, 0, 1, 0]] + [[2, i, i - 1, 0] for i in range(2, 200)] + [[1, 0, 2, 0]]
    items.append(item("index2", [(0, 3, 40)], [lab, [[0, 200, 0]], 0, []], rng))
    # long names
    long = [b"n" * k for k in (1, 254, 255, 256, 257, 4095, 32767, 32768, 40000, 65535)]
    items.append(item("longnames", [(i, 3 + i, i) for i in range(10)], [[[1, i, i, 0] for i in range(10)], [[i, i + 1, 9 - i] for i in range(10)], 10, [[0, i] for i in range(10)]],
                      rng, NAMES=long))
    judge(ctx, items)
    judge(ctx, recorded(ctx, rng))


def recorded(ctx, rng):
    """traces recorded from the real run-time library"""
    from checks import io as IO
    exe = ctx.exe()
    th = ctx.thorough
    scripts = []
    for k, q in enumerate(IO.simulate(ctx, "for the reader", IO.DESC, 25, 16 if not th else 80, seed=5)):
        mid = ["lb 1 4 1", "lb 1 7 2", "un 1 2 3", "un 3 1 4", "fent 61", "br %d" % (1 + k % 4), "fent 6262", "fex 1"]
        scripts.append(IO.HEAD + IO.PRE + mid + IO.flat(q))

    def keep(tp, r):
        try:
            tdagw.compact(tp, tp + ".small")
            t = Tdag(tp)
            d = dict(sources=t.sources(), labels=[Tdag.decode(w) for w in t.labels()[1:]], sinks=t.sinks(), functions=t.functions(), events=t.events())
            t.close()
            return open(tp + ".small", "rb").read(), d
        except Exception:
            return None
    rs = R.run_many(exe, [dict(script=s, post=keep) for s in scripts], 8)
    items = []
    for k, r in enumerate(rs):
        if not r or not r.keep:
            continue
        raw, d = r.keep
        names = sorted({s[0] for s in d["sources"]} | set(d["functions"]))
        vals = {0}
        M = (1 << 64) - 1
        lab = []
        for kd, a, b, cf in d["labels"]:
            if kd == "s":
                vals.add(b)
        vals |= {o for o, _, _ in d["sinks"]} | {s for _, _, s in d["sources"] if s != M}
        small = all(0 <= v < 400 for v in vals)
        nums = [[i, i] for i in range(400)] if small else [[i, v] for i, v in enumerate(sorted(vals))]
        num = {v: i for i, v in nums}
        for kd, a, b, cf in d["labels"]:
            lab.append([1, a, num[b], cf] if kd == "s" else [{"u": 2, "r": 3}[kd], a, b, cf])
        n = len(lab)
        items.append(dict(name="run-%d" % k, src=[[names.index(a), fd, -1 if s == M else num[s]] for a, fd, s in d["sources"]], lab=lab,
                          sinks=[[num[o], l, i] for o, l, i in d["sinks"]], fns=[names.index(x) for x in d["functions"]],
                          events=[list(e) for e in d["events"]], queries=[[rng.randint(1, n)] for _ in range(3)] if n else [], cavities=small, nums=nums,
                          hex=raw.hex(), names=[x.hex() for x in names]))
    ctx.parts["recorded traces read"] = len(items)
    return items
