"""C21: collections of input bytes.

TaintGen enumerates collections and contents; the repository's classes are asked
every question, and TaintRead says what the answers have to be."""
from lib import py
from checks.io import sequences

SRCS = [[[3, "a"], [4, "b"], [5, "c"]], [[3, "a"], [3, "b"], [4, "a"]], [[4, "x"], [3, "x"], [3, "w"]], [[-1, "argv:1"], [0, "<stdin>"], [-1, "argv:0"]]]
SLICES = [[f, t] for f in (99, -9, -2, -1, 0, 1, 2, 3, 9) for t in (99, -9, -1, 0, 1, 2, 4, 9)]


def gen(ctx, name, nsrc, noff, contents, pairs, sim=0, seed=0):
    cfg = "SPECIFICATION %s\nCONSTANTS NSrc=%d\n NOff=%d\n Contents={%s}\n Pairs=%s\n Steps=%d\nINVARIANTS Sane%s\n" % (
        "SimSpec" if sim else "Spec", nsrc, noff, ",".join(map(str, contents)), "TRUE" if pairs else "FALSE", 50 if sim else 0, "" if sim else " Emit")
    kw = dict(args=["-simulate", "num=%d" % sim, "-depth", "52", "-seed", str(ctx.seed * 7 + seed)], workers=1) if sim else {}
    return sequences(ctx.model("TaintGen " + name, "TaintGen", cfg, **kw).out)


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    items = []

    def add(pref, q, alpha, plen, npat, slices=8):
        allp = [[]]
        full = []
        for _ in range(plen):
            allp = [p + [c] for p in allp for c in alpha]
            full += allp
        for i, (a, b, c) in enumerate(q):
            srcs = SRCS[i % len(SRCS)][:len(c)]
            a, b = [list(x) for x in a], [list(x) for x in b]
            # in any order, some of them twice
            given = a + rng.sample(a, rng.randint(0, len(a)))
            rng.shuffle(given)
            pats = full if npat >= len(full) else rng.sample(full, npat)
            items.append(dict(name="%s-%d" % (pref, i), srcs=srcs, content=c, a=given, b=b, pats=pats, slices=rng.sample(SLICES, slices), ev=[]))
    q = gen(ctx, "sets over two sources, all contents", 2, 3, (97, 98), False)
    ctx.parts["sets and contents"] = len(q)
    add("all", q if th else rng.sample(q, 2500), (97, 98), 3, 14)
    q = gen(ctx, "pairs of sets over two sources", 2, 3, (97,), True)
    ctx.parts["pairs of sets"] = len(q)
    add("pair", q if th else rng.sample(q, 1500), (97,), 2, 2)
    q = gen(ctx, "random sets over three sources", 3, 24, (97, 98, 0, 255), False, sim=8 if not th else 80)
    add("sim", q, (97, 98, 0, 255), 3, 20, 20)
    q = gen(ctx, "one source", 1, 10, (97, 98), False, sim=4 if not th else 40, seed=1)
    add("one", q, (97, 98), 3, 14, len(SLICES))
    q = gen(ctx, "runs of one byte", 2, 9, (97,), False, sim=3, seed=2)
    add("runs", q, (97,), 4, 4, len(SLICES))

    def ask(its):
        out = py.run([dict(kind="taints", **{k: i[k] for k in ("srcs", "content", "a", "b", "pats", "slices")}) for i in its])
        res = []
        for i, r in zip(its, out):
            t = dict(i, error=r.get("error", "").replace('"', "'").replace("\\", "/"))
            t["r"] = {k: v for k, v in r.items() if k != "error"}
            t["r"].setdefault("len", 0)
            t["srcs"] = []
            res.append(t)
        return res
    by = {i["name"]: i for i in items}
    ctx.validate(ask(items), spec="TaintRead", rerun=lambda n: ask([by[n]])[0],
                 jobs={i["name"]: {k: i[k] for k in ("srcs", "content", "a", "b")} for i in items})
    ctx.cov["samples"] += len(items)
