"""C29: queries about directed graphs.

GraphGen enumerates graphs, the repository's class is asked everything about each, and GraphRead says what
the answers have to be."""
from lib import py
from checks.io import sequences


def gen(ctx, name, nn, loops, most, sim=0, seed=0):
    cfg = "SPECIFICATION %s\nCONSTANTS NN=%d\n Loops=%s\n Most=%d\n Steps=%d\nINVARIANTS Sane%s\n" % (
        "SimSpec" if sim else "Spec", nn, "TRUE" if loops else "FALSE", most, 50, "" if sim else " Emit")
    kw = dict(args=["-simulate", "num=%d" % sim, "-depth", "52", "-seed", str(ctx.seed * 13 + seed)], workers=1) if sim else {}
    return sequences(ctx.model("GraphGen " + name, "GraphGen", cfg, **kw).out)


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    items = []

    def add(pref, q, most=10 ** 6):
        ctx.parts["graphs " + pref] = len(q)
        for i, (n, es) in enumerate(q if len(q) <= most else rng.sample(q, most)):
            es = list(es)
            rng.shuffle(es)
            given = rng.random() < .2
            pairs = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1)]
            items.append(dict(name="%s-%d" % (pref, i), nodes=list(range(1, n + 1)), edges=es, given=given, roots=rng.sample(range(1, n + 1), rng.randint(1, n)) if given else [],
                              style=rng.randrange(3), order=rng.randrange(2), other=rng.sample(pairs, min(len(pairs), rng.randint(0, 4))), ev=[]))
    add("small", gen(ctx, "all with up to three nodes", 3, True, 1))
    add("four", gen(ctx, "all with four nodes", 4, False, 1), 4200 if th else 1500)
    add("sparse", gen(ctx, "random sparse", 8, False, 10, sim=200 if th else 16))
    add("dense", gen(ctx, "random dense", 7, True, 30, sim=100 if th else 8, seed=1))

    def ask(its):
        out = py.run([dict(kind="graph", **{k: i[k] for k in ("nodes", "edges", "given", "roots", "style", "order", "other")}) for i in its])
        return [dict(i, error=r.get("error", "").replace('"', "'").replace("\\", "/"), r={k: v for k, v in r.items() if k != "error"} or {"n": 0}) for i, r in zip(its, out)]
    by = {i["name"]: i for i in items}
    ctx.validate(ask(items), spec="GraphRead", rerun=lambda n: ask([by[n]])[0], jobs={i["name"]: {k: i[k] for k in ("nodes", "edges", "roots")} for i in items})
    ctx.cov["samples"] += len(items)
