"""C27, C28: executions as the analyses see them.

ExecGen enumerates programs (calls, blocks, reads, returns); the repository's classes are asked about the
trace of every program, and ExecRead says what the answers have to be."""
from lib import py
from checks.io import sequences


def gen(ctx, name, fns, blks, nin, chunk, modes, depth, n, sim=0, seed=0):
    st = lambda x: "{" + ",".join(('"%s"' % i if isinstance(i, str) else str(i)) for i in x) + "}"
    cfg = "SPECIFICATION %s\nCONSTANTS Fns=%s\n Blks=%s\n NIn=%d\n Chunk=%s\n Modes=%s\n MaxDepth=%d\n MaxLen=%d\nINVARIANTS Sane%s\n" % (
        "SimSpec" if sim else "Spec", st(fns), st(blks), nin, st(chunk), st(modes), depth, n, "" if sim else " Emit")
    kw = dict(args=["-simulate", "num=%d" % sim, "-depth", str(n + 3), "-seed", str(ctx.seed * 11 + seed)], workers=1) if sim else {}
    return sequences(ctx.model("ExecGen " + name, "ExecGen", cfg, **kw).out)


def run(ctx):
    th, rng, nav = ctx.thorough, ctx.rng, ctx.pid == "C27"
    items = []

    def add(pref, q, n, most):
        # a trace that is cut off before the first block of a function has no tree
        q = list({str(x): x for x in q if nav or x[-1][0] != "e"}.values())
        ctx.parts["programs " + pref] = len(q)
        for i, ops in enumerate(q if len(q) <= most else rng.sample(q, most)):
            alpha = (b"abcdefgh", b"aaaaaaaa", b"a\x00\xff\n\"b\\\x80", b"abababab")[i % 4]
            items.append(dict(name="%s-%d" % (pref, i), ops=ops, inp=[alpha[k % 8] for k in range(n)], uids=rng.choice([[0, 1], [0, 3], [5, 2], [1000, 1]]), ev=[]))
    more = ["noise", "other"] if nav else []
    cap = (60000 if nav else 12000) if th else 1500
    add("calls", gen(ctx, "calls and blocks", [1, 2], [0, 1], 2, [1], ["next"] + more[:1], 3, 6 if th else 5), 2, cap)
    add("reads", gen(ctx, "reads anywhere", [1], [0, 1], 3, [1, 2, 3], ["any"] + more[1:], 2, 5 if th else 4), 3, cap)
    add("blocks", gen(ctx, "blocks reading anywhere", [1], [1], 3, [1, 2], ["any"], 1, 7 if th else 6), 3, cap)
    sims = [("parsers", ["next"], 8), ("peeking", ["next", "peek"], 8), ("seeking", ["next", "peek", "any"], 6)]
    for j, (nm, modes, nin) in enumerate(sims):
        for n in (12, 30):
            add("%s%d" % (nm, n), gen(ctx, "random %s of %d operations" % (nm, n), [1, 2, 3], [0, 1, 2], nin, [1, 2, 3], modes + more, 4, n,
                                      sim=2000 if th else 250, seed=j * 2 + (n > 12)), nin, cap)

    def ask(its):
        out = py.run([dict(kind="events" if nav else "extract", **{k: i[k] for k in ("ops", "inp", "uids")}) for i in its])
        return [dict(i, error=r.get("error", "").replace('"', "'").replace("\\", "/"), r={k: v for k, v in r.items() if k != "error"} or {"n": 0}) for i, r in zip(its, out)]
    by = {i["name"]: i for i in items}
    for k in range(0, len(items), 10000):
        ctx.validate(ask(items[k:k + 10000]), spec="ExecRead", rerun=lambda n: ask([by[n]])[0], jobs={i["name"]: {k: i[k] for k in ("ops", "inp")} for i in items})
    ctx.cov["samples"] += len(items)
