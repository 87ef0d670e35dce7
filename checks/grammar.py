"""C22, C23: the parser and the grammar editor.

GrammarGen enumerates grammars and histories of edits (and model-checks Earley's
chart and the steps of simplification against the language); the repository's
parser and grammars answer, GrammarRead decides."""
import itertools

from lib import py
from checks.io import sequences

ENC = [{"a": 97, "b": 98}, {"a": 0xc3, "b": 0xa9}, {"a": 0, "b": 255}, {"a": 60, "b": 62}]
KEYS = ("rules", "words", "enc", "cap", "fixed", "ops", "load")


def gen(ctx, name, nts, ts, maxlen, maxrules, n=3, spec="Spec", chart=False, simp=False, steps=0, sim=0, seed=0):
    q = lambda v: ",".join('"%s"' % x for x in v)
    inv = {"Spec": "Emit ChartIsLanguage TerminalIsLanguage SimplifyKeeps", "SimSpec": "", "EditSpec": "EditSane"}[spec]
    cfg = "SPECIFICATION %s\nCONSTANTS NTs={%s}\n Ts={%s}\n MaxLen=%d\n MaxRules=%d\n N=%d\n CheckChart=%s\n Simplify=%s\n Steps=%d\n%s\n" % (
        spec, q(nts), q(ts), maxlen, maxrules, n, str(chart).upper(), str(simp).upper(), steps, "INVARIANTS " + inv if inv else "")
    kw = dict(args=["-simulate", "num=%d" % sim, "-depth", str(steps + 3), "-seed", str(ctx.seed * 11 + seed)], workers=1) if sim else {}
    return sequences(ctx.model("GrammarGen " + name, "GrammarGen", cfg, **kw).out)


def words(ts, n):
    return [list(w) for k in range(n + 1) for w in itertools.product(ts, repeat=k)]


def ask(items):
    out = py.run([dict(kind="grammar", limit=30, **{k: i[k] for k in KEYS}) for i in items])
    res = []
    for i, r in zip(items, out):
        t = dict(name=i["name"], kind=i["kind"], prop=i["prop"], rules=i["rules"], n=i["n"], cap=i["cap"], nts=i["nts"], words=[], edits=[], ev=[])
        t["error"] = r.get("error", "").replace('"', "'").replace("\\", "/")
        for k in ("words", "edits"):
            if k in r:
                t[k] = r[k]
        res.append(t)
    return res


S, A, B = "<S>", "<A>", "<B>"


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    items = []

    def add(pref, kind, rules, ts, n, cap=12, ops=(), nts=(S, A)):
        items.append(dict(name="%s-%d" % (pref, len(items)), kind=kind, prop=ctx.pid, rules=rules, words=words(ts, n), n=n, cap=cap, ops=list(ops),
                          enc=ENC[len(items) % 4], fixed=len(items) % 2 == 0, load=len(items) % 8 in (0, 3), nts=list(nts)))
    if ctx.pid == "C22":
        for name, nts, ts, ml, mr, n, take in (
                ("two non-terminals, two letters", (S, A), "ab", 2, 3, 3, 1200), ("two non-terminals, one letter", (S, A), "a", 2, 4, 4, 1200),
                ("one non-terminal", (S,), "ab", 3, 2, 4, 10 ** 6), ("three non-terminals", (S, A, B), "a", 2, 4, 3, 800)):
            if name == "three non-terminals" and not th:
                mr = 3
            q = gen(ctx, name, nts, ts, ml, mr, n=3, chart=True)
            ctx.parts[name] = len(q)
            for (r,) in q if th else rng.sample(q, min(take, len(q))):
                add(name.replace(" ", "_"), "parse", r, ts, n, nts=nts)
        for k, (nts, ts, ml, mr, n) in enumerate((((S, A, B), "ab", 3, 3, 4), ((S, A), "ab", 4, 3, 4), ((S, A, B, "<C>"), "ab", 3, 2, 4))):
            q = gen(ctx, "random grammars %d" % k, nts, ts, ml, mr, spec="SimSpec", steps=200, sim=60 if th else 6, seed=k)
            ctx.parts["random grammars %d" % k] = len(q)
            for (r,) in q if th else rng.sample(q, min(400, len(q))):
                add("random%d" % k, "parse", r, ts, n, nts=nts)
    else:
        q = gen(ctx, "simplification of two non-terminals", (S, A), "ab", 2, 3, simp=True)
        q += gen(ctx, "simplification of three non-terminals", (S, A, B), "a", 2, 4 if th else 3, simp=True)
        ctx.parts["grammars simplified"] = len(q)
        simp = ["simp", "", "", []]
        for (r,) in q if th else rng.sample(q, min(1800, len(q))):
            add("simplify", "edit", r, "ab" if len(r) == 2 else "a", 3, ops=[simp, simp], nts=(S, A, B))
        for k, (nts, ts, ml, mr, steps, sim) in enumerate((((S, A, B), "ab", 3, 3, 5, 300), ((S, A, B, "<C>", "<D>"), "ab", 3, 2, 4, 300), ((S, A, B), "a", 2, 2, 9, 300))):
            q = gen(ctx, "edits %d" % k, nts, ts, ml, mr, spec="EditSpec", steps=steps, sim=sim * (10 if th else 1), seed=k + 5)
            # the last step prints all its alternatives
            q = rng.sample(q, min(len(q), 6000 if th else 700))
            ctx.parts["histories of edits %d" % k] = len(q)
            for e in q:
                ops = list(e[1:])
                if len(items) % 2:
                    ops = [o for op in ops for o in (op, ["query", "", "", []])]
                if len(items) % 3:
                    ops.append(simp)
                add("edits%d" % k, "edit", e[0], ts, 3, ops=ops, nts=nts)
    by = {i["name"]: i for i in items}
    ctx.validate(ask(items), spec="GrammarRead", rerun=lambda n: ask([by[n]])[0],
                 jobs={i["name"]: {k: i[k] for k in KEYS} for i in items})
    ctx.cov["samples"] += sum(len(i["words"]) for i in items)
