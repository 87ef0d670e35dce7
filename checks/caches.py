"""C24: the bounded cache, the ordered set and memoised functions.

CacheGen and SetGen check the contract on the model and enumerate histories (every
transition, all short ones, simulated long ones); they are replayed on the real
classes and every answer is validated against Cache."""
from lib import py
from checks.io import sequences


def cfg(spec, consts, invs, view=False):
    return "SPECIFICATION %s\nCONSTANTS %s\nINVARIANTS %s\n%s" % (spec, consts.replace(" ", "\n "), invs, "VIEW View\nACTION_CONSTRAINT VOnce\n" if view else "")


LINV = "Bounded LastStored ByUse EvictsOldest Once"


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    items = []
    for mx in (-1, 0, 1, 2, 3):
        # one history per transition between contents
        c = "KeySet={1,2,3,4} Values={1,2} Limit=%d MaxLen=%d Emitting=TRUE" % (mx % 100, 4 if not th else 6)
        q = sequences(ctx.model("cache of %d, every transition" % mx, "CacheGen", cfg("Spec", c, LINV, True)).out)
        ctx.parts["transitions, cache of %d" % mx] = len(q)
        cap = 1200 if not th else 15000
        for h in (rng.sample(q, cap) if len(q) > cap else q):
            items.append(dict(kind="lru", max=mx, ops=h))
        c = "KeySet={1,2,3,4,5} Values={1,2,3} Limit=%d MaxLen=50 Emitting=TRUE" % (mx % 100)
        q = sequences(ctx.model("cache of %d, simulation" % mx, "CacheGen", cfg("SimSpec", c, LINV),
                                args=["-simulate", "num=%d" % (30 if not th else 300), "-depth", "53", "-seed", str(ctx.seed * 5 + mx)], workers=1).out)
        items += [dict(kind="lru", max=mx, ops=h) for h in q]
    c = "Items={1,2,3} Others=2 MaxLen=%d Emitting=TRUE" % (4 if not th else 5)
    q = sequences(ctx.model("ordered set, every transition", "SetGen", cfg("Spec", c, "SameMembers", True)).out)
    ctx.parts["transitions, ordered set"] = len(q)
    cap = 2500 if not th else 20000
    items += [dict(kind="set", max=0, ops=h) for h in (rng.sample(q, cap) if len(q) > cap else q)]
    c = "Items={1,2,3,4,5} Others=4 MaxLen=40 Emitting=TRUE"
    q = sequences(ctx.model("ordered set, simulation", "SetGen", cfg("SimSpec", c, "SameMembers"),
                            args=["-simulate", "num=%d" % (60 if not th else 600), "-depth", "43", "-seed", str(ctx.seed * 5)], workers=1).out)
    items += [dict(kind="set", max=0, ops=h) for h in q]
    # memoised functions: every plan of up to four evaluations (2 stands for None, 1 for an exception outside Exception)
    plans = [[]]
    alls = []
    for _ in range(4):
        plans = [p + [o] for p in plans for o in (["ret", 3], ["ret", 0], ["ret", 2], ["raise", 0], ["raise", 1])]
        alls += plans
    items += [dict(kind="memo", max=0, ops=p) for p in alls]
    for k, i in enumerate(items):
        i["name"] = "%s%d" % (i["kind"], k)
        i["i"] = k

    def ask(its):
        out = py.run([dict(kind="cache", what=i["kind"], max=i["max"], ops=i["ops"], i=i["i"]) for i in its])
        return [dict(name=i["name"], kind=i["kind"], max=i["max"],
                     ev=r["ev"] if "ev" in r else [dict(op=i["ops"][0], r=["failed", r["error"].replace('"', "'").replace("\\", "/")], now=[])]) for i, r in zip(its, out)]
    by = {i["name"]: i for i in items}
    ctx.validate(ask(items), spec="CacheTrace", rerun=lambda n: ask([by[n]])[0], jobs=by)
