"""C01, C02, C03: the label table.

1. TLC explores the design model LabelAlg exhaustively and its invariants hold.
2. Every reachable table of that state graph is rebuilt in the real code and every
   combination possible there is performed; the recorded runs are validated
   against the specification (PT).
3. Longer histories: behaviours TLC simulates from the same model with larger
   constants, and seeded ones with hundreds of labels, several sources, re-read
   bytes, deep chains and wide unions (beyond every internal constant)."""
import json
import re

from lib import run as runner


FILE = "".join("%02x" % (33 + i % 90) for i in range(200))


def model_cfg(maxl, window, marks, emit="no", emitlen=0, props=True):
    return ("SPECIFICATION Spec\nCONSTANTS Blocks <- Bl\n MaxLabels=%d\n Window=%d\n MaxMarks=%d\n"
            " Emit=\"%s\"\n EmitLen=%d\n%sVIEW View\nACTION_CONSTRAINT EmitTransition\n" %
            (maxl, window, marks, emit, emitlen,
             "INVARIANTS TypeOK WellFormed MarksExact UnionExact\nPROPERTY Stable\n" if props
             else "INVARIANT WellFormed\n")).replace("Spec\n", "Spec\n" if props else "SimSpec\n", 1)


def model_mod(blocks):
    return {"LA": "---- MODULE LA ----\nEXTENDS LabelAlg\nBl == <<%s>>\n====\n" %
            ",".join("<<%d,%d>>" % b for b in blocks)}


def histories(out):
    hs = []
    for m in re.finditer(r'^"@H (.*)"$', out, re.M):
        hs.append(json.loads(m.group(1).replace('\\"', '"')))
    hs.sort(key=json.dumps)
    return hs


HEAD = ["init", "buf 0 64", "mkfile {D}/a " + FILE, "mkfile {D}/b " + FILE,
        "open open 1 {D}/a r 0", "open open 2 {D}/b r 0"]


def epoch(h, pairs, marks=True, handle=1, base=0, rng=None):
    """Script lines rebuilding history h; then every pair combined (if pairs)."""
    out, n = [], 0
    for op, a, b, r in h:
        if op == "src":
            out.append("read pread %d 0 0 %d %d" % (handle, a, base + b))
            for k in range(a):
                out.append("lb 0 %d %d" % (k, n + k + 1))
            n += a
        elif op == "un":
            out.append("un %d %d %d" % (a, b, r if r > n else 1000))
            n = max(n, r)
        elif op == "br" and marks:
            out.append("br %d" % a)
    if pairs:
        ps = [(l, r) for l in range(1, n + 1) for r in range(1, n + 1)]
        if rng:
            rng.shuffle(ps)
        for l, r in ps:
            out.append("un %d %d 1000" % (l, r))
    return out


def state_reps(hs):
    """One history per reachable table (that of the first transition into it)."""
    seen, reps = set(), []
    for h, table in hs:
        key = json.dumps(table)
        if key not in seen:
            seen.add(key)
            reps.append(h)
    return reps


def random_script(rng, nsrc, nops, marks=0.1, wide=False, hot=None):
    """Seeded history: blocks from two files (with re-reads) and unions."""
    out = list(HEAD)
    out.append("buf 1 64")
    n = 0
    regs = []

    def block(k, at, h):
        nonlocal n
        out.append("read pread %d 1 0 %d %d" % (h, k, at))
        for i in range(k):
            n += 1
            out.append("lb 1 %d %d" % (i, n))
            regs.append(n)
    left = nsrc
    while left > 0:
        k = min(left, rng.choice([1, 1, 2, 3, 5, 8, 17]))
        block(k, rng.choice([0, 1, 2, 3, 5, 40, 90]), rng.choice([1, 1, 2]))
        left -= k
        for _ in range(rng.randint(0, 3)):
            n += 1
            out.append("un %d %d %d" % (rng.choice(regs), rng.choice(regs), n))
            regs.append(n)
    for _ in range(nops):
        if n > 900:
            break
        x = rng.random()
        if x < marks:
            out.append("br %d %d" % (rng.choice(regs), rng.choice([0, 1, 7])))
            continue
        if hot and rng.random() < hot:   # local: mostly recent registers
            a, b = rng.choice(regs[-12:]), rng.choice(regs[-12:])
        else:
            a, b = rng.choice(regs), rng.choice(regs)
        n += 1
        if x > 0.97:
            b = 0
        out.append("un %d %d %d" % (a, b, n))
        regs.append(n)
    return out


def chain_script(rng, k, shape):
    """Structured histories: k source labels combined by one shape, then marked."""
    out = list(HEAD) + ["buf 1 256"]
    out.append("read pread 1 1 0 %d 0" % k)
    for i in range(k):
        out.append("lb 1 %d %d" % (i, i + 1))
    n = k
    order = list(range(1, k + 1))
    if shape == "rev":
        order.reverse()
    elif shape == "odd":
        order = order[::2] + order[1::2]
    elif shape == "rand":
        rng.shuffle(order)
    elif shape == "out":
        order = [x for p in zip(order[k // 2:], reversed(order[:k // 2])) for x in p]
    if shape == "tree":
        lvl = order
        while len(lvl) > 1:
            nx = []
            for i in range(0, len(lvl) - 1, 2):
                n += 1
                out.append("un %d %d %d" % (lvl[i], lvl[-i - 1] if rng.random() < .5 else lvl[i + 1], n))
                nx.append(n)
            if len(lvl) % 2:
                nx.append(lvl[-1])
            lvl = nx
        acc = lvl[0]
    elif shape == "btree":       # a balanced tree without a single range
        lvl = order
        while len(lvl) > 1:
            h, nx = len(lvl) // 2, []
            for i in range(h):
                n += 1
                out.append("un %d %d %d" % (lvl[i], lvl[i + h], n))
                nx.append(n)
            lvl = nx + lvl[2 * h:]
        acc = lvl[0]
    elif shape == "wide":        # one range over many unions, itself part of unions
        h = k // 2
        us = []
        for i in range(h):
            n += 1
            out.append("un %d %d %d" % (order[i], order[i + h], n))
            us.append(n)
        acc = us[0]
        for u in us[1:]:
            n += 1
            out.append("un %d %d %d" % (acc, u, n))
            acc = n
        for x in (1, us[-1]):
            n += 1
            out.append("un %d %d %d" % (acc, x, n))
    elif shape == "pairs":       # many unions of unrelated pairs, then one label over all of them
        for i in range(0, k - 2, 2):
            n += 1
            out.append("un %d %d %d" % (i + 1, i + 3, n))
        acc = n
        for i in range(k + 1, n):
            out.append("un %d %d %d" % (acc, i, n + 1))
            n += 1
            acc = n
    else:
        acc = order[0]
        for x in order[1:]:
            n += 1
            out.append("un %d %d %d" % (acc, x, n))
            acc = n
    return out, acc


def window_script(rng, gap):
    """A combination is repeated after `gap` other labels have been created."""
    out = list(HEAD) + ["buf 1 256", "read pread 1 1 0 250 0"]
    for i in range(250):
        out.append("lb 1 %d %d" % (i, i + 1))
    n = 250
    out.append("un 1 5 251")
    out.append("un 7 3 252")
    n = 252
    for i in range(gap):
        n += 1
        out.append("un %d %d %d" % (10 + i, 130 + (i * 7) % 110, n))
    out.append("un 1 5 %d" % (n + 1))
    out.append("un 3 7 %d" % (n + 2))
    out.append("un %d %d %d" % (n + 1, 251, n + 3))
    return out


def expanded_ranges():
    """Ranges over unions over ranges; adjacent labels that are not source labels."""
    out = list(HEAD) + ["buf 1 64", "read pread 1 1 0 6 0"]
    for i in range(6):
        out.append("lb 1 %d %d" % (i, i + 1))
    seq = [(1, 3, 7), (2, 5, 8), (7, 8, 9), (9, 4, 10), (6, 7, 11), (10, 11, 12), (8, 9, 13), (13, 10, 14),
           (7, 9, 15), (15, 16, 1000), (6, 9, 16), (16, 10, 17), (12, 17, 18), (9, 18, 19), (1, 19, 20)]
    for a, b, c in seq:
        out.append("un %d %d %d" % (a, b, c))
    return out


def run(ctx):
    th = ctx.thorough
    rng = ctx.rng
    marks = ctx.pid == "C03"
    # 1. design
    shapes = [([(3, 1), (1, 4)], 7, 100), ([(3, 1), (2, 1)], 7, 100), ([(2, 1), (2, 2)], 8, 2)]
    if th:
        shapes += [([(4, 1), (1, 5)], 8, 100), ([(2, 1), (2, 1), (1, 3)], 8, 3), ([(3, 1), (2, 3)], 8, 1)]
    mk = 2 if marks else 0
    hs = []
    for i, (bl, ml, w) in enumerate(shapes):
        if marks:
            ml = min(ml, 6 if not th else 7)
        r = ctx.model("LabelAlg blocks=%s labels<=%d window=%d marks<=%d" % (bl, ml, w, mk), "LA",
                      model_cfg(ml, w, mk, "all" if th or w == 100 else "no"), extra_modules=model_mod(bl))
        hs += state_reps(histories(r.out))
    ctx.parts["reachable_tables"] = len(hs)
    # 2. every reachable table, every combination
    cap = len(hs) if th else 420
    if len(hs) > cap:
        rng.shuffle(hs)
        hs.sort(key=len, reverse=True)
        hs = hs[:cap * 2 // 3] + rng.sample(hs[cap * 2 // 3:], cap // 3)
        rng.shuffle(hs)
    jobs = {}
    per = 14
    for k in range(0, len(hs), per):
        s = list(HEAD)
        for h in hs[k:k + per]:
            s += epoch(h, not marks or th, marks, rng.choice([1, 2]), rng.choice([0, 0, 1, 60]), rng)
        jobs["graph%d" % k] = dict(script=s)
    # 3. simulated and structured histories
    nsim = 60 if not th else 600
    r = ctx.model("LabelAlg simulation", "LA", model_cfg(60, 100, 6, "leaf", 45, props=False),
                  extra_modules=model_mod([(8, 1), (5, 3), (3, 20), (2, 1)]),
                  args=["-simulate", "num=%d" % nsim, "-depth", "47", "-seed", str(ctx.seed)], workers=1)
    sims = [h for h, _ in histories(r.out)]
    ctx.parts["simulated_histories"] = len(sims)
    for k in range(0, len(sims), 6):
        s = list(HEAD)
        for h in sims[k:k + 6]:
            s += epoch(h, False, True, rng.choice([1, 2]), rng.choice([0, 50]))
        jobs["sim%d" % k] = dict(script=s)
    for k in range(24 if not th else 300):
        jobs["rnd%d" % k] = dict(script=random_script(
            rng, rng.choice([3, 6, 12, 40]), rng.choice([40, 120, 240]) if not th else rng.choice([60, 240, 500]),
            marks=0.08 if marks else 0.02, hot=rng.choice([None, .5, .9])))
    if marks:
        for k in [8, 40, 62, 64, 66, 128, 180]:
            for shape in ("btree", "wide"):
                s, acc = chain_script(rng, k, shape)
                for extra in ([], [k // 2 + 1], [k + 2], [k + 5, k // 3]):
                    if extra and k not in (8, 66):
                        continue
                    jobs["%s-%d-%d" % (shape, k, len(extra) and extra[0])] = dict(script=s + ["br %d" % x for x in extra] + ["br %d" % acc])
    for k in [2, 3, 31, 32, 33, 34, 65, 90] + ([128, 200] if th else []):
        for shape in ["asc", "rev", "odd", "rand", "out", "tree", "pairs"]:
            if k < 3 and shape == "pairs":
                continue
            s, acc = chain_script(rng, k, shape)
            if ctx.pid != "C02" or shape != "pairs":
                jobs["chain-%s-%d" % (shape, k)] = dict(script=s + ["br %d" % acc] + ["br 1", "br %d" % acc])
    for g in [0, 1, 30, 47] + ([98, 99, 100, 101, 120] if ctx.pid == "C01" else []):
        jobs["window%d" % g] = dict(script=window_script(rng, g))
    jobs["adjacent"] = dict(script=expanded_ranges())
    # labels of more than 16 bits
    s = ["init", "mkfile {D}/p @70000 1", "open open 1 {D}/p r 0", "buf 0 70016", "read read 1 0 0 70000"]
    at = [0, 100, 127, 128, 16383, 16384, 32766, 32767, 32768, 33000, 65534, 65535, 65536, 69999]
    s += ["lb 0 %d %d" % (o, i + 1) for i, o in enumerate(at)]
    r = len(at) + 1
    for a, b in [(9, 10), (2, 11), (11, 13), (12, 13), (8, 9), (16, 17), (18, 10), (14, 3), (19, 22), (12, 12)]:
        s.append("un %d %d %d" % (a, b, r))
        r += 1
    for k, extra in enumerate(([], ["br 10"], ["br 13", "br 9"], ["br 15", "br 1"], ["br %d" % (r - 2)], ["br 21", "br 14"])):
        jobs["wide%d" % k] = dict(script=s + extra)
    if ctx.pid == "C03":
        ctx.traces_of(jobs, convert=with_twin(ctx, jobs))
    else:
        for j in jobs.values():
            j["parts"] = ()
            j["want"] = ("labels",)
        ctx.traces_of(jobs)


def with_twin(ctx, jobs):
    """C03: the same history without its branches has to leave the same labels."""
    names = [n for n in jobs if any(x.startswith("br") for x in jobs[n]["script"])]
    rs = runner.run_many(ctx.exe(), [dict(script=[x for x in jobs[n]["script"] if not x.startswith("br")],
                                          want=("labels",)) for n in names])
    twins = {n: (r.final or {"labels": [-1]})["labels"] for n, r in zip(names, rs) if r}
    mask = (1 << 64) - 1 - (1 << 62)

    def conv(name, job, r):
        t = ctx.to_trace(name, dict(job, parts=("cf",)), r)
        if name in twins:
            t["fin"]["same"] = int([x & mask for x in (r.final or {"labels": []})["labels"]] == twins[name])
        return t
    return conv
