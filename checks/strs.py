"""C26: string, conversion, formatting and system-information calls.

StrGen enumerates the calls; PT says what they return, store and label."""
from checks.io import sequences, flat

HEAD = ["init", "buf 0 16", "buf 1 16", "buf 2 96", "buf 3 24", "mkfile {D}/z " + "".join("%02x" % (48 + i) for i in range(40)), "open open 99 {D}/z r 0",
        "read pread 99 0 0 7 20", "read pread 99 1 0 16 3", "lb 0 1 1", "lb 1 2 2", "un 1 2 3", "put 0 6 00", "tcp 98 97 accept"]
# before a formatted output: the destination and the string argument carry labels
FMT = ["fill 3 0 4142434445464700", "setl 3 0 8 0", "setl 3 0 2 2", "setl 3 3 1 3", "setl 3 7 1 1", "setl 2 0 96 1", "setl 1 0 16 2"]
CLASSES = ["cmp", "strcmp", "find", "sub", "conv", "convd", "fmt", "fmtn", "sys", "edge"]


def cfg(ops, n, sim):
    return "SPECIFICATION %s\nCONSTANTS Ops={%s}\n MaxLen=%d\nINVARIANTS TypeOK%s\n" % (
        "SimSpec" if sim else "Spec", ",".join('"%s"' % o for o in ops), n, "" if sim else " Emit")


def jobs_for(ctx, want, sim, per=60):
    """want: class -> how many (None: all)."""
    jobs = {}
    for c, n in sorted(want.items()):
        r = ctx.model("StrGen, %s" % c, "StrGen", cfg([c], 1, False))
        seqs = sequences(r.out)
        ctx.parts["calls_" + c] = len(seqs)
        if n is not None and len(seqs) > n:
            by = {}
            for q in seqs:        # every function gets its share
                w = q[0].split("|")[-1].split()
                by.setdefault((w[0], w[1] if c != "fmt" and c != "fmtn" else w[-1][:1]), []).append(q)
            seqs = []
            for _, v in sorted(by.items()):
                k = max(1, n // len(by))
                seqs += v if len(v) <= k else ctx.rng.sample(v, k)
        for i in range(0, len(seqs), per):
            s = list(HEAD)
            for q in seqs[i:i + per]:
                s += (FMT if c.startswith("fmt") else []) + flat(q)
            jobs["%s%d" % (c, i)] = dict(script=s)
    if sim:
        for n in (2, 3, 4):
            r = ctx.model("StrGen, formats of %d pieces" % n, "StrGen", cfg(["fmt"], n, True),
                          args=["-simulate", "num=%d" % sim, "-depth", str(n + 3), "-seed", str(ctx.seed + n)], workers=1)
            seqs = [q for q in sequences(r.out)]
            for i in range(0, len(seqs), 40):
                s = list(HEAD)
                for q in seqs[i:i + 40]:
                    s += FMT + flat(q)
                jobs["many%d_%d" % (n, i)] = dict(script=s)
    for j in jobs.values():
        j["want"] = ("labels",)
        j["parts"] = ()
    return jobs


def run(ctx):
    th = ctx.thorough
    k = 8 if th else 1
    want = {"cmp": 900 * k, "strcmp": 400 * k, "find": 500 * k, "sub": 300 * k, "conv": 700 * k, "convd": None, "fmt": 1100 * k, "fmtn": 500 * k, "sys": None, "edge": None}
    ctx.traces_of(jobs_for(ctx, want, 700 if th else 90))
