"""C10, C25: labels of memory and heap blocks.

MemGen enumerates every single operation (all positions, lengths and overlaps in a
small buffer) and simulates sequences; PT says what happens to data and labels."""
from checks import strs
from checks.io import sequences, flat

W = 7
HEAD = ["init", "buf 0 16", "buf 1 16", "mkfile {D}/z " + "".join("%02x" % (48 + i) for i in range(40)), "open open 99 {D}/z r 0"]
PRE = ["fill 0 0 " + "".join("%02x" % (0x81 + i) for i in range(16)), "fill 1 0 " + "".join("%02x" % (0xa1 + i) for i in range(16)),
       "read pread 99 0 0 4 20", "read pread 99 0 5 3 3", "read pread 99 1 1 5 30", "lb 0 1 1", "lb 1 2 2", "un 1 2 3", "setl 1 3 1 3", "setl 0 2 1 3",
       "put 0 12 00", "put 1 12 00"]
LONGPRE = ["read pread 99 1 1 5 30", "lb 1 1 1", "lb 1 2 2", "un 1 2 3"]


def cfg(ops, n, sim):
    return "SPECIFICATION %s\nCONSTANTS Ops={%s}\n MaxLen=%d\n W=%d\nINVARIANTS TypeOK%s\n" % (
        "SimSpec" if sim else "Spec", ",".join('"%s"' % o for o in ops), n, W, "" if sim else " Emit")


MEM = ["memcpy", "memmove", "memset", "strcpy", "strcat", "strncpy", "strdup", "setl", "addl", "ldn"]


def wide_loads(rng):
    """Loads of many bytes: constant, ascending, mixed and sparse labels."""
    out = {}
    for k, n in enumerate([16, 17, 33, 64, 100, 200]):
        s = ["init", "buf 0 %d" % n, "mkfile {D}/z " + "41" * 250, "open open 1 {D}/z r 0", "read pread 1 0 0 %d 0" % n, "lb 0 3 1", "lb 0 %d 2" % (n - 2),
             "un 1 2 3", "ldn 0 0 %d 4" % n, "ldn 0 1 %d 4" % (n - 1), "setl 0 5 4 3", "ldn 0 0 %d 4" % n, "setl 0 0 2 0", "ldn 0 0 %d 5" % n,
             "setl 0 0 %d 0" % n, "ldn 0 0 %d 6" % n, "setl 0 %d 1 2" % (n - 1), "ldn 0 0 %d 6" % n, "setl 0 0 1 1", "ldn 0 0 %d 6" % n,
             "addl 0 0 %d 5" % n, "ldn 0 0 %d 6" % n]
        for _ in range(12):
            s += ["read pread 1 0 %d %d %d" % (rng.randrange(n - 8), rng.randrange(1, 8), rng.randrange(200)),
                  "ldn 0 %d %d 7" % (rng.randrange(4), n - 4), "setl 0 %d 3 7" % rng.randrange(n - 3)]
        out["wide%d" % n] = dict(script=s)
    return out


def run(ctx):
    th = ctx.thorough
    jobs = {}
    if ctx.pid == "C25":
        r = ctx.model("MemGen, every operation", "MemGen", cfg(MEM, 1, False))
        seqs = sequences(r.out)
        ctx.parts["single_operations"] = len(seqs)
        cap = 2600
        if not th and len(seqs) > cap:
            by = {}
            for q in seqs:
                by.setdefault(q[0].split("mem ")[-1].split()[0], []).append(q)
            seqs = []
            for k, v in sorted(by.items()):
                seqs += v if len(v) <= cap // len(by) else ctx.rng.sample(v, cap // len(by))
        for i in range(0, len(seqs), 110):
            s = list(HEAD)
            for q in seqs[i:i + 110]:
                s += PRE + flat(q)
            jobs["op%d" % i] = dict(script=s)
        r = ctx.model("MemGen, sequences", "MemGen", cfg(MEM + ["un", "lb", "fill"], 30, True),
                      args=["-simulate", "num=%d" % (400 if th else 50), "-depth", "33", "-seed", str(ctx.seed)], workers=1)
        seqs = sequences(r.out)
        for i in range(0, len(seqs), 7):
            s = list(HEAD)
            for q in seqs[i:i + 7]:
                s += PRE + flat(q)
            jobs["seq%d" % i] = dict(script=s)
        jobs.update(wide_loads(ctx.rng))
        jobs.update(strs.jobs_for(ctx, {"find": 150, "sub": 100, "conv": 350, "convd": 120, "fmt": 500, "edge": None}, 150 if th else 30))
    else:
        ops = ["malloc", "hset", "hset2", "realloc", "refail", "free"]
        ops.remove("hset2")
        r = ctx.model("MemGen heap, sequences", "MemGen", cfg(ops, 60, True),
                      args=["-simulate", "num=%d" % (900 if th else 120), "-depth", "63", "-seed", str(ctx.seed)], workers=1)
        seqs = sequences(r.out)
        ctx.parts["sequences"] = len(seqs)
        for i in range(0, len(seqs), 12):
            s = list(HEAD)
            for q in seqs[i:i + 12]:
                s += LONGPRE + flat(q)
            jobs["heap%d" % i] = dict(script=s)
        for k, (a, b, c) in enumerate([(10, 5000, 20), (100, 100000, 50), (3000, 3001, 2999), (24, 24, 25), (1, 2, 1), (4000, 60000, 4000), (9000, 20000, 9000), (66000, 140000, 66000)]):
            s = HEAD + LONGPRE + ["malloc 20 %d" % a, "hset 20 0 1 65", "hset 20 %d 1 66" % (a // 2), "hset 20 %d 2 66" % (a - 1), "malloc 21 %d" % a, "hset 21 0 3 67", "realloc 20 %d" % b]
            if b <= 4000:
                s += ["hset 20 %d 3 68" % (b - 1)]
            s += ["realloc 20 %d" % c, "realloc 20 1 fail", "realloc 21 %d" % c, "free 21", "malloc 22 %d" % a, "realloc 22 %d" % b, "free 20", "calloc 23 %d" % a,
                  "realloc 23 %d" % b, "calloc 24 %d" % c]
            jobs["resize%d" % k] = dict(script=s)
        jobs["fail"] = dict(script=HEAD + LONGPRE + ["callocfail 1 1152921504606846976", "malloc 20 30", "hset 20 3 1 65", "callocfail 4294967296 4294967296",
                                                     "callocfail 3 9223372036854775807", "realloc 20 60", "callocfail 1 18446744073709551615", "free 20"])
        jobs["null"] = dict(script=HEAD + LONGPRE + ["malloc 20 8", "hset 20 3 1 65", "free 20", "realloc 20 30", "hset 20 3 2 66", "realloc 20 60", "free 20"])
    for j in jobs.values():
        j["want"] = ("labels",)
        j["parts"] = ()
    ctx.traces_of(jobs)
