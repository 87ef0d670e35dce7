"""C15: several threads recording at once.

1. TLC checks Conc: every interleaving, at the granularity of single accesses and
   lock operations, of small programs of two and three threads.
2. The programs TLC enumerates are run on the real runtime under a scheduler that
   can switch threads at every memory access and lock operation: every placement of
   one preemption, placements of two, random schedules, and freely.
3. The results of the calls and the finished trace are checked against ConcTrace."""
from lib import build, run as runner, tdag
from checks.io import sequences

OPS = ["src", "un", "un2", "br", "fn", "own", "cf", "wr", "sr", "op"]
DRV = {"src": ["pr 2"], "un": ["un 2 4 16"], "un2": ["un 0 4 17"], "br": ["br 2"], "fn": ["fs"], "own": ["fo"],
       "cf": ["tcf 2"], "wr": ["wr 0 4"], "sr": ["sr 2"], "op": ["op"], "fx": ["fx"], "sw": ["sw 0 4"], "z0": ["z0"],
       "ent": ["ent"], "lev": ["lev"], "bru": ["br 4"], "un3": ["un 2 5 18"], "unx": ["un 16 5 19"], "brx": ["br 16"],
       "big": ["pr 9"], "huge": ["pr 61"], "sr1": ["sr 1"]}
SETUP = ["M pr 3 0", "M un 0 1 2", "M pr 2 4"]


def cfg(threads, ops, n, locked, emit):
    return ("SPECIFICATION Spec\nCONSTANTS Threads={%s}\n Ops={%s}\n MaxOps=%d\n Locked=%s\n Emit=%s\nINVARIANTS Complete Final Live\n"
            % (",".join('"t%d"' % i for i in range(threads)), ",".join('"%s"' % o for o in ops), n,
               "TRUE" if locked else "FALSE", "TRUE" if emit else "FALSE"))


def block(name, how, prog):
    out = ["block %s %s" % (name, how)] + SETUP
    for i, p in enumerate(prog):
        ops = list(p)
        if ops and ("unx" in ops or "brx" in ops):  # they use the result of un
            ops.insert(0, "un")
        out += ["%d %s" % (i, x) for o in ops for x in DRV[o]]
    return out + ["end"]


def nopen(prog):
    return sum(o == "op" for p in prog for o in p)


class Packer:
    """Blocks to processes: at most 240 files are opened and PER repetitions made in one."""

    def __init__(self, tag, per):
        self.tag, self.per, self.jobs, self.cur, self.n, self.o = tag, per, {}, [], 0, 0

    def add(self, how, prog, reps, k=[0]):
        k[0] += 1
        if self.cur and (self.n + reps > self.per or self.o + reps * nopen(prog) > 235):
            self.flush()
        self.cur += block("b%d" % k[0], how, prog)
        self.n += reps
        self.o += reps * nopen(prog)

    def flush(self):
        if self.cur:
            self.jobs["%s%d" % (self.tag, len(self.jobs))] = dict(script=self.cur)
        self.cur, self.n, self.o = [], 0, 0
        return self.jobs


def to_trace(name, job, r):
    th = [[], [], [], []]
    notes = []
    for e in r.events:
        if e["op"] == "note":
            notes.append(e["v"])
        elif e["op"] != "start":
            x = {"op": e["op"], "t": e["t"], "v": e["v"]}
            if e["op"] == "fn":
                x["name"], x["own"] = e["name"], 1 if e["name"][0] == "g" else 0
            if e["op"] == "op":
                x["name"] = "w%d_%d_%d" % (e["rep"], e["t"], e["v"][2])
            th[e["t"]].append(x)
    err = ""
    if r.status == 88:
        err = "deadlock: every thread waits"
    elif r.status == 89:
        err = "no progress"
    elif r.status != 0:
        err = "the program ended with status %d: %s" % (r.status, r.stderr[-150:].decode(errors="replace"))
    elif r.error:
        err = r.error
    elif r.final is None:
        err = "trace file unreadable: %s" % r.tdagerr
    fin = {}
    if not err:
        f = r.final
        v, n = f["srcindex"]
        bits, i = [], 0
        while v:
            if v & 1:
                bits.append(i)
            v >>= 1
            i += 1
        fin = dict(labels=[list(tdag.Tdag.decode(x)) for x in f["labels"]], bits=bits,
                   sources=[[n.decode("latin1"), fd, min(sz, 1 << 30)] for n, fd, sz in f["sources"]],
                   functions=[x.decode("latin1") for x in f["functions"]], events=[list(x) for x in f["events"]],
                   cflog=[[a, b, c or 0] for a, b, c in f["cflog"]], sinks=[[c, a, b] for a, b, c in f["sinks"]])
        big = [x for x in fin["labels"][1:] if x[2] >= 1 << 31]
        if big:
            err, fin = "malformed label table", {}
    return dict(name=name, ev=[], th=th, fin=fin, error=err.replace('"', "'").replace("\\", "/").replace("\n", " ")), notes


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    r = ctx.model("Conc, two threads, one operation each", "Conc", cfg(2, OPS, 1, True, True))
    pairs = [[p["t0"], p["t1"]] for p in sequences(r.out)]
    ctx.model("Conc, two threads, up to two operations of labels and functions", "Conc",
              cfg(2, ["src", "un", "br", "fn"], 2, True, False), xmx="12g")
    if th:
        ctx.model("Conc, three threads, one operation each", "Conc", cfg(3, OPS, 1, True, False), xmx="16g", timeout=1700)
        ctx.model("Conc, two threads, up to two operations", "Conc", cfg(2, OPS[:8], 2, True, False), xmx="16g", timeout=1700)
    import lib.tlc as tlc
    bad = tlc.tlc("Conc", cfg(2, OPS, 1, False, False))
    if bad.violated != "Complete":
        raise tlc.TlcError("without locks the model should lose records: %s %s" % (bad.violated, bad.error))
    ctx.parts["without locks"] = "model violates Complete, as it should"
    exe = {True: build.threaded(True), False: build.threaded(False)}
    jobs = {}
    p = Packer("one", 220)
    extra = [["sw"], ["z0"], ["ent"], ["un3"], ["op"], ["bru"], ["big"]]
    extra = [[a, b] for a in extra for b in extra]
    rng.shuffle(extra)
    for q in pairs + extra:
        p.add("at 0 400", q, 66 if "fn" in q[0] + q[1] or "own" in q[0] + q[1] else 110 if nopen(q) else 38)
    jobs.update(p.flush())
    # every placement of two preemptions (a part of them in the quick tier)
    p = Packer("two", 320)
    for q in pairs + extra:
        if th:
            step = 1 if not nopen(q) else 30
            for i in range(0, 1 if nopen(q) else 16):
                p.add("pair %d %d 60" % (max(step, 16), i), q, 60)
        else:
            p.add("pair %d %d 14" % (rng.choice((37, 41, 53, 67)), rng.randrange(37)), q, 15)
    jobs.update(p.flush())
    # one repetition only: what is recorded last is not covered up by later records
    for a, b in (("big", "huge"), ("big", "big"), ("sr", "huge"), ("un", "big")):
        for k in range(0, 60 if th else 44):
            sc = block("e", "at %d %d" % (k, k + 1), [[a], [b]])
            sc.insert(1 + len(SETUP), "M pr 5%d" % (k % 4))  # the labels end shortly before a multiple of 64
            jobs["end-%s-%s-%d" % (a, b, k)] = dict(script=sc)
    # longer programs, three threads, random schedules
    more = OPS[:9] + ["fx", "sw", "ent", "lev", "bru", "un3", "unx", "brx", "big", "sr1", "z0", "fn", "un", "src"]
    p = Packer("rnd", 240)
    for i in range(600 if th else 90):
        nt = rng.choice((2, 2, 3))
        q = [[rng.choice(more) for _ in range(rng.randint(1, 4))] for _ in range(nt)]
        if i % 9 == 0:
            q[0][0] = "op"
        p.add("rand %d %d %d" % (rng.randrange(1, 10 ** 6), 16, rng.choice((2, 3, 5, 9, 20))), q, 16)
    jobs.update(p.flush())
    p = Packer("free", 300)
    for i in range(40 if th else 12):
        q = [[rng.choice(more) for _ in range(4)] for _ in range(3)]
        p.add("free 60", q, 60)
    fjobs = p.flush()
    jobs.update(fjobs)
    names = sorted(jobs)
    limit = 300 if th else 120
    pick = {n: exe[n not in fjobs] for n in names}
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = [f.result() for f in [ex.submit(lambda n: runner.run_one(pick[n], timeout=limit, **jobs[n]) if runner.HUNG[0] < 4 else None, n) for n in names]]
    traces, reps, cut = [], 0, 0
    for n, r in zip(names, rs):
        if r is None:
            continue
        t, notes = to_trace(n, jobs[n], r)
        traces.append(t)
        reps += max([e["rep"] for e in r.events] + [0]) + 1
        cut += sum(1 for v in notes if n.startswith("one") and v[1])
    ctx.parts["schedules run on the implementation"] = reps
    ctx.parts["programs whose preemption points were not all tried"] = cut
    ctx.validate(traces, spec="ConcTrace", jobs=jobs,
                 rerun=lambda n: to_trace(n, jobs[n], runner.run_one(pick[n], timeout=limit, **jobs[n]))[0])
    ctx.cov["samples"] += sum(len(q) for t in traces for q in t["th"])
    ctx.assumptions += ["threads are joined or idle when the program ends", "no two threads use the file position of one descriptor at once",
                        "sequentially consistent memory (one thread runs at a time, except in the free runs)"]
