"""C04, C14, C16: the trace file container and the encoding of labels.

StoreGen enumerates operation sequences on small containers up to and beyond their
capacity; Store says which outcomes and which file contents are allowed."""
import concurrent.futures
import os
import shutil
import subprocess
import tempfile

from lib import py, run as R, tdagw
from lib.run import HUNG, off, limbs, scratch_root
from lib.tdag import Tdag, TdagError
from checks.io import sequences
import json

BIG = "str 65535 66"
ALPHA = {
    "sources": ["src 3 65 5 100", "src 4 66 6 0xffffffffffffffff", "src 0 65 5 7", "find 5", "find 6", "find -1"],
    "sinks": ["sink 5 1 0", "sink 18014398509481983 2147483647 255", "sink 0 0 3"],
    "functions": ["fn 1 65", "fn 2 65", "fn 2 66", "fn 3 65", "fn 0 65", "fn 7 67", "fn 65535 65"],
    "events": ["ev 0 0", "ev 1 65535", "ev 0 300"],
    "log": ["cf 0 5", "cf 1 300", "cf 2 2147483648 4294967295", "cf 2 1 128", "cf 0 16384"],
    "labels": ["@lab", "@un", "@mark"],
    "bits": ["bit 0", "bit 63", "bit 64", "bit 69", "bit 70", "bits 60 8", "bits 64 6", "bits 0 64", "bits 0 70", "bits 1 70", "bits 69 1", "bits 70 1", "bits 7 0",
             "bits 5 3", "isset 63", "isset 69", "isset 70", "bit 4294967296", "bits 65 18446744073709551615"],
    "names": [BIG, "str 65536 66", "str 0 65", "str 1 67", "src 65535 68 4 1", "fn 65534 69", "str 32000 70", "str 65521 71", "str 65519 72"],
}
ALPHA["bits"] = [b for b in ALPHA["bits"] if "65 1844" not in b and "42949" not in b]


def small(exe, script, post=None):
    d = tempfile.mkdtemp(prefix="ptv", dir=scratch_root())
    try:
        with open(d + "/s", "w") as f:
            f.write("\n".join(script) + "\n")
        try:
            p = subprocess.run([exe, d + "/s", d + "/e", d + "/f"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60 if HUNG[0] < 8 else 1)
            status, err = p.returncode, p.stderr[-200:].decode(errors="replace")
        except subprocess.TimeoutExpired:
            status, err = -999, "did not end"
            HUNG[0] += 1
        ev = []
        if os.path.exists(d + "/e"):
            for l in open(d + "/e"):
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    ev.append(dict(op="crash", what="unreadable event"))
        if status != 0:
            ev.append(dict(op="crash", what="status %d %s" % (status, err.replace('"', "'").replace("\\", "/"))))
        fin = dict(err="")
        if os.path.exists(d + "/f"):
            try:
                fin.update(decode(d + "/f"))
            except (TdagError, KeyError, IndexError, ValueError, OSError, Exception) as ex:
                fin = dict(err=repr(ex)[:150].replace('"', "'").replace("\\", "/"))
        elif any(x.startswith("layout") for x in script):
            fin = dict(err="no file")
        return ev, fin
    finally:
        shutil.rmtree(d, ignore_errors=True)


def nm(b):
    return [len(b), b[0] if b and b == b[:1] * len(b) else 65 if not b else -1]


def decode(path):
    t = Tdag(path)
    try:
        bits, _ = t.srcindex()
        lab = []
        ws = t.labels()
        if not ws or ws[0] != 0:
            raise TdagError("no untainted label")
        for w in ws[1:]:
            k, a, b, cf = Tdag.decode(w)
            lab.append([1, a, off(b), cf] if k == "s" else [{"u": 2, "r": 3, "z": 0}[k], a, b, cf])
        if t.by["labels"][1] % 8 or t.by["sinks"][1] % 16:
            raise TdagError("partial record")
        return dict(sec=[list(x) for x in t.sections], size=t.filesize, magic=t.magic,
                    src=[[nm(n), fd, limbs(sz)] for n, fd, sz in t.sources()],
                    sink=[[off(o), limbs(l), i] for o, l, i in t.sinks()],
                    fn=[nm(n) for n in t.functions()], ev=[list(x) for x in t.events()],
                    cf=[[k, limbs(f), limbs(l or 0)] for k, f, l in t.cflog()],
                    lab=lab, bits=[i for i in range(bits.bit_length()) if bits >> i & 1])
    finally:
        t.close()


def gcfg(alpha, n, sim):
    # "0" characters: names of length 0 are all the same name
    return "SPECIFICATION %s\nCONSTANTS Alphabet={%s}\n MaxLen=%d\n MaxLab=12\nINVARIANTS Sane%s\n" % (
        "SimSpec" if sim else "Spec", ",".join('"%s"' % a for a in alpha), n, "" if sim else " Emit")


def scripts(ctx):
    th = ctx.thorough
    out = {}
    total = 0
    depth = {"names": 3, "bits": 3, "labels": 3 if not th else 4, "functions": 4 if not th else 5, "log": 5, "sources": 5, "sinks": 6, "events": 5}
    every = sum(ALPHA.values(), [])
    sim = lambda n, d: dict(args=["-simulate", "num=%d" % n, "-depth", str(d + 3), "-seed", str(ctx.seed)], workers=1)
    want = [(name, "all", alpha, depth[name], dict(workers=2)) for name, alpha in ALPHA.items()]
    want += [(name, "long", alpha, 24, sim(40 if not th else 600, 24)) for name, alpha in ALPHA.items()]
    want.append(("mix", "long", every, 60, sim(120 if not th else 2000, 60)))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(lambda w: sequences(ctx.model("StoreGen %s, %s sequences" % w[:2], "StoreGen", gcfg(w[2], w[3], w[1] == "long"), **w[4]).out), want))
    for (name, kind, _, _, _), q in zip(want, rs):
        pre = []
        if kind == "all":
            total += len(q)
            cap = 260 if not th else 4000
            if len(q) > cap:
                q = ctx.rng.sample(q, cap)
            pre = [BIG] * 14 if name == "names" else []
        for k, h in enumerate(q):
            out["%s-%s%d" % (name, kind, k)] = ["layout " + "ABCD"[k % 4]] + pre + h
    ctx.parts["sequences"] = total
    return out


def go(ctx, jobs):
    exe = ctx.exe("secdrv.cpp")

    def one(n):
        ev, fin = small(exe, jobs[n])
        return dict(name=n, ev=ev, fin=fin)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        ts = list(ex.map(one, jobs))
    ctx.validate(ts, spec="Store", rerun=one, jobs={n: dict(script=s) for n, s in jobs.items()})


def run(ctx):
    globals()["run_" + ctx.pid](ctx)


def run_C16(ctx):
    go(ctx, scripts(ctx))
    big(ctx)


# ---- the real tables ---------------------------------------------------------------
def summary(pattern, ntaint):
    def post(tp, r):
        try:
            t = Tdag(tp)
        except (TdagError, OSError) as ex:
            return dict(err=repr(ex)[:100].replace('"', "'"))
        try:
            names = t.functions()
            ev = t.events()
            cf = t.by["cflog"]
            n = len(pattern) // 2
            pat = bytes.fromhex(pattern)
            ok, left, at = True, cf[1], cf[0]
            block = pat * (1 << 16) if n else b""
            while left and ok:
                k = min(left, len(block))
                ok = k > 0 and t._at(at, k) == block[:k]
                at, left = at + k, left - k
            sk = t.raw("sinks")
            lay = sorted((o, o + z) for _, _, o, z in t.sections)
            m = len(sk) // 16
            import struct
            want = b"".join(struct.pack("<qIBxxx", i, 1 + i % ntaint, 1) for i in range(m)) if m else b""
            mask = lambda d: b"".join(d[i:i + 13] for i in range(0, len(d), 16))
            return dict(err="", nfn=len(names), fnok=all(int(x, 16) == i for i, x in enumerate(names)), str=t.by["strings"][1],
                        nev=len(ev), evok=all(e == (0, i) for i, e in enumerate(ev)), nsink=m,
                        sinkok=len(sk) % 16 == 0 and mask(sk) == mask(want), cfb=cf[1], cfok=ok,
                        layout=all(a[1] <= b[0] for a, b in zip(lay, lay[1:])) and lay[-1][1] <= t.filesize)
        except (TdagError, ValueError, IndexError, KeyError) as ex:
            return dict(err=repr(ex)[:100].replace('"', "'").replace("\\", "/"))
        finally:
            t.close()
    return post


def vlen(v):
    n = 1
    while v >= 128:
        v >>= 7
        n += 1
    return n


def vint(v):
    out = b""
    while v >= 128:
        out += bytes([v & 127 | 128])
        v >>= 7
    return out + bytes([v])


def big(ctx):
    jobs = {}
    names = lambda n, w: dict(script=["init", "mfent %d %d 0" % (n, w)], plan=[dict(op="mfent", n=n, w=w)])
    jobs["functions"] = names(70000, 5)
    jobs["functions-exact"] = names(65535, 6)
    jobs["names-exact"] = names(32768, 30)
    jobs["names-over"] = names(32769, 30)
    jobs["names-odd"] = names(20000, 61)
    pre = ["init", "buf 0 4096", "mkfile {D}/p @4096 3", "open open 1 {D}/p r 0", "open open 2 {D}/w wc 0600"]
    rd = ["read read 1 0 0 4096"]

    def sinks(counts, fn):
        sc, plan = pre + rd, [dict(op="name", w=-1), dict(op="name", w=-1)]
        for c, n in counts:
            sc = sc + ["mwr 2 0 %d %d" % (n, c)]
            plan.append(dict(op="mwr", n=n, count=c))
        sc = sc + ["mfent %d 8 0" % fn, "mcf 3 5 7"]
        plan += [dict(op="mfent", n=fn, w=8), dict(op="mcf", n=3, w=3)]
        return dict(script=sc, plan=plan)
    jobs["sinks-exact"] = sinks([(256, 4096)], 4)
    jobs["sinks-over"] = sinks([(258, 4096)], 4)
    jobs["sinks-mid"] = sinks([(255, 4096), (3, 4096)], 1)
    if ctx.thorough:
        for fid, lab in ((5, 7), (0xffffffff, 0xffffffff), (300, 20000)):
            w = 1 + vlen(fid) + vlen(lab)
            n = (1 << 30) // w + 3
            jobs["log-%d" % fid] = dict(script=["init", "mcf %d %d %d" % (n, fid, lab)], plan=[dict(op="mcf", n=n, w=w)],
                                        pat=(b"\2" + vint(fid) + vint(lab)).hex())
    exe = ctx.exe()

    def one(n):
        j = jobs[n]
        plan = j["plan"]
        r = R.run_one(exe, j["script"], want=(), timeout=300, post=summary(j.get("pat", "020507"), 4096))
        for k, e in enumerate(plan):
            if e["op"] == "name":        # length of the scratch path
                plan[k] = dict(op="name", w=r.dlen + 2)
        return dict(name=n, ev=[], plan=plan, status=r.status, ok=all(e.get("ok", True) for e in r.events if e["op"] == "mdone"),
                    fin=r.keep or dict(err="no file"))
    with concurrent.futures.ThreadPoolExecutor(4 if not ctx.thorough else 2) as ex:
        ts = list(ex.map(one, jobs))
    ctx.validate(ts, spec="Capacity", rerun=one, jobs={n: dict(script=j["script"]) for n, j in jobs.items()})
    # more sources than the table holds: reads and writes on the tracked ones go on as before
    s = ["init", "buf 0 24", "mkfile {D}/p 41424344", "mkfile {D}/q 5152535455", "open open 1 {D}/p rw 0", "read read 1 0 0 3"]
    for i in range(265):
        s.append("open open %d {D}/%s rw 0" % (2 + i, "pq"[i % 2]))
        if i % 16 == 3 or i > 245:
            s += ["read read %d 0 %d 3" % (2 + i, i % 5), "write write %d 0 0 2" % (2 + i), "write write 1 0 0 2", "fent 61%02x" % (i % 256)]
    ctx.traces_of({"sources": dict(script=s, parts=("sources", "sizes", "sinks", "idx", "functions", "events", "cflog", "cf"))})


# ---- label words ---------------------------------------------------------------------
def records(ctx):
    rng, th = ctx.rng, ctx.thorough
    out = set()
    S, L, O = 256, 1 << 31, 1 << 54
    edge = lambda n: sorted({0, 1, 2, 3, n - 1, n - 2, n - 3, n // 2, n // 2 - 1} | {1 << i for i in range(n.bit_length() - 1)} |
                            {(1 << i) - 1 for i in range(n.bit_length())} | {n - 1 - (1 << i) for i in range(n.bit_length() - 1)})
    off_, lab = edge(O), edge(L)
    for o in off_:
        for i in (0, 1, 2, 85, 127, 128, 170, 254, 255):
            out.add(("s", i, o))
    for i in range(S):
        out.add(("s", i, rng.randrange(O)))
        out.add(("s", i, 0))
        out.add(("s", i, O - 1))
    for a in lab:
        for b in lab:
            if a > b:
                out.add(("u", a, b))
            elif a < b:
                out.add(("r", a, b))
    for _ in range(4000 if not th else 60000):
        out.add(("s", rng.randrange(S), rng.getrandbits(rng.randrange(1, 55))))
        a, b = rng.getrandbits(rng.randrange(1, 32)), rng.getrandbits(rng.randrange(1, 32))
        if a != b:
            out.add(("u" if a > b else "r", a, b))
    q = [x + (c,) for x in sorted(out) for c in (0, 1)]
    if not th and len(q) > 12000:
        keep = [x for x in q if x[0] == "s"]
        rest = [x for x in q if x[0] != "s"]
        q = (rng.sample(keep, 6000) if len(keep) > 6000 else keep) + rng.sample(rest, 6000)
    return q


def run_C04(ctx):
    ctx.apalache("EncProof: decoding inverts encoding, marking changes only the mark", "EncProof", "Inv")
    q = records(ctx)
    ctx.parts["records"] = len(q)
    chunks = {"words%d" % i: ["enc %s %d %d %d" % x for x in q[i:i + 500]] for i in range(0, len(q), 500)}
    exe = ctx.exe("secdrv.cpp")
    word = lambda l: sum(v << (16 * i) for i, v in enumerate(l))

    def one(n):
        ev, _ = small(exe, chunks[n])
        good = [e for e in ev if e["op"] == "enc"]
        ans = []
        for k in ("w", "plus"):
            r = py.run([dict(kind="words", hex=tdagw.Writer(labels=[word(e[k]) for e in good]).bytes().hex())], workers=1)[0]
            a = r.get("nodes", [])
            if "error" in r or r["nodes"] != r["all"] or len(a) != len(good):
                a = [[0, [0] * 4, [0] * 4, 0]] * len(good)
            ans.append(a)
        for e, a, b in zip(good, *ans):
            e["py"], e["pym"] = a, b
        return dict(name=n, ev=ev)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        ts = list(ex.map(one, chunks))
    ctx.validate(ts, spec="Enc", rerun=one, jobs={n: dict(script=c) for n, c in chunks.items()})


# ---- how the program ends ------------------------------------------------------------
LIFE = ["open open 1 {D}/p rw 0", "read read 1 0 0 4", "read read 1 0 5 3", "lseek 1 2 0", "write write 1 0 0 6", "write write 1 0 4 2", "un 1 2 3", "un 3 1 4", "un 2 4 5",
        "lb 0 0 1", "lb 0 1 2", "lb 0 6 4", "br 3", "br 1", "br 5", "fent 61", "fent 6263", "fex 0", "ent 5", "ent 300", "lev 300", "tcf 1 5 1", "tcf 3 70000 1",
        "fopen fopen 11 {D}/q r", "fread fread 11 0 8 1 3", "getc fgetc 11 2", "fgets 11 0 12 6", "open open 2 {D}/n rwc 0600", "write write 2 0 0 12"]
ENDS = [([], 0), (["exit 0"], 0), (["exit 3"], 3), (["exit 255"], 255), (["exit 7 plain"], 7), (["exit 0 plain"], 0), (["assert"], -6)]


def run_C14(ctx):
    go(ctx, scripts(ctx))
    jobs = {}
    r = ctx.model("LifeGen", "LifeGen", "SPECIFICATION SimSpec\nCONSTANTS MaxLen=26\nINVARIANT Sane\n",
                  args=["-simulate", "num=%d" % (110 if not ctx.thorough else 1500), "-depth", "30", "-seed", str(ctx.seed)], workers=1)
    qs = sequences(r.out)
    r = ctx.model("LifeGen", "LifeGen", "SPECIFICATION Spec\nCONSTANTS MaxLen=%d\nINVARIANTS Sane Emit\n" % (3 if not ctx.thorough else 4))
    short = sequences(r.out)
    ctx.parts["sequences"] = len(short)
    if len(short) > 120 and not ctx.thorough:
        short = ctx.rng.sample(short, 120)
    qs += [[]] * len(ENDS) + short
    pre = ["init", "buf 0 24", "mkfile {D}/p 4142434445464748", "mkfile {D}/q 4b4c4d0a4e4f0a505152"]
    for k, q in enumerate(qs):
        end, st = ENDS[k % len(ENDS)]
        jobs["life%d" % k] = dict(script=pre + [y for x in q for y in x.split("|")] + end, expect_status=st,
                                  parts=("sources", "sizes", "sinks", "idx", "functions", "events", "cflog", "cf", "sec"))
    # a file of an earlier run (longer, with labels, sinks and functions of its own) or of something else is replaced;
    # the documented default name and relative names are honoured
    old = pre + ["mkfile {D}/big @3000 1", "buf 0 3016", "open open 1 {D}/big r 0", "read read 1 0 0 3000", "open open 2 {D}/big r 0", "buf 0 24", "read read 2 0 0 9",
                 "lb 0 1 1", "lb 0 6 2", "un 1 2 3", "br 3", "fent 61", "fent 62", "fex 1", "open open 3 {D}/old wc 0600", "write write 3 0 0 9", "write write 3 0 0 9"]
    for n, (k, kw) in enumerate([(k, kw) for k in range(0, len(qs), 1 + len(qs) // 8) for kw in
                                 (dict(prior=old), dict(prior=old + ["assert"]), dict(prior=b"\xff" * 200000), dict(db=None), dict(db="sub.dir/t.tdag"), dict(db=None, prior=old))]):
        end, st = ENDS[k % len(ENDS)]
        jobs["again%d" % n] = dict(script=pre + [y for x in qs[k] for y in x.split("|")] + end, expect_status=st,
                                   parts=("sources", "sizes", "sinks", "idx", "functions", "events", "cflog", "cf", "sec"), **kw)
    ctx.traces_of(jobs)
