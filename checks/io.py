"""C05 - C09, C11: input, output and attribution.

1. TLC explores IOGen breadth first (every sequence of calls up to a length over a
   small alphabet) and simulates it over the full alphabet; every behaviour is a
   script that is replayed in the real runtime.
2. Scripts with boundary values (large offsets, bulk transfers, capacity of the
   source table, truncated datagrams, failing calls, standard streams, arguments).
The recorded outcome of every call and the finished trace file are validated
against the specification PT."""
import json
import os
import re

from lib import run as runner

ALL = ("open close read pread seek write tell dup dupread lim bad fopen fclose fread getc fgets getdelim fseek "
       "fwrite putc ftell fifo conn feed qread recv trunc qwrite send drain lab").split()
DESC = "open open close read read pread seek write tell dup dupread lim bad lab".split()
STREAM = "fopen fclose fread getc fgets getdelim fseek fwrite putc ftell lab".split()
QUEUE = "open close read fifo conn feed feed qread recv trunc qwrite send drain lab".split()
S23 = "4142430a44450a0a464748ff49004a4b454c4d0a4e4f50".replace("00", "2e")
A9 = "616263640a656667ff"


def gen_cfg(ops, small, n, spec, nd=4, ns=3):
    return ("SPECIFICATION %s\nCONSTANTS Ops={%s}\n Small=%s\n MaxLen=%d\n ND=%d\n NS=%d\nINVARIANTS TypeOK OneWriter%s\n"
            % (spec, ",".join('"%s"' % o for o in sorted(set(ops))), "TRUE" if small else "FALSE", n, nd, ns,
               "" if spec == "SimSpec" else " Emit"))


def sequences(out):
    return [json.loads(m.replace('\\"', '"')) for m in sorted(re.findall(r'^"@S (.*)"$', out, re.M))]


def explore(ctx, name, ops, n, nd=3, ns=2):
    r = ctx.model("IOGen %s, all sequences of %d calls" % (name, n), "IOGen", gen_cfg(ops, True, n, "Spec", nd, ns))
    return sequences(r.out)


def simulate(ctx, name, ops, n, num, seed=0):
    r = ctx.model("IOGen %s, simulation" % name, "IOGen", gen_cfg(ops, False, n, "SimSpec"),
                  args=["-simulate", "num=%d" % num, "-depth", str(n + 3), "-seed", str(ctx.seed * 17 + seed)], workers=1)
    return sequences(r.out)


HEAD = ["init", "buf 0 24", "buf 1 24", "mkfile {D}/z 303132333435363738393a3b",
        "open open 99 {D}/z r 0"]
PRE = ["mkfile {D}/a " + A9, "mkfile {D}/b 0a0b0c0d", "mkfile {D}/s " + S23, "mkfile {D}/t 310a3233",
       "fill 0 0 " + "".join("%02x" % (0x81 + i) for i in range(24)),
       "fill 1 0 " + "".join("%02x" % (0xa1 + i) for i in range(24)),
       "read pread 99 1 3 6 2", "lb 1 4 1", "lb 1 7 2"]


def nsrc(lines):
    return sum(1 for x in lines if re.match(r"(open (?!raw)|fopen (?!raw|fdopen))", x)) + \
        2 * sum(1 for x in lines if re.match(r"tcp|udp", x))


def flat(seq):
    return [y for x in seq for y in x.split("|") if y and y != "%"]


def batch(seqs, tag, per=40, limit=230):
    """Several sequences per process, each with files of its own."""
    jobs, cur, n, cat = {}, list(HEAD), 1, []
    k = cnt = 0

    def flush():
        nonlocal cur, n, cnt, cat
        if cnt:
            jobs["%s%d" % (tag, len(jobs))] = dict(script=cur, cat=tuple(cat))
        cur, n, cnt, cat = list(HEAD), 1, 0, []
    for q in seqs:
        lines = [x.replace("{D}/", "{D}/%d" % k) for x in flat(q)]
        pre = [x.replace("{D}/", "{D}/%d" % k) for x in PRE]
        if cnt >= per or n + nsrc(lines) > limit:
            flush()
        cur += pre + lines
        n += nsrc(lines)
        cat += ["{D}/%d%s" % (k, c) for c in "abnstu"]
        cnt += 1
        k += 1
    flush()
    return jobs


# ---- scripts with boundary values -------------------------------------------------
def sparse_ok():
    d = runner.scratch_root()
    p = os.path.join(d, "ptvprobe%d" % os.getpid())
    try:
        with open(p, "wb") as f:
            os.pwrite(f.fileno(), b"x", (1 << 54) - 2)
        return True
    except OSError:
        return False
    finally:
        if os.path.exists(p):
            os.unlink(p)


def big_offsets():
    offs = [(1 << 27) - 3, (1 << 31) - 4, (1 << 32) - 5, (1 << 33) + 1, (1 << 40) + 7]
    if sparse_ok():
        offs += [(1 << 47) - 2, (1 << 53) + 11]
    jobs = {}
    for n, o in enumerate(offs):
        s = ["init", "buf 0 24", "mksparse {D}/p %d 313233343536370a3839" % o, "open open 1 {D}/p r 0",
             "read pread 1 0 0 6 %d" % (o + 1), "read pread64 1 0 4 12 %d" % (o - 3), "lseek 1 %d 0" % (o + 2),
             "read read 1 0 2 3", "read read 1 0 5 12", "tell 1", "read pread 1 0 0 4 %d" % (o + 10),
             "fopen fopen 11 {D}/p r", "fseek 11 %d 0" % (o + 1), "fread fread 11 0 0 2 2", "getc fgetc 11 5",
             "fgets 11 0 6 12", "getdelim getdelim 11 56 6", "getc getc 11 5", "getc getc 11 5", "ftell 11",
             "fopen fopen64 12 {D}/p r", "fseek 12 -3 2", "fread fread_unlocked 12 0 3 1 3", "fread fread 12 0 3 1 3"]
        pg = o & ~4095
        s += ["mmap 1 %d %d p" % (o - pg + 9 if o - pg + 9 <= 4096 else 4096, pg)]
        jobs["bigoffset%d" % n] = dict(script=s)
    return jobs


def big_outputs():
    """writes far into a file"""
    jobs = {}
    for n, o in enumerate([65534, (1 << 24) - 2, (1 << 31) - 4, (1 << 32) - 5, (1 << 33) + 1, (1 << 40) + 7] + ([(1 << 47) - 2, (1 << 53) + 11] if sparse_ok() else [])):
        jobs["farout%d" % n] = dict(script=[
            "init", "buf 0 24", "mkfile {D}/q 4142434445464748494a4b4c", "open open 1 {D}/q r 0", "read read 1 0 2 9", "mksparse {D}/p %d 313233343536370a3839" % o,
            "open open 2 {D}/p rw 0", "lseek 2 %d 0" % o, "write write 2 0 1 4", "write write 2 0 5 3", "tell 2", "lseek 2 0 2", "write write 2 0 0 12", "lseek 2 -3 1", "write write 2 0 7 2",
            "open open 3 {D}/p rwa 0", "write write 3 0 3 5", "lseek 3 %d 0" % (o + 1), "write write 3 0 3 2", "tell 3",
            "fopen fopen 11 {D}/p r+", "fseek 11 %d 0" % (o + 2), "fwrite 11 0 1 2 3", "lb 0 3 5", "putc putc 11 5 65", "putc fputc 11 5 66", "ftell 11", "fseek 11 -2 2", "putc putc 11 5 67", "fclose 11",
            "fopen fopen64 12 {D}/p a", "fwrite 12 0 4 1 3", "putc putc 12 5 68", "fclose 12"])
    return jobs


def covers():
    """long transfers over labelled memory: from tracked and untracked places, items of many sizes"""
    s = ["init", "buf 0 200", "mkfile {D}/p @300 5", "open open 1 {D}/p r 0", "read read 1 0 0 200", "open raw 2 {D}/p r 0"]
    again = ["lseek 1 0 0", "read read 1 0 0 200"]
    for c in ["read read 2 0 3 190", "read pread 2 0 5 100 7", "read pread64 2 0 0 150 100", "read pread 1 0 20 150 60", "read read 2 0 0 17", "read read 2 0 9 9"]:
        s += [c] + again
    s += ["fopen fopen 11 {D}/p r", "fopen raw 12 {D}/p r"]
    for k, (sz, c) in enumerate([(9, 2), (12, 5), (16, 3), (33, 4), (64, 3), (100, 1), (100, 2), (150, 2), (2, 80), (1, 130)]):
        fn = ("fread", "fread_unlocked")[k % 2]
        s += ["fseek 11 %d 0" % k, "fread %s 11 0 %d %d %d" % (fn, k % 3, sz, c)] + again[:2] + ["fseek 12 %d 0" % k, "fread %s 12 0 %d %d %d" % (fn, k % 3, sz, c)] + again
    s += ["fseek 11 180 0", "fread fread 11 0 0 50 3", "fseek 11 180 0", "fread fread 11 0 0 40 3"] + again
    s += ["mkfile {D}/l %s0a%s0a%s" % ("41" * 120, "42" * 64, "43" * 30), "fopen fopen 13 {D}/l r", "fopen raw 14 {D}/l r"]
    for h in (13, 14):
        s += ["fgets %d 0 1 150" % h] + again + ["fgets %d 0 0 40" % h] + again + ["getdelim getline %d 10 6" % h, "getdelim getdelim %d 67 6" % h, "fgets %d 0 2 90" % h] + again
    s += ["sockpair 20 21", "feed 21 %s" % ("61" * 90), "read recv 20 0 4 70 0", "read recvfrom 20 0 2 70 0"] + again + ["udp 22 23", "feed 23 %s" % ("62" * 90), "read recv 22 0 3 80 0"]
    return {"covers": dict(script=s)}


def paths():
    """the name a source is recorded under is the one the program used"""
    names = ["{D}//p", "{D}/./p", "./p", "p", ".//p", "{D}/././/p", "{D}/p"]
    s = ["init", "buf 0 24"] + ["mkfile %s 41424344" % n for n in names]
    for i, nm in enumerate(names):
        s += ["open %s %d %s r 0" % (("open", "open64", "openat")[i % 3], i + 1, nm), "read read %d 0 %d 2" % (i + 1, i), "fopen %s %d %s r" % (("fopen", "fopen64")[i % 2], i + 30, nm),
              "fread fread %d 0 %d 1 2" % (i + 30, i + 9)]
    return {"paths": dict(script=s)}


def bulk(th):
    jobs = {}
    for n, (size, chunks) in enumerate([(70000, [70000, 10]), (70000, [65536, 4464, 5]), (9000, [4096, 4096, 4096]),
                                        (70001, [1, 65535, 5000])] + ([(300000, [150000, 150001])] if th else [])):
        s = ["init", "buf 0 %d" % (max(chunks) + 8), "buf 1 24", "mkfile {D}/p @%d %d" % (size, n), "open open 1 {D}/p r 0"]
        for c in chunks:
            s += ["buf 0 %d" % (c + 16), "read read 1 0 %d %d" % (n, c)]
        s += ["lb 0 %d 1" % (n + chunks[-1] // 2), "tell 1"]
        s += ["fopen fopen 11 {D}/p r"]
        for c in chunks:
            s += ["buf 0 %d" % (c + 16), "fread fread 11 0 %d 1 %d" % (n, c)]
        s += ["fseek 11 100 0", "fread fread 11 1 0 1 5"]
        s += ["buf 0 70016", "lseek 1 0 0", "read read 1 0 0 %d" % min(size, 70000), "open raw 2 {D}/p r 0", "read read 2 0 0 %d" % min(size, 70000)]
        jobs["bulk%d" % n] = dict(script=s)
    return jobs


def capacity(rng):
    s = ["init", "buf 0 24", "mkfile {D}/p 41424344", "mkfile {D}/q 5152535455"]
    for i in range(255):
        s.append("open open 1 {D}/%s rw 0" % ("pq"[i % 2]))
        if i in (0, 1, 7, 127, 128, 200, 253, 254):
            s += ["read read 1 0 %d 3" % (i % 5), "write write 1 0 0 2"]
        s.append("close 1")
    keep = ["init", "buf 0 24"]
    for i in range(60):
        keep += ["mkfile {D}/k%d %s" % (i, "".join("%02x" % rng.randrange(1, 255) for _ in range(6)))]
        keep += ["open %s %d {D}/k%d rw 0" % (rng.choice(["open", "open64", "openat"]), i, i)]
    for i in range(60):
        j = rng.randrange(60)
        keep += ["read read %d 0 %d 2" % (j, rng.randrange(8)), "write write %d 0 0 %d" % (rng.randrange(60), rng.randrange(1, 8))]
    reuse = ["init", "buf 0 24"]
    for i in range(30):
        reuse += ["mkfile {D}/r%d %s" % (i, "".join("%02x" % rng.randrange(1, 255) for _ in range(4)))]
    live = {}
    for i in range(70):
        x = rng.random()
        h = rng.randrange(6)
        if h in live and x < .35:
            reuse.append(rng.choice(["close %d", "rawclose %d"]) % h)
            del live[h]
        elif h not in live:
            reuse.append("open %s %d {D}/r%d rw 0" % (rng.choice(["open", "open", "raw", "openat"]), h, rng.randrange(30)))
            live[h] = 1
        else:
            reuse += ["read read %d 0 %d 2" % (h, rng.randrange(9)), "write write %d 0 %d 3" % (h, rng.randrange(9))]
    long = ["init", "buf 0 24"]
    for i, ln in enumerate([1, 2, 63, 127, 128, 200, 251]):
        nm = "{D}/" + "n" * ln
        long += ["mkfile %s 4142" % nm, "open open %d %s r 0" % (i, nm), "read read %d 0 %d 2" % (i, i)]
    same = ["init", "buf 0 24", "mkfile {D}/p 4142434445"]
    for i in range(4):
        same += ["open open %d {D}/p rw 0" % i, "read read %d 0 %d %d" % (i, 3 * i, i + 1), "fopen fopen %d {D}/p r" % (11 + i),
                 "fread fread %d 0 %d 1 2" % (11 + i, 12 + i)]
    for i in range(4):
        same += ["write write %d 0 4 3" % i]
    # a descriptor, a pipe and a stream opened first and used after many others were opened; and late ones
    old = ["init", "buf 0 24", "mkfile {D}/p 4142434445464748494a4b4c4d4e4f50", "mkfile {D}/q 5152535455", "mkfifo {D}/f", "mkfifo {D}/g", "mkfifo {D}/h",
           "open open 50 {D}/p rw 0", "open open 51 {D}/f rw 0", "mkfile {D}/s 4142434445464748494a4b4c4d4e4f50", "fopen fopen 11 {D}/s r"]
    for i in range(180):
        old += ["open open 1 {D}/q rw 0"]
        if i in (5, 16, 32, 63, 64, 65, 127, 128, 129, 150, 179):
            old += ["read read 50 0 %d 1" % (i % 9), "feed 51 4142", "read read 51 0 %d 2" % (i % 7), "fread fread 11 0 2 1 1", "write write 50 0 0 2"]
        if i in (70, 140, 170):
            old += ["open open %d {D}/%s rw 0" % (60 + i, "fgf"[i % 3])] + ["feed %d 616263" % (60 + i), "read read %d 0 5 2" % (60 + i), "read read %d 0 5 2" % (60 + i),
                    "write write %d 0 4 3" % (60 + i), "drain %d 20" % (60 + i), "write write %d 0 4 3" % (60 + i), "drain %d 20" % (60 + i)]
        if i % 4 == 2:
            old += ["open open 2 {D}/h rw 0", "feed 2 7172", "read read 2 0 3 1", "read read 2 0 4 1", "close 2"]
        old.append("close 1")
    # more sources than the table holds: what is beyond the capacity is not tracked, the rest stays intact
    return {"capacity": dict(script=s), "manyfds": dict(script=keep), "reuse": dict(script=reuse), "names": dict(script=long),
            "samefile": dict(script=same), "oldest": dict(script=old)}


def failing():
    s = ["init", "buf 0 24", "mkfile {D}/p 4142434445464748", "open open 1 {D}/p r 0", "read read 1 0 2 5",
         "open open 2 {D}/none r 0", "open openat 3 {D}/none rw 0", "open open64 3 {D}/p wcx 0", "fopen fopen 11 {D}/none r",
         "open open 4 {D}/w wc 0600", "write write 4 0 0 9", "read read 4 0 0 5", "write write 1 0 0 5", "tell 1", "tell 4",
         "open open 5 /dev/full w 0", "write write 5 0 1 6", "close 5", "close 4", "write write 4 0 0 4",
         "read read 4 0 3 4", "close 4", "read pread 1 0 9 4 100", "read pread 1 0 9 0 3", "read read 1 0 4 12", "read read 1 0 4 12",
         "connfail 9", "accreset accept", "accreset accept4", "umask 077", "open open 6 {D}/x wc 0666", "umask 0", "open open64 7 {D}/y rwc 0666", "open openat 8 {D}/v rwc 0751",
         "write write 7 0 2 6", "umask 022", "open open 10 {D}/u wct 0640", "lseek 7 2 0", "read read 7 0 8 3",
         "open open 11 {D}/p w 0", "write write 11 0 2 3", "open raw 12 {D}/p r 0", "read read 12 0 2 8"]
    lim = ["init", "buf 0 24", "mkfile {D}/p 4142434445464748494a", "open open 1 {D}/p r 0", "read read 1 0 2 10",
           "open open 2 {D}/w rwc 0600", "fsize 4", "write write 2 0 0 9", "tell 2", "write write 2 0 3 5", "tell 2", "fsize 9",
           "write write 2 0 1 7", "write write 2 0 1 1", "lseek 2 0 0", "write write 2 0 8 4", "fsize -1", "write write 2 0 8 4",
           "open open 3 {D}/v wca 0600", "write write 3 0 3 3", "fsize 5", "write write 3 0 4 4", "lseek 3 0 0", "write write 3 0 4 1",
           "fsize -1", "write write 3 0 2 4"]
    app = ["init", "buf 0 24", "mkfile {D}/p 4142434445464748494a", "open open 1 {D}/p rwa 0", "read read 1 0 2 4",
           "write write 1 0 3 3", "tell 1", "lseek 1 1 0", "write write 1 0 0 5", "open open 2 {D}/p rw 0", "write write 2 0 2 4",
           "lseek 2 0 2", "write write 2 0 2 2", "write write 1 0 3 2", "extwrite {D}/p 2 5a5a5a", "lseek 1 0 0", "read read 1 0 0 12",
           "mkfile {D}/s 41420a44", "fopen fopen 11 {D}/s a+", "fread fread 11 0 0 1 2", "fseek 11 0 1", "fwrite 11 0 0 1 3",
           "fseek 11 1 0", "getc fgetc 11 5", "fseek 11 0 0", "putc putc 11 5 77", "fseek 11 0 0", "fread fread 11 0 6 1 12",
           "fclose 11", "fopen fopen 12 {D}/s a", "putc fputc 12 5 78", "fwrite 12 0 7 2 2", "putc putc 12 5 300", "fclose 12"]
    return {"failing": dict(script=s, cat=("{D}/p", "{D}/w", "{D}/x", "{D}/y", "{D}/v", "{D}/u")),
            "limit": dict(script=lim, cat=("{D}/w", "{D}/v")), "append": dict(script=app, cat=("{D}/p", "{D}/s"))}


def mappings():
    s = ["init", "buf 0 24", "mkfile {D}/p @9000 3", "mkfile {D}/q " + A9, "open open 1 {D}/p r 0", "open open 2 {D}/q r 0",
         "open raw 3 {D}/q r 0", "mmap 1 40 0 p", "mmap 2 9 0 p", "mmap 1 30 4096 p", "mmap 1 24 8192 p", "mmap 2 5 0 p", "mmap 3 9 0 p",
         "mmap 0 30 0 a", "read read 2 0 0 3", "lb 0 1 1", "mmap 0 30 0 ad 1", "mmap 3 7 0 pd 1", "mmap 2 7 0 pd 1", "tell 2",
         "read read 2 0 3 3", "lseek 1 4096 0", "mmap 1 16 0 p", "close 2", "mmap 1 4096 4096 p", "mmap 1 20 0 af", "mmap 1 20 4096 afd 1", "mmap 3 20 0 af"]
    u = ["init", "buf 0 24", "mkfile {D}/p @12288 3", "mkfile {D}/q " + A9, "open open 1 {D}/p r 0", "open raw 2 {D}/p r 0", "unmap 1", "unmap 2", "open open 3 {D}/q r 0", "read read 3 0 0 5"]
    return {"mmap": dict(script=s), "unmap": dict(script=u)}


def sockets():
    s = ["init", "buf 0 24"]
    for k, (a, kind) in enumerate([(1, "tcp %d %d accept"), (3, "tcp %d %d accept4"), (5, "udp %d %d"), (7, "sockpair %d %d dgram"),
                                   (9, "sockpair %d %d"), (11, "pipe %d %d")]):
        b = a + 1
        s.append(kind % (a, b))
        rd, wr = (a, b)
        s += ["feed %d 414243444546" % wr, "read read %d 0 %d 4" % (rd, k)]
        if "pipe" in kind:
            s += ["feed %d 4748" % wr, "read read %d 0 %d 4" % (rd, k), "feed %d 61626364" % wr, "read read %d 0 3 3" % rd, "write write %d 0 2 4" % wr,
                  "drain %d 20" % rd]
            continue
        s += ["feed %d 4748" % wr, "read recv %d 0 %d 4 0" % (rd, k + 2), "feed %d 61626364656667" % wr, "read recvfrom %d 0 3 3 0" % rd,
              "feed %d 71727374" % rd, "read recv %d 0 6 2 0" % b, "write send %d 0 2 7" % a, "write write %d 0 4 3" % a,
              "drain %d 20" % b, "write send %d 0 0 5" % b, "write write %d 0 4 3" % b, "drain %d 20" % a, "feed %d 3132333435" % wr]
        if kind.startswith("udp") or "dgram" in kind:
            s += ["read recv %d 0 1 12 0" % rd] * 0 + ["drain %d 20" % rd] + ["feed %d 393837363534" % wr, "read recv %d 0 1 2 32" % rd, "feed %d 2122232425" % wr,
                  "read recvfrom %d 0 8 3 32" % rd, "feed %d 6a6b" % wr, "read recv %d 0 8 5 32" % rd]
    s += ["mkfifo {D}/f", "open open 20 {D}/f rw 0", "feed 20 4142434445", "read read 20 0 1 2", "feed 20 46", "read read 20 0 3 12", "write write 20 0 0 6",
          "drain 20 20", "open raw 21 {D}/f rw 0", "feed 21 515253", "read read 20 0 9 2", "read read 21 0 12 1",
          "udp 30 31", "feed 31 4142", "read recv 30 0 2 2 0", "udpoff 30", "accreset accept", "tcp 32 33 accept"]
    return {"sockets": dict(script=s)}


def edges(th):
    """Requests around the end of what there is: item sizes that do not divide the file, lines that just fit, NUL bytes, empty files."""
    jobs = {}
    s = ["init", "buf 0 24", "buf 1 24"]
    h = n = 0
    for ln in (0, 1, 3, 5, 7):
        s.append("mkfile {D}/e%d %s" % (ln, "".join("%02x" % (0x41 + i) for i in range(ln)) or "-"))
    lens = (1, 3, 5, 7)
    for ln in lens:
        for pos in (0, 1, 2):
            for sz in (2, 3, 4):
                for cnt in ((1, 2, 4) if not th else (1, 2, 3, 4)):
                    if pos > ln:
                        continue
                    s += ["fopen %s 11 {D}/e%d %s" % (("fopen", "fopen64")[n % 2], ln, ("r", "r+")[n % 3 == 0])] + (["fseek 11 %d 0" % pos] if pos else []) + \
                         ["fread %s 11 0 %d %d %d" % (("fread", "fread_unlocked")[(n // 2) % 2], n % 7, sz, cnt), "getc fgetc 11 5",
                          "fread fread 11 1 3 2 2", "fclose 11"]
                    n += 1
                    if n % 45 == 0:
                        jobs["items%d" % len(jobs)] = dict(script=s)
                        s = s[:8]
    jobs["items%d" % len(jobs)] = dict(script=s)
    s = ["init", "buf 0 24", "buf 1 24"]
    texts = ["", "0a", "0a0a", "4142430a", "414243", "4142430a4445", "41420a430a440a", "00", "0000", "4100420a43000a00", "410a00420a00", "ff0aff", "0041420a"]
    for i, x in enumerate(texts):
        s.append("mkfile {D}/l%d %s" % (i, x or "-"))
    base, n = list(s), 0
    for i, x in enumerate(texts):
        for d in (10, 0, 255, 66):
            s += ["fopen fopen 11 {D}/l%d r" % i] + ["getdelim %s 11 %d 6" % (("getdelim", "__getdelim")[n % 2], d)] * 4 + ["getc getc 11 5", "fclose 11"]
            n += 1
        if "00" in x:
            continue
        for c in (1, 2, 3, 4, 5, 8):
            s += ["fopen fopen 11 {D}/l%d r" % i] + ["fgets 11 %d %d %d" % (n % 2, n % 5, c)] * 3 + ["getc getc_unlocked 11 5", "fclose 11"]
            n += 1
    jobs["lines"] = dict(script=s)
    s = ["init", "buf 0 24", "buf 1 24"]
    for ln in (0, 1, 4):
        s.append("mkfile {D}/d%d %s" % (ln, "".join("%02x" % (0x61 + i) for i in range(ln)) or "-"))
    for ln in (0, 1, 4):
        for pos in (0, 1, 3, 4, 5):
            s.append("open open 1 {D}/d%d r 0" % ln)
            for c in (0, 1, 2, 4, 5):
                s += ["lseek 1 %d 0" % pos, "read read 1 0 %d %d" % (c, c), "read read 1 1 %d %d" % (c, c), "read pread 1 0 7 %d %d" % (c, pos), "tell 1"]
            s.append("close 1")
    jobs["ends"] = dict(script=s)
    return jobs


def known_limits():
    """Inputs on which the tracker is known to fall short (see known_findings.json)."""
    return {"fgets-nul": dict(script=["init", "buf 0 24", "mkfile {D}/p 41420043440a4546", "fopen fopen 11 {D}/p r", "fgets 11 0 2 12", "fgets 11 0 9 12"],
                              cfg=dict(nul=1)),
            "recv-peek": dict(script=["init", "buf 0 24", "tcp 1 2 accept", "feed 2 4142434445", "read recv 1 0 0 3 2", "read recv 1 0 4 5 0"])}


DATA = bytes(range(65, 91)) + b"\n" + b"tail\xff end"


def stdio(th):
    jobs = {}
    k = 0
    for bits in range(8 if th else 8):
        for kind in ("file", "pipe"):
            i, o, e = bits & 1, bits & 2, bits & 4
            env = {"POLYTRACKER_STDIN_SOURCE": str(i and 1), "POLYTRACKER_STDOUT_SINK": "1" if o else "0", "POLYTRACKER_STDERR_SINK": "1" if e else "0"}
            if k % 3 == 0:
                env = {kk: v for kk, v in env.items() if v == "1"}
            s = ["init", "buf 0 24", "buf 1 24", "mkfile {D}/z 30313233343536", "open open 99 {D}/z r 0", "read pread 99 1 2 5 1", "lb 1 3 1",
                 "std 1 stdin", "std 2 stdout", "std 3 stderr"]
            if kind == "file":
                s += ["fread fread 1 0 1 2 3", "getc getchar 1 5", "getc getchar_unlocked 1 6", "fgets 1 0 2 9", "getdelim getdelim 1 10 7", "getc fgetc 1 5",
                      "fseek 1 3 0", "getc getc 1 5", "fseek 1 0 2", "getc getchar 1 7"]
            else:
                s += ["getc getchar 1 5", "fread fread 1 0 1 2 3", "getc getchar_unlocked 1 6", "fgets 1 0 2 9", "getdelim getdelim 1 10 7", "getc fgetc 1 5"]
            s += ["write write 3 1 0 9", "putc putc 2 1 66", "fwrite 2 1 1 1 7", "putc fputc 2 0 67", "putc putc 2 5 68", "write write 3 1 3 2", "putc putc 3 1 69"]
            size = [0, len(DATA)]
            jobs["std%d%s" % (bits, kind)] = dict(
                script=s, env=env, stdin=(kind, DATA), out_kind="pipe" if kind == "pipe" else "file",
                cfg=dict({"in": bool(i)}, out=bool(o), err=bool(e), inkind="file" if kind == "file" else "q", insize=size if kind == "file" else [-1, 0], outsize=[0, 0] if kind == "file" else [-1, 0],
                         outkind="file" if kind == "file" else "q", indata=list(DATA)))
            k += 1
    return jobs


def argvs(rng, th):
    jobs = {}
    vecs = [[b"prog"], [b"prog", b"a", b"", b"bcd"], [b""], [b"x" * 300, b"y"], [bytes([255, 1, 128]), b"--opt=1", b"z"],
            [b"p"] + [bytes([65 + i % 26]) * (i % 5) for i in range(40)]]
    if th:
        vecs += [[b"q"] + [bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 20))) for _ in range(rng.randrange(0, 30))] for _ in range(30)]
    k = 0
    for on in ("1", "0", None, "no", "", "2"):
        for v in (vecs if on in ("1", "0", None) else vecs[1:3]):
            env = {} if on is None else {"POLYTRACKER_TAINT_ARGV": on}
            s = ["init", "buf 0 24", "mkfile {D}/p 41424344", "open open 1 {D}/p r 0"] * 1
            line = "argv " + " ".join(a.hex() or "-" for a in v)
            if k % 2:
                s = [s[0], line] + s[1:]
            else:
                s = s + [line]
            s += ["read read 1 0 3 3", "un 900 901 1"]
            cfg = dict(argv=on == "1")
            if k % 4 == 1:
                env["POLYTRACKER_STDIN_SOURCE"] = "1"
                cfg.update({"in": True, "inkind": "q", "insize": [0, 0]})
            jobs["argv%d" % k] = dict(script=s, env=env, cfg=cfg)
            k += 1
    jobs["argv-early"] = dict(script=["argv 6162 63", "init", "buf 0 24", "argv 6162 63 64"], env={"POLYTRACKER_TAINT_ARGV": "1"}, cfg=dict(argv=True))
    return jobs


WANT = {"C05": ("sources", "labels", "srcindex"), "C06": ("sources", "labels", "sinks"), "C07": ("labels",), "C08": ("labels",),
        "C09": ("sources", "labels", "sinks"), "C11": ("sources", "labels", "sinks")}
PARTS = {"C05": ("idx",), "C06": ("sources", "sizes", "sinks"), "C07": (), "C08": (), "C09": ("sinks",), "C11": ("sources", "sizes", "sinks")}


def run(ctx):
    th, pid = ctx.thorough, ctx.pid
    jobs = {}
    if pid != "C11":
        mult = 8 if th else 1
        bfs = {"C05": (["open", "read", "seek", "pread"], ["fopen", "fread", "getc", "fgets", "fseek", "getdelim"]),
               "C06": (["open", "close", "read", "write"], ["fopen", "fclose", "fread", "putc"]),
               "C07": (["open", "read", "write", "lim"], ["fopen", "fread", "fgets", "fwrite", "fseek"]),
               "C08": (["open", "close", "read", "pread"], ["fopen", "fread", "getc", "fgets", "getdelim"]),
               "C09": (["open", "write", "seek", "lim"], ["fopen", "fwrite", "putc", "fseek"])}[pid]
        seqs = []
        for i, ops in enumerate(bfs):
            q = explore(ctx, "+".join(ops), ops, (4 if th else 3) if i == 0 else (5 if th else 4))
            ctx.parts["bfs_sequences_%d" % i] = len(q)
            cap = 700 * mult
            if len(q) > cap:
                q = ctx.rng.sample(q, cap)
            seqs += q
        jobs.update(batch(seqs, "bfs", per=60))
        seqs = []
        for i, (nm, ops) in enumerate([("descriptors", DESC), ("streams", STREAM), ("queues", QUEUE), ("everything", ALL)]):
            seqs += simulate(ctx, nm, ops, 34, 45 * mult, i)
        ctx.parts["simulated_sequences"] = len(seqs)
        jobs.update(batch(seqs, "sim", per=12))
        jobs.update(failing())
        if pid in ("C05", "C07", "C08"):
            jobs.update(edges(th))
        jobs.update(sockets())
        jobs.update(mappings())
        jobs.update(capacity(ctx.rng))
        jobs.update(stdio(th))
        jobs.update(covers())
        if pid == "C06":
            jobs.update(paths())
        if pid == "C09":
            jobs.update(big_outputs())
        if pid in ("C05", "C07", "C08"):
            jobs.update(big_offsets())
            jobs.update(bulk(th))
        if pid in ("C07", "C08"):
            from checks import strs
            jobs.update(strs.jobs_for(ctx, {"sys": None} if pid == "C08" else {"cmp": 400, "find": 200, "sub": 150, "conv": 250, "fmt": 350, "sys": 150, "edge": None}, 0))
        if pid in ("C05", "C08"):
            jobs.update({k: v for k, v in known_limits().items() if pid == "C05" or k == "fgets-nul"})
    else:
        jobs.update(argvs(ctx.rng, th))
        jobs.update(stdio(th))
    for j in jobs.values():
        j["want"] = WANT[pid]
        j["parts"] = PARTS[pid]
        if pid != "C07":
            j.pop("cat", None)
    ctx.traces_of(jobs)
