"""Turns recorded runs into the JSON traces the trace specification reads."""
import hashlib

from lib.run import off, limbs
from lib.tdag import Tdag

INVALID = (1 << 64) - 1
BLOCK = 64      # runs of at least this many source labels are summarised


def size_pair(v):
    return [-1, 0] if v == INVALID else off(v)


def table_of(labels, block=BLOCK):
    """-> (explicit entries, blocks, flagged labels, entry 0 is the untainted one)."""
    table, blocks, cf = [], [], []
    i, n = 1, len(labels)
    dec = Tdag.decode
    while i < n:
        k, a, b, c = dec(labels[i])
        if k == "s":
            j = i + 1
            while j < n:
                v = labels[j]
                if (v >> 63) != 1 or (v & 0xff) != a or ((v & ((1 << 62) - 1)) >> 8) != b + (j - i) or (v >> 62) & 1 != c or c:
                    break
                j += 1
            if j - i >= block:
                blocks.append([i, j - i, a, *off(b)])
                i = j
                continue
            table.append([i, 1, a, *off(b)])
        elif k == "u":
            table.append([i, 2, a, b, 0])
        elif k == "r":
            table.append([i, 3, a, b, 0])
        else:
            table.append([i, 0, a, b, 0])
        if c:
            cf.append(i)
        i += 1
    return table, blocks, cf, 1 if labels and labels[0] == 0 else 0


def index_of(final, table, blocks):
    bits, _ = final["srcindex"]
    inblk = set()
    ib = []
    for b in blocks:
        cnt = sum(1 for x in range(b[0], b[0] + b[1]) if (bits >> x) & 1) if b[1] < 200000 else \
            bin((bits >> b[0]) & ((1 << b[1]) - 1)).count("1")
        ib.append([b[0], cnt])
        bits &= ~(((1 << b[1]) - 1) << b[0])
    idx = []
    while bits:
        low = bits & -bits
        idx.append(low.bit_length() - 1)
        bits ^= low
    return idx, ib


def name_str(b):
    try:
        s = b.decode("ascii")
        if all(32 <= ord(c) < 127 and c not in '"\\' for c in s):
            return s
    except UnicodeDecodeError:
        pass
    return "hex:" + b.hex()


def fn_str(h):
    """function name (hex) as the specification sees it: long names by digest."""
    if h == "-":
        return ""
    return h if len(h) <= 64 else "sha:" + hashlib.sha1(h.encode()).hexdigest()


DEFCFG = dict(argv=False, out=False, err=False, outsize=[0, 0], errsize=[0, 0],
              insize=[-1, 0], inkind="q", outkind="file", errkind="file", indata=[])
CFGKEYS = {"in": False}


def convert(r, name, cfg=None, parts=("sources", "sizes", "sinks", "idx", "functions", "events",
                                     "cflog", "cf")):
    """Recorded run -> trace dict."""
    c = dict(DEFCFG)
    c.update(CFGKEYS)
    c.update(cfg or {})
    for e in r.events:
        if e["op"] == "fent":
            e["name"] = fn_str(e["name"])
    fin = dict(table=[], blocks=[], zero=1)
    f = r.final
    if f is not None:
        t, bl, cf, z = table_of(f["labels"])
        fin.update(table=t, blocks=bl, zero=z)
        if "sec" in parts:
            fin["sec"] = [[t_, al, off(o), off(sz)] for t_, al, o, sz in f["sections"]]
            fin["fsize"] = off(f["filesize"])
        if "cf" in parts:
            fin["cf"] = cf
        if "idx" in parts and "srcindex" in f:
            fin["idx"], fin["idxblocks"] = index_of(f, t, bl)
        if "sources" in parts and "sources" in f:
            fin["sources"] = [[name_str(n), fd] for n, fd, _ in f["sources"]]
        if "sizes" in parts and "sources" in f:
            fin["sizes"] = [size_pair(sz) for _, _, sz in f["sources"]]
        if "sinks" in parts and "sinks" in f:
            fin["sinks"] = [[*off(o), l, i] for o, l, i in f["sinks"]]
        if "functions" in parts and "functions" in f:
            fin["functions"] = [fn_str(x.hex()) for x in f["functions"]]
        if "events" in parts and "events" in f:
            fin["events"] = [list(x) for x in f["events"]]
        if "cflog" in parts and "cflog" in f:
            fin["cflog"] = [[k, limbs(fid), limbs(l or 0)] for k, fid, l in f["cflog"]]
    if r.files and r.status == 0:
        fin["files"] = {p: (list(d) if d is not None else [-1]) for p, d in r.files.items()}
    return dict(name=name, cfg=c, ev=r.events, fin=fin)
