"""Writes small TDAG files: from explicit contents, or the sections of a recorded one."""
import struct

ORDER = ["sources", "labels", "strings", "sinks", "srcindex", "functions", "events", "cflog"]
TAG = {n: i + 1 for i, n in enumerate(ORDER)}
ALIGN = {"sources": 8, "labels": 8, "strings": 2, "sinks": 8, "srcindex": 8, "functions": 4, "events": 2, "cflog": 1}


def assemble(sections, magic=1, order=None):
    order = order or ORDER
    head = b"TDAG" + struct.pack("<HH", magic, len(order))
    at = 8 + 24 * len(order)
    metas, body = b"", b""
    for n in order:
        d = sections.get(n, b"")
        pad = -at % 16
        body += b"\0" * pad + d
        at += pad
        metas += struct.pack("<IIQQ", TAG[n], ALIGN[n], at, len(d))
        at += len(d)
    return head + metas + body


def varint(v):
    out = b""
    while True:
        b = v & 0x7f
        v >>= 7
        if v:
            out += bytes([b | 0x80])
        else:
            return out + bytes([b])


def source_label(idx, off, cf=0):
    return (1 << 63) | (cf << 62) | (off << 8) | idx


def union_label(a, b, cf=0):
    assert a > b
    return (cf << 62) | (a << 31) | b


def range_label(a, b, cf=0):
    assert a < b
    return (cf << 62) | (a << 31) | b


class Writer:
    """sources [(name bytes, fd, size or -1)], labels [words, without 0], sinks [(off, label, idx)],
    functions [names], events [(kind, idx)], cflog [(kind, fid, label)]"""

    def __init__(self, sources=(), labels=(), sinks=(), functions=(), events=(), cflog=()):
        st, off = b"", {}

        def s(b):
            nonlocal st
            o = len(st)
            st += struct.pack("<H", len(b)) + b
            if len(st) % 2:
                st += b"\0"
            return o
        src = b"".join(struct.pack("<IiQ", s(n), fd, sz if sz >= 0 else (1 << 64) - 1) for n, fd, sz in sources)
        lb = struct.pack("<%dQ" % (len(labels) + 1), 0, *labels)
        bits = 0
        for i, w in enumerate(labels):
            if w >> 63:
                bits |= 1 << (i + 1)
        nb = (bits.bit_length() + 63) // 64
        sk = b"".join(struct.pack("<qIBxxx", o, l, i) for o, l, i in sinks)
        fn = b"".join(struct.pack("<I", s(n)) for n in functions)
        ev = b"".join(struct.pack("<BxH", k, i) for k, i in events)
        cf = b""
        for k, f, l in cflog:
            cf += bytes([k]) + varint(f) + (varint(l) if k == 2 else b"")
        self.sections = dict(sources=src, labels=lb, strings=st, sinks=sk, srcindex=bits.to_bytes(nb * 8, "little"),
                             functions=fn, events=ev, cflog=cf)

    def bytes(self, **kw):
        return assemble(self.sections, **kw)


def compact(path, to):
    from lib.tdag import Tdag
    t = Tdag(path)
    secs = {}
    for n in ORDER:
        if n in t.by:
            secs[n] = t.raw(n)
    t.close()
    with open(to, "wb") as f:
        f.write(assemble(secs))
    return to
