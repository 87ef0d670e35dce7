"""Independent decoder of TDAG files (written from the documented format, does
not use the repository's reader)."""
import struct

TAGS = {1: "sources", 2: "labels", 3: "strings", 4: "sinks", 5: "srcindex",
        6: "functions", 7: "events", 8: "cflog"}


class TdagError(Exception):
    pass


class Tdag:
    def __init__(self, path):
        self.f = open(path, "rb")
        self.f.seek(0, 2)
        self.filesize = self.f.tell()
        head = self._at(0, 8)
        if len(head) < 8 or head[:4] != b"TDAG":
            raise TdagError("bad magic %r" % head[:4])
        self.magic, n = struct.unpack("<HH", head[4:])
        self.sections = []
        self.by = {}
        for i in range(n):
            tag, align, off, size = struct.unpack("<IIQQ", self._at(8 + 24 * i, 24))
            self.sections.append((tag, align, off, size))
            self.by[TAGS.get(tag, tag)] = (off, size)

    def close(self):
        self.f.close()

    def _at(self, off, n):
        self.f.seek(off)
        return self.f.read(n)

    def raw(self, name):
        off, size = self.by[name]
        if size > 1 << 30:
            raise TdagError("section %s has size %d" % (name, size))
        return self._at(off, size)

    def string(self, off):
        base, size = self.by["strings"]
        if off + 2 > size:
            raise TdagError("string offset %d outside table of %d" % (off, size))
        n = struct.unpack("<H", self._at(base + off, 2))[0]
        if off + 2 + n > size:
            raise TdagError("string at %d runs past the table" % off)
        return self._at(base + off + 2, n)

    def sources(self):
        d = self.raw("sources")
        out = []
        for i in range(0, len(d) - 15, 16):
            so, fd, size = struct.unpack("<IiQ", d[i:i + 16])
            out.append((self.string(so), fd, size))
        return out

    def labels(self):
        d = self.raw("labels")
        return list(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))

    @staticmethod
    def decode(v):
        """-> (kind, a, b, cf); kind s: a=source index, b=offset."""
        cf = (v >> 62) & 1
        if v >> 63:
            v &= (1 << 62) - 1
            return ("s", v & 0xff, v >> 8, cf)
        v &= (1 << 62) - 1
        a, b = v >> 31, v & 0x7fffffff
        if a == b:
            return ("z", a, b, cf)
        return ("u" if a > b else "r", a, b, cf)

    def sinks(self):
        d = self.raw("sinks")
        return [struct.unpack("<qIB", d[i:i + 13]) for i in range(0, len(d) - 15, 16)]

    def srcindex(self):
        d = self.raw("srcindex")
        return int.from_bytes(d, "little"), len(d) * 8

    def functions(self):
        d = self.raw("functions")
        return [self.string(x) for x in struct.unpack("<%dI" % (len(d) // 4), d)]

    def events(self):
        d = self.raw("events")
        return [(d[i], struct.unpack("<H", d[i + 2:i + 4])[0]) for i in range(0, len(d) - 3, 4)]

    def cflog(self):
        """-> list of (event, function id, label or None)."""
        d = self.raw("cflog")
        out, i = [], 0

        def varint(i):
            v = s = 0
            while True:
                if i >= len(d):
                    raise TdagError("truncated varint")
                b = d[i]
                v |= (b & 0x7f) << s
                s += 7
                i += 1
                if not b & 0x80:
                    return v, i
        while i < len(d):
            k = d[i]
            if k > 2:
                raise TdagError("unknown control flow event %d" % k)
            fid, i = varint(i + 1)
            lab = None
            if k == 2:
                lab, i = varint(i)
            out.append((k, fid, lab))
        return out
