"""Runs requests against the repository's Python code (in the interpreter that has
its dependencies).  usage: pydrv.py REQUESTS.json RESULTS.json"""
import json
import os
import signal
import sys
import tempfile

HANDLERS = {}


def handler(f):
    HANDLERS[f.__name__] = f
    return f


def limbs(v):
    return [(v >> (16 * i)) & 0xffff for i in range(4)]


def off(v):
    return [-1, 0] if v < 0 else [v >> 27, v & ((1 << 27) - 1)]


class Opened:
    def __init__(self, q):
        self.q = q

    def __enter__(self):
        fd, self.p = tempfile.mkstemp(prefix="ptvpy")
        os.write(fd, bytes.fromhex(self.q["hex"]))
        os.close(fd)
        self.f = open(self.p, "rb")
        return self.f

    def __exit__(self, *a):
        self.f.close()
        os.unlink(self.p)


def tla_limbs(v):
    return "<<" + ", ".join(map(str, limbs(v))) + ">>"


@handler
def cflog(q):
    from polytracker.taint_dag import (TDFile, TDControlFlowLogSection, TDEnterFunctionEvent, TDLeaveFunctionEvent,
                                       TDTaintedControlFlowEvent)

    def kind(e):
        return 0 if isinstance(e, TDEnterFunctionEvent) else 1 if isinstance(e, TDLeaveFunctionEvent) else 2

    class M(dict):
        def __missing__(self, k):
            return tla_limbs(k)

        def __ne__(self, o):
            return True
    with Opened(q) as f:
        td = TDFile(f)
        sec = td.sections_by_type[TDControlFlowLogSection]
        got = [[kind(e), [limbs(x) for x in e.callstack], limbs(getattr(e, "label", 0))] for e in sec]
        again = [[kind(e), [limbs(x) for x in e.callstack], limbs(getattr(e, "label", 0))] for e in sec]
        sec.function_id_mapping(M())
        named = [[kind(e), list(e.callstack), limbs(getattr(e, "label", 0))] for e in sec]
        return dict(got=got, again=again, named=named)


@handler
def words(q):
    from polytracker.taint_dag import TDFile, TDSourceNode, TDUnionNode, TDRangeNode

    def show(n):
        k, a, b = ((1, n.idx, n.offset) if isinstance(n, TDSourceNode) else (2, n.left, n.right) if isinstance(n, TDUnionNode)
                   else (3, n.first, n.last) if isinstance(n, TDRangeNode) else (0, 0, 0))
        return [k, limbs(a), limbs(b), int(bool(n.affects_control_flow))]
    with Opened(q) as f:
        td = TDFile(f)
        return dict(nodes=[show(td.decode_node(i)) for i in range(1, td.label_count)], all=[show(n) for n in td.nodes])


@handler
def trace(q):
    """everything the reader says about a trace (numbers of the file are translated back by q["nums"])"""
    import contextlib
    import io
    from polytracker.mapping import InputOutputMapping, FileCavities
    from polytracker.taint_dag import TDFile, TDProgramTrace, TDSourceNode, TDUnionNode, TDRangeNode
    from polytracker.tracing import ProgramTrace
    back = {v: i for i, v in q["nums"]}
    names = {n: i for i, n in enumerate(q["names"])}

    def num(v):
        return back.get(v, -7)

    def name(p):
        return names.get(os.fsencode(str(p)).hex(), -7)

    def show(n):
        if isinstance(n, TDSourceNode):
            return [1, n.idx, num(n.offset), int(bool(n.affects_control_flow))]
        if isinstance(n, TDUnionNode):
            return [2, n.left, n.right, int(bool(n.affects_control_flow))]
        if isinstance(n, TDRangeNode):
            return [3, n.first, n.last, int(bool(n.affects_control_flow))]
        return [0, 0, 0, 0]

    def bytes_of(ts):
        return [[b.source.uid, name(b.source.path), num(b.offset)] for b in ts]

    r = {}
    want = q["want"]
    with Opened(q) as f:
        td = TDFile(f)
        if "C18" in want:
            r["sources"] = [[name(p), h.fd, -1 if h.invalid_size() else num(h.size)] for p, h in td.fd_headers]
            r["count"] = td.label_count
            r["nodes"] = [show(n) for n in td.nodes]
            for i in range(1, td.label_count):      # asked for again and out of order
                j = td.label_count - i
                if show(td.decode_node(j)) != r["nodes"][j - 1]:
                    r["nodes"] = []
                    break
            r["inputlabels"] = list(td.input_labels())
            r["sinks"] = [[num(s.offset), s.label, s.fdidx] for s in td.sinks]
            r["functions"] = [name(n) for n, _ in td.fn_headers]
            r["events"] = [[e.kind, e.fnidx] for e in td.events]
    with Opened(q) as f:
        if "C18" in want or "C20" in want:
            t = TDProgramTrace(f)
            fo = t.taint_forest
        if "C18" in want:
            r["outputs"] = [[o.source.uid, name(o.source.path), num(o.offset), o.label] for o in t.output_taints]
            r["inputs"] = [[i.uid, name(i.path)] for i in t.inputs]
            first = fo.get_node(td.label_count - 1)
            ns = list(fo.nodes())
            r["same"] = fo.get_node(td.label_count - 1) is first and all(fo.get_node(n.label) is n for n in ns) \
                and len(fo) == len(ns) and all(a is b for a, b in zip(ns, fo.nodes())) and len(list(fo)) == len(ns)
            r["forest"] = []
            for n in ns:
                ps = [p.label for p in (n.parent_one, n.parent_two) if p is not None]
                if sorted(ps) != sorted(n.parent_labels or ()) or n.is_canonical() != (not ps):
                    ps = [-999999]
                r["forest"].append([n.label, ps, bytes_of([t.file_offset(n)]) if n.source is not None else [], int(bool(n.affected_control_flow))])
            g = fo.to_graph()
            r["edges"] = [list(e) for e in g.edges]
            if set(g.nodes) != {n.label for n in ns}:
                r["edges"] = [[-999999, -999999]]
        if "C20" in want:
            r["icf"] = bytes_of(t.inputs_affecting_control_flow())
            r["icfbase"] = bytes_of(ProgramTrace.inputs_affecting_control_flow(t))
            r["taints"] = [bytes_of(t.taints([fo.get_node(l) for l in ls])) for ls in q["queries"]]
    if "C19" in want:
        with Opened(q) as f:
            m = InputOutputMapping(TDFile(f))
            r["mapping"] = [[name(a), num(b), name(c), num(d)] for (a, b), s in m.mapping().items() for c, d in s]
            if q["cavities"]:
                r["cavities"] = [[name(p), [[num(a), num(b)] for a, b in cs]] for p, cs in m.file_cavities().items()]
        if q["cavities"]:
            class A:
                print_bytes = False
            with Opened(q) as f:
                A.POLYTRACKER_TF = f.name
                out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", errors="surrogateescape", newline="\n", write_through=True)
                with contextlib.redirect_stdout(out):
                    FileCavities.run(object.__new__(FileCavities), A)
                out.flush()
                r["printed"] = []
                for line in out.buffer.getvalue().split(b"\n")[:-1]:
                    p, a, b = line.rsplit(b",", 2)
                    r["printed"].append([names.get(p.hex(), -7), num(int(a)), num(int(b))])
    return r


@handler
def taints(q):
    from polytracker.inputs import Input
    from polytracker.tracing import ByteOffset, Taints
    keys = {(u, p): i + 1 for i, (u, p) in enumerate(q["srcs"])}

    def inp(i):      # a new, equal object every time, as the readers make them
        u, p = q["srcs"][i - 1]
        return Input(u, p, len(q["content"][i - 1]), content=bytes(q["content"][i - 1]))

    def src(x):
        return keys.get((x.uid, x.path), -7)

    def b(x):
        return [src(x.source), x.offset] if x.length == 1 else [-7, -7]

    def g(x):
        return [src(x.source), x.offset, x.length]
    a = [ByteOffset(inp(s), o) for s, o in q["a"]]
    t = Taints(iter(a))
    u = Taints([ByteOffset(inp(s), o) for s, o in q["b"]])
    n = len(q["srcs"])
    r = dict(sources=[src(x) for x in t.sources()], len=len(t), bool=bool(t), iter=[b(x) for x in t])
    r["from"] = [[b(x) for x in t.from_source(inp(i))] for i in range(1, n + 1)]
    rs = list(t.regions())
    r["regions"] = [g(x) for x in rs]
    seen, dist = set(), []
    for x, k in zip(a, map(tuple, q["a"])):
        if k not in seen:
            seen.add(k)
            dist.append(x)
    r["toreg"] = [g(x) for x in Taints.to_regions(dist)]
    r["values"] = [list(bytes(x)) for x in rs]
    r["find"], r["contains"] = [], []
    for p in q["pats"]:
        pb = bytes(p)
        got = []
        for x in t.find(pb):
            got.append(g(x))
            if len(got) > 500:
                break
        if len(p) == 1:
            one = []
            for x in t.find(p[0]):
                one.append(g(x))
                if len(one) > 500:
                    break
            if one != got:
                got = [[-7, -7, -7]]
        if all(c < 128 for c in p):
            if (pb.decode() in t) != (pb in t):
                got = [[-7, -7, -7]]
        r["find"].append(got)
        r["contains"].append(pb in t)
    d = t.diff(u)
    r["rfirst"] = [g(x) for x in d.regions_only_in_first]
    r["first"] = [b(x) for x in d.bytes_only_in_first]
    r["second"] = [b(x) for x in d.bytes_only_in_second]
    r["rsecond"] = [g(x) for x in d.regions_only_in_second]
    r["differ"] = bool(t.diff(u))
    z = lambda v: None if v == 99 else v
    r["slices"] = [[g(x[z(f):z(e)]) for f, e in q["slices"]] for x in rs]
    r["items"] = [[g(x[i]) for i in range(x.length)] for x in rs]
    for x in rs:
        try:
            x[x.length]
            r["items"] = []
        except IndexError:
            pass
    return r


@handler
def cache(q):
    from polytracker.cache import LRUCache, Memoized, OrderedSet, memoize
    ev = []
    if q["what"] == "memo":
        count = 0
        plan = None

        def f(*a, **kw):
            nonlocal count
            count += 1
            if plan[0] == "raise":
                raise GeneratorExit() if plan[1] else LookupError()
            if a != (4,) or kw != {"x": 5}:
                return -7
            return None if plan[1] == 2 else plan[1]
        m = memoize(f) if q["i"] % 2 else Memoized(f)
        for op in q["ops"]:
            plan = op
            try:
                v = m(4, x=5)
                ev.append(dict(op=op, r=["v", v if isinstance(v, int) else 2 if v is None else -7, count]))
            except (LookupError, GeneratorExit):
                ev.append(dict(op=op, r=["raised", 0, count]))
        return dict(ev=ev)
    # keys and values of several types; equal ones need not be the same object
    if q["i"] % 3 == 0:
        enc, dec = (lambda k: k), (lambda k: k)
    elif q["i"] % 3 == 1:
        enc, dec = (lambda k: ("k", str(k) * 3)), (lambda k: int(k[1][0]) if len(k[1]) == 3 else -7)
    else:
        enc, dec = (lambda k: None if k == 1 else float(k)), (lambda k: 1 if k is None else int(k))
    if q["what"] == "lru":
        c = LRUCache(max_size=None if q["max"] < 0 else q["max"])
        for op in q["ops"]:
            k = op[1] if op[0] in ("iter", "len", "items", "clear") else enc(op[1])
            try:
                if op[0] == "set":
                    c[k] = op[2]
                    r = ["none"]
                elif op[0] == "get":
                    r = ["v", c[k] if len(ev) % 2 else c.get(k)]
                elif op[0] == "getd":
                    r = ["v", c.get(k, op[2]) if len(ev) % 2 else c.get(k, default=op[2])]
                elif op[0] == "has":
                    r = ["v", int(k in c)]
                elif op[0] == "del":
                    del c[k]
                    r = ["none"]
                elif op[0] == "pop":
                    r = ["v", c.pop(k)]
                elif op[0] == "sdef":
                    r = ["v", c.setdefault(k, op[2])]
                elif op[0] == "len":
                    r = ["v", len(c)]
                elif op[0] == "iter":
                    r = []
                    it = iter(c)
                    while len(r) < op[1]:
                        try:
                            r.append(dec(next(it)))
                        except StopIteration:
                            break
                elif op[0] == "items":
                    r = [[dec(a), b] for a, b in c.items()]
                    if [b for _, b in r] != list(c.values()):
                        r = [[-7, -7]]
                elif op[0] == "clear":
                    c.clear()
                    r = ["none"]
            except KeyError:
                r = ["KeyError"]
            ev.append(dict(op=op, r=r, now=[[dec(a), b] for a, b in list(c.items())]))
        return dict(ev=ev)
    c = OrderedSet()
    for op in q["ops"]:
        k = enc(op[1]) if op[0] in ("add", "discard", "remove", "in") else op[1]
        o = OrderedSet(*map(enc, op[1])) if isinstance(op[1], list) else None
        r = ["none"]
        try:
            if op[0] == "add":
                c.add(k)
            elif op[0] == "discard":
                c.discard(k)
            elif op[0] == "remove":
                c.remove(k)
            elif op[0] == "in":
                r = ["v", int(k in c)]
            elif op[0] == "olen":
                r = ["v", len(c) if bool(c) == bool(len(c)) else -7]
            elif op[0] == "list":
                r = [dec(x) for x in c]
                if str(c) != "{" + ", ".join(map(str, c)) + "}":
                    r = [-7]
            elif op[0] == "or":
                r = [dec(x) for x in c | o]
            elif op[0] == "sub":
                r = [dec(x) for x in c - o]
            elif op[0] == "xor":
                r = [dec(x) for x in c ^ o]
            elif op[0] == "and":
                r = [dec(x) for x in c & o]
            elif op[0] == "ior":
                c |= o
            elif op[0] == "isub":
                c -= o
            elif op[0] == "iand":
                c &= o
            elif op[0] == "le":
                r = ["v", int(c <= o)]
            elif op[0] == "eq":
                r = ["v", int(c == o) if (c == o) != (c != o) else -7]
            elif op[0] == "disj":
                r = ["v", int(c.isdisjoint(o))]
            elif op[0] == "oclear":
                c.clear()
        except KeyError:
            r = ["KeyError"]
        ev.append(dict(op=op, r=r, now=[dec(x) for x in c]))
    return dict(ev=ev)


@handler
def grammar(q):
    """Parses words with a grammar, or edits it and dumps it after every edit."""
    import itertools
    import polytracker.grammars as G
    from polytracker.parsing import Terminal
    quiet(G)
    enc = {k: bytes([v]) for k, v in q["enc"].items()}
    dec = {v: k for k, v in enc.items()}

    def rule(g, r):
        return G.Rule(g, *[x if x.startswith("<") else Terminal(enc[x]) for x in r])

    def word(w, i):
        b = b"".join(enc[c] for c in w)
        if i % 2:
            try:
                if b.decode("utf-8").encode("utf-8") == b:
                    return b.decode("utf-8")
            except UnicodeDecodeError:
                pass
        return b

    def tree(t):
        v = t.value
        if isinstance(v, Terminal):
            return [dict(n="", t=dec.get(bytes([b]), "?"), c=[]) for b in v.terminal]
        if isinstance(v, G.Rule):
            # a rule: either a leading marker or the node that holds the children
            return [x for c in t.children for x in tree(c)]
        return [dict(n=v.name, t="", c=kids(t))]

    def kids(t):
        c = list(t.children)
        if c and not list(c[0].children) and (isinstance(c[0].value, G.Rule) or c[0].value is t.value) and len(c) >= 1:
            c = c[1:]
        return [x for k in c for x in tree(k)]

    def ask(g, ws, trees):
        out = []
        for i, w in enumerate(ws):
            m = g.match(word(w, i))
            acc = None
            if i % 3:
                try:
                    acc = bool(m)
                except ValueError:
                    acc = False
            ts = []
            if trees:
                try:
                    ts = [tree(t)[0] for t in itertools.islice(iter(m), q["cap"])]
                except ValueError:
                    pass
            if acc is None:
                try:
                    acc = bool(m)
                except ValueError:
                    acc = False
            first = True
            if acc and trees and len(ts) < q["cap"]:
                p = m.parse_tree
                first = p is not None and tree(p)[0] in ts
            out.append(dict(w=w, acc=acc, trees=ts, first=first))
        return out

    def flat(r):
        o = []
        for x in r.sequence:
            o += [dec.get(bytes([b]), "?") for b in x.terminal] if isinstance(x, Terminal) else [x]
        return o
    def damage(g):
        """The damages of which verification says nothing."""
        bad = []

        def probe(what):
            try:
                g.verify(False)
                bad.append(what)
            except G.GrammarError:
                pass
        for x in list(g.productions):
            users = sorted(g.used_by[x])
            if set(users) - {x}:
                p = g.productions.pop(x)
                probe("undefined " + x)
                g.productions[x] = p
            for u in users:
                g.used_by[x].discard(u)
                probe("not used " + x)
                g.used_by[x].add(u)
            g.used_by[x].add("<no>")
            probe("used by an undefined one " + x)
            g.used_by[x].discard("<no>")
        g.used_by["<no>"] = set()
        probe("unknown in the table")
        del g.used_by["<no>"]
        return bad
    g = G.Grammar()
    if q["load"]:
        # an empty terminal changes nothing
        eps = [""] if not q["ops"] and q["fixed"] else []
        g.load({x: [eps + [y if y.startswith("<") else enc[y].decode() for y in r] for r in rs] for x, rs in q["rules"].items()})
    else:
        for x, rs in q["rules"].items():
            G.Production(g, x, *[rule(g, r) for r in rs])
    g.start = g["<S>"]
    if q["fixed"]:
        g.start.removable = False
        if q["load"]:
            for x in list(g.productions)[:2]:
                g[x].removable = False
    if not q["ops"]:
        return dict(words=ask(g, q["words"], True))
    out = []
    for op in q["ops"]:
        k, x, y, r = op
        e = dict(op=op, error="", asked=False, words=[], verify="", added=False, damage=[], held=True, kept=True)
        try:
            if k != "new" and any(z and z not in g for z in (x, y)) or k == "new" and x in g or any(z.startswith("<") and z not in g and not (k == "new" and z == x) for z in r) or x == "<S>" and k == "rm":
                continue
            if k == "add":
                e["added"] = g[x].add(rule(g, r))
            elif k == "rsp":
                if x not in g.used_by[y]:
                    continue
                g[x].remove_sub_production(y)
            elif k == "new":
                G.Production(g, x, rule(g, r))
            elif k == "rm":
                g.remove(x if len(out) % 2 else g[x])
            elif k == "rep":
                g[x].replace_sub_production(y, rule(g, r))
            elif k == "repnt":
                g[x].replace_sub_production(y, r[0])
            elif k == "simp":
                stay = [p.name for p in g if not p.removable]
                g.simplify()
                e["kept"] = all(x in g for x in stay)
            if k in ("query", "simp"):
                e["asked"] = True
                try:
                    e["words"] = [dict(w=a["w"], acc=a["acc"]) for a in ask(g, q["words"], False)]
                except RecursionError:
                    raise
            try:
                g.verify()
            except G.GrammarError as ex:
                e["verify"] = type(ex).__name__
            e["rules"] = {p: [flat(z) for z in g[p]] for p in g.productions}
            e["used"] = {p: sorted(g.used_by[p]) for p in g.productions}
            e["held"] = all(G.Rule(g, *z.sequence) in p for p in g for z in p) and all(len({z.sequence for z in p}) == len(p) for p in g)
        except Exception as ex:
            e["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:100])
            e["rules"], e["used"] = {"<S>": []}, {"<S>": []}
        out.append(e)
        if e["error"]:
            break
    if out and not out[-1]["error"] and out[-1]["verify"] in ("", "DisconnectedGrammarError"):
        out[-1]["damage"] = damage(g)
    return dict(edits=out)


def make_exec(q):
    """A program trace built from operations (the environment of the analyses)."""
    import polytracker.tracing as X
    from polytracker.inputs import Input
    inp = bytes(q["inp"])
    base, step = q["uids"]

    class Fn(X.Function):
        def taints(self):
            raise NotImplementedError()
        calls_to = called_from = taints

    class Blk(X.BasicBlock):
        def taints(self):
            raise NotImplementedError()
        entries = taints

    class Mix:
        @property
        def previous_event(self):
            return self.tr.ev[self.i - 2] if self.i > 1 else None

        @property
        def next_event(self):
            return self.tr.ev[self.i] if self.i < len(self.tr.ev) else None
        next_global_event = next_event
        previous_global_event = previous_event

        @property
        def function_entry(self):
            return self.tr.ev[self.fr - 1] if self.fr else None

        def taints(self):
            return X.Taints(X.ByteOffset(self.tr.src, o) for o in self.bytes)

    class Enter(Mix, X.FunctionEntry):
        @property
        def function_return(self):
            return self.ret

    class Block(Mix, X.BasicBlockEntry):
        @property
        def basic_block(self):
            return self.blk

    class Ret(Mix, X.FunctionReturn):
        @property
        def basic_block(self):
            return self.blk

    class Noise(Mix, X.TraceEvent):
        @property
        def basic_block(self):
            return self.blk

    class Access(X.TaintAccess):
        def __init__(self, n, e, src, offs):
            super().__init__(n, e, n, X.ByteAccessType.READ_ACCESS)
            self.src, self.offs = src, offs

        def taints(self):
            return X.Taints(X.ByteOffset(self.src, o) for o in self.offs)

    class Trace(X.ProgramTrace):
        def __init__(self):
            self.src = Input(uid=1, path="in", size=len(inp), content=inp)
            self.other = Input(uid=2, path="other", size=len(inp), content=inp)
            self.ev, self.fns, self.blks, self.acc, st = [], {}, {}, [], []
            last = None
            for o in q["ops"]:
                k = o[0]
                if k in "ced":
                    e = self.put(Enter, "e", o[1], 0, len(self.ev) + 1)
                    e.ret = None
                    st.append(e.i)
                    if k == "d":
                        self.put(Noise, "n", 0, 0, e.i).blk = None
                    if k != "e":
                        last = self.put(Block, "b", o[1], 0, e.i)
                elif k == "b":
                    last = self.put(Block, "b", self.ev[st[-1] - 1].f, o[1], st[-1])
                elif k in "xy":
                    t = st.pop()
                    r = self.put(Ret, "x", self.ev[t - 1].f, 0, t)
                    r.blk = last.blk
                    self.ev[t - 1].ret = r
                    if k == "y":
                        self.put(Noise, "n", 0, 0, st[-1] if st else 0).blk = last.blk
                    if st:
                        last = self.put(Block, "b", self.ev[st[-1] - 1].f, o[1], st[-1])
                elif k in "rq":
                    rg = list(range(o[1], o[1] + o[2]))
                    if k == "r":
                        last.bytes += rg
                    self.acc.append(Access(len(self.acc), last, self.src if k == "r" else self.other, rg))
                else:
                    self.put(Noise, "n", 0, 0, st[-1] if st else 0).blk = last.blk

        def put(self, cls, k, f, b, fr):
            e = cls(base + step * len(self.ev))
            e.tr, e.k, e.f, e.b, e.fr, e.bytes = self, k, f, b, fr, []
            self.ev.append(e)
            e.i = len(self.ev)
            if k in "be":
                if f not in self.fns:
                    self.fns[f] = Fn("f%d" % f, len(self.fns))
            if k == "b":
                if (f, b) not in self.blks:
                    self.blks[f, b] = Blk(self.fns[f], b)
                e.blk = self.blks[f, b]
            return e

        def __len__(self):
            return len(self.ev)

        def __iter__(self):
            return iter(self.ev)
        functions = property(lambda self: list(self.fns.values()))
        basic_blocks = property(lambda self: list(self.blks.values()))
        inputs = property(lambda self: [self.src])
        num_accesses = property(lambda self: len(self.acc))
        outputs = output_taints = taint_forest = property(lambda self: None)

        def access_sequence(self):
            return iter(self.acc)

        def get_event(self, uid):
            return self.ev[(uid - base) // step]
        __getitem__ = get_event

        def has_event(self, uid):
            return (uid - base) % step == 0 and 0 <= (uid - base) // step < len(self.ev)
        __contains__ = has_event

        def get_function(self, name):
            return {f.name: f for f in self.fns.values()}[name]

        def has_function(self, name):
            return name in [f.name for f in self.fns.values()]

        def file_offset(self, node):
            raise NotImplementedError()
    return Trace(), inp, lambda e: 0 if e is None else (e.uid - base) // step + 1


@handler
def events(q):
    """Navigation over the events of an execution."""
    import polytracker.tracing as X
    tr, inp, u = make_exec(q)
    nav = []
    for e in tr.ev:
        v = dict(ncf=u(e.next_control_flow_event), pcf=u(e.previous_control_flow_event))
        if e.k == "e":
            n = X.FunctionInvocation(e)
            v.update(caller=u(e.caller), entry=u(e.entrypoint), fn=e.function.name if e.entrypoint is not None else "", calls=[u(c) for c in n.calls()],
                     bbs=[u(b) for b in n.basic_blocks()], iter=[u(x) for x in n], taints=sorted(o.offset for o in n.taints()), touched=n.touched_taint,
                     ret=u(n.function_return))
        elif e.k == "b":
            v.update(count=e.entry_count(), called=u(e.called_function), nbb=u(e.next_basic_block_in_function()),
                     ntbb=u(e.next_basic_block_in_function_that_touched_taint()), fn=e.function.name, tokens=[list(t) for t in e.consumed_tokens])
        elif e.k == "x":
            try:
                f = e.returning_from.name
            except ValueError:
                f = ""
            v.update(to=u(e.returning_to), **{"from": f})
        nav.append(v)
    ft = list(tr.function_trace())
    inv = [X.FunctionInvocation(e) for e in ft]
    mixed = list(reversed(tr.ev[::2])) + tr.ev[1::2]
    p = tr.input_properties(tr.src)
    return dict(events=[[e.k, e.f, e.b, e.fr] for e in tr.ev], nav=nav, same=[[a.i, b.i] for a in tr.ev for b in tr.ev if a == b and hash(a) == hash(b)],
                invsame=[[u(a), u(b)] for a in inv for b in (X.FunctionInvocation(e) for e in ft) if a == b], order=[e.i for e in sorted(mixed)], ftrace=[u(e) for e in ft], ncalls=tr.num_function_calls(), nbbs=tr.num_basic_block_entries(),
                entry=u(tr.entrypoint), nfe0=u(tr.next_function_entry()), nfe=[u(tr.next_function_entry(e)) for e in ft],
                unused=list(p.unused_byte_offsets), ooo=list(p.out_of_order_byte_offsets), seeks=[list(x) for x in p.file_seeks])


@handler
def extract(q):
    """The parse tree and the grammar of an execution."""
    import logging
    import polytracker.grammars as G
    import polytracker.parsing as P
    logging.disable(logging.CRITICAL)
    quiet(G)
    quiet(P)

    def listing(t, names=False):
        out, num = [], {}

        def walk(n):
            i = len(out)
            num[id(n)] = i + 1
            v = n.value
            k = "S" if isinstance(v, P.Start) else "t" if isinstance(v, P.Terminal) else "b" if isinstance(v, P.BasicBlockEntry) else "f"
            d = dict(k=k, u=u(v) if k in "bf" else 0, t=list(v.terminal) if k == "t" else [], b=n.begin_offset, e=n.end_offset, c=[], name="")
            if k in "bf":
                d["name"] = G.production_name(v)
            elif k == "S":
                d["name"] = "<START>"
            out.append(d)
            for c in n.children:
                d["c"].append(walk(c))
            return i + 1
        walk(t)
        return out, num
    tr, inp, u = make_exec(q)
    tree = P.trace_to_non_generalized_tree(tr)
    T, num = listing(tree)
    r = dict(tree=T, matches=list(tree.matches()), post=[num[id(n)] for n in tree.postorder_traversal()], leaves=[num[id(n)] for n in tree.leaves()],
             desc=tree.descendants, dag=[[num[id(a)], num[id(b)]] for a, b in tree.to_dag().edges])
    pre = [num[id(n)] for n in tree.preorder_traversal()]
    if pre != list(range(1, len(T) + 1)):
        raise ValueError("preorder")

    def verify(b):
        try:
            tree.verify(b)
            return True
        except ValueError:
            return False
    r["verified"] = verify(inp)
    r["verwrong"] = any(verify(inp[:i] + bytes([inp[i] ^ 1]) + inp[i + 1:]) for i in range(len(inp)))
    g = G.parse_tree_to_grammar(tree)
    r["start"] = g.start.name
    r["rules"] = [[p.name, [[dict(n="", t=list(x.terminal)) if isinstance(x, P.Terminal) else dict(n=x, t=[]) for x in rule.sequence] for rule in p.rules]] for p in g]
    g.verify(True)
    r["acc"] = bool(g.match(inp))
    g.simplify()
    r["accs"] = bool(g.match(inp))
    c = tree.clone()
    r["clone"] = listing(c)[0]
    c.simplify()
    r["simp"] = listing(c)[0]
    r["after"] = listing(tree)[0]
    r["ext"] = bool(G.extract([make_exec(q)[0]]).match(inp))
    r["exts"] = bool(G.extract([make_exec(q)[0]], simplify=True).match(inp))
    return r


@handler
def graph(q):
    """Queries about a directed graph."""
    import math
    from polytracker.graphs import DiGraph, DAG, non_disjoint_union_all
    enc, dec = [(lambda v: v, lambda v: v), (lambda v: "n%d" % v, lambda v: int(v[1:])), (lambda v: (0, -v), lambda v: -v[1])][q["style"]]
    # larger numbers than the interpreter keeps as single objects
    if q["style"] == 0:
        enc, dec = (lambda v: v * 100003), (lambda v: v // 100003)
    N = q["nodes"]

    def make(cls=DiGraph):
        g = cls()
        if q["order"]:
            g.add_nodes_from(enc(v) for v in reversed(N))
        else:
            g.add_nodes_from(enc(v) for v in N)
        for a, b in q["edges"]:
            g.add_edge(enc(a), enc(b))
        if q["given"]:
            g.set_roots([enc(v) for v in q["roots"]])
        return g
    g = make()

    def num(v):
        return -1 if v == math.inf else v
    r = {}
    if q["order"]:
        r["forest"] = [[dec(a), dec(b)] for a, b in g.dominator_forest.edges]
    r["dist"] = [[num(g.path_length(enc(a), enc(b))) for b in N] for a in N]
    r["roots"] = [dec(v) for v in g.roots]
    r["depth"] = [num(g.depth(enc(v))) if r["roots"] else 0 for v in N]
    r["anc"] = [[dec(v) for v in g.ancestors(enc(n))] for n in N]
    r["desc"] = [[dec(v) for v in g.descendants(enc(n))] for n in N]
    r["one"] = [g.has_one_predecessor(enc(n)) for n in N]
    r["again"] = [[dec(a), dec(b)] for a, b in g.dominator_forest.edges]
    r.setdefault("forest", r["again"])
    o = DiGraph()
    o.add_edges_from((enc(a), enc(b)) for a, b in q["other"])
    r["union"] = [[dec(a), dec(b)] for a, b in non_disjoint_union_all(g, o).edges]
    return r


def quiet(mod):
    """No progress bars."""
    class Bar:
        def __init__(self, it=None, *a, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def update(self, *a):
            pass

        write = set_postfix = set_description = close = update
    for n, b in (("tqdm", Bar), ("trange", lambda *a, **k: range(*[x for x in a if isinstance(x, int)]))):
        if hasattr(mod, n):
            setattr(mod, n, b)


def main():
    reqs = json.load(open(sys.argv[1]))
    out = []

    def late(*a):
        raise TimeoutError("no answer within the time limit")
    signal.signal(signal.SIGALRM, late)
    sys.setrecursionlimit(5000)
    lates = 0
    for q in reqs:
        signal.setitimer(signal.ITIMER_REAL, q.get("limit", 20) if lates < 2 else 2 if lates < 8 else 0.3)
        try:
            r = HANDLERS[q["kind"]](q)
            json.dumps(r)
        except BaseException as ex:
            if isinstance(ex, KeyboardInterrupt):
                raise
            r = {"error": "%s: %s" % (type(ex).__name__, str(ex)[:200])}
            lates += isinstance(ex, TimeoutError)
        signal.setitimer(signal.ITIMER_REAL, 0)
        out.append(r)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
