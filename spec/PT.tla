--------------------------------- MODULE PT ---------------------------------
(* The tracker as a state machine over observable operations.                 *)
(*                                                                            *)
(* A state is one record s; every operation the instrumented program performs *)
(* is an event e (its arguments and its observed outcome).  Two operators     *)
(* define the specification:                                                  *)
(*   Fails(s, e, tp)  the conditions of the listed properties that the        *)
(*                    outcome of e breaks in state s (empty: allowed)          *)
(*   Step(s, e)       the state after e                                       *)
(* and Final(s, f, tp) gives the conditions the finished trace file f breaks. *)
(* tp is the meaning of every label of the run, derived from the finished     *)
(* label table alone (Meaning below); labels never change meaning, so each    *)
(* operation can be judged against it.                                        *)
(*                                                                            *)
(* Offsets are pairs <<hi, lo>> in base 2^27 (TLC integers are 32 bit),       *)
(* <<-1, 0>> is "unknown"; wide words are four 16-bit limbs, lowest first.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

CONSTANT Active        \* the properties whose conditions are enforced

B27 == 134217728
HALO == 8              \* bytes recorded on both sides of a buffer
None == <<-1, 0>>

F(p, name, cond) == IF p \in Active /\ ~cond THEN {<<p, name>>} ELSE {}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Range0(q) == {q[i] : i \in 1 .. Len(q)}

(* ---- offsets --------------------------------------------------------------- *)
Off(n) == <<n \div B27, n % B27>>
Add(o, k) == LET x == o[2] + k IN
             IF x >= 0 THEN <<o[1] + x \div B27, x % B27>>
             ELSE <<o[1] - 1, x + B27>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* a - b, cut to -10^6 .. 10^6: enough to clamp lengths of small transfers *)
Gap(a, b) == IF a[1] > b[1] + 1 THEN 1000000
             ELSE IF b[1] > a[1] + 1 THEN -1000000
             ELSE LET d == (a[1] - b[1]) * B27 + (a[2] - b[2]) IN
                  IF d > 1000000 THEN 1000000 ELSE IF d < -1000000 THEN -1000000 ELSE d

(* ---- meaning of labels ------------------------------------------------------ *)
(* f.table: sequence of <<label, kind, a, b, c>>: kind 1 source (index, hi, lo),  *)
(* kind 2 pair, kind 3 range, kind 0 undecodable;                                 *)
(* f.blocks: runs of source labels <<first, n, index, hi, lo>>                    *)
BlockOf(bl, l) == {i \in 1 .. Len(bl) : bl[i][1] <= l /\ l < bl[i][1] + bl[i][2]}
P(tp, l) ==
  IF l = 0 THEN {}
  ELSE IF l \in DOMAIN tp.m THEN tp.m[l]
  ELSE LET B == BlockOf(tp.bl, l) IN
       IF B = {} THEN {<<-2, l, 0>>}
       ELSE LET b == tp.bl[CHOOSE i \in B : TRUE] IN
            {<<b[3]>> \o Add(<<b[4], b[5]>>, l - b[1])}
EntryMeaning(tp, x) ==
  CASE x[2] = 1 -> {<<x[3], x[4], x[5]>>}
    [] x[2] = 2 /\ x[3] < x[1] /\ x[4] < x[3] /\ x[4] > 0 -> P(tp, x[3]) \cup P(tp, x[4])
    [] x[2] = 3 /\ x[4] < x[1] /\ x[3] < x[4] /\ x[3] > 0 ->
          UNION {P(tp, y) : y \in x[3] .. x[4]}
    [] OTHER -> {<<-1, x[1], 0>>}
Meaning(f) ==
  FoldLeft(LAMBDA tp, x : [tp EXCEPT !.m = (x[1] :> EntryMeaning(tp, x)) @@ @],
           [m |-> <<>>, bl |-> f.blocks], f.table)

(* ---- initial state ---------------------------------------------------------- *)
Empty == [x \in {} |-> 0]
Init0(cfg) ==
  [ cfg  |-> cfg,          \* environment of the run
    on   |-> FALSE,        \* tracker initialised
    lo   |-> 0, hi |-> 0,  \* bounds on the highest label in use
    comb |-> {},           \* <<a, b, r>>: recent combinations
    mk   |-> {},           \* labels that decided a branch
    fs   |-> [p \in {"/dev/full"} |-> [t |-> "full"]],
    h    |-> Empty,        \* descriptor handles
    st   |-> Empty,        \* stream handles
    pos  |-> Empty,        \* position of each open file description
    q    |-> Empty,        \* bytes in flight of pipes and sockets
    src  |-> <<>>,         \* sources in the order they were opened
    ro   |-> Empty, wo |-> Empty,  \* stream counters per source
    sink |-> <<>>,         \* expected sink records <<hi, lo, label, source>>
    umask |-> 18, lim |-> -1,
    fn   |-> <<>>, evs |-> <<>>,   \* functions and entry/exit events
    cfl  |-> <<>>,                 \* control-flow log
    done |-> "run" ]

(* ---- files ------------------------------------------------------------------- *)
FSize(f) == CASE f.t = "f" -> Off(Len(f.d))
              [] f.t = "sp" -> Add(f.at, Len(f.d))
              [] f.t = "big" -> Off(f.n)
              [] OTHER -> None
FByte(f, o) == CASE f.t = "f" -> f.d[o[2] + 1]
                 [] f.t = "sp" -> IF Less(o, f.at) THEN 0 ELSE f.d[Gap(o, f.at) + 1]
                 [] f.t = "big" -> (o[2] * 7 + f.seed) % 256
Zeros(n) == [i \in 1 .. n |-> 0]
(* content after writing d at offset at (zero-based, small) *)
Patch(c, at, d) ==
  LET c1 == IF Len(c) < at THEN c \o Zeros(at - Len(c)) ELSE c
      n == Max2(Len(c1), at + Len(d))
  IN [i \in 1 .. n |-> IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE c1[i]]

(* ---- sources ------------------------------------------------------------------ *)
(* index (zero-based) of the source most recently opened on descriptor fd, or -1   *)
Bind(s, fd) == LET S == {i \in 1 .. Len(s.src) : s.src[i].fd = fd} IN
               IF fd < 0 \/ S = {} THEN -1 ELSE MaxOf(S) - 1
MaxSources == 255
AddSrc(s, name, fd, size) ==
  IF ~s.on \/ Len(s.src) >= MaxSources THEN s
  ELSE [s EXCEPT !.src = Append(@, [name |-> name, fd |-> fd, size |-> size])]
Ctr(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
Bump(f, i, n) == (i :> (Ctr(f, i) + n)) @@ f

(* labels lb[1..k] mean exactly bytes o, o+1, ... of source i *)
Denote(tp, lb, i, o) == \A j \in 1 .. Len(lb) :
    lb[j] # 0 /\ P(tp, lb[j]) = {<<i>> \o Add(o, j - 1)}
AllZero(lb) == \A j \in 1 .. Len(lb) : lb[j] = 0
(* same set of input bytes, position by position (offsets only) *)
Slice(q, a, n) == SubSeq(q, a + 1, a + n)      \* n elements from zero-based a
Outside(p, q, a, n) == \A j \in 1 .. Len(p) : (j <= a \/ j > a + n) => p[j] = q[j]
Grow(s, lbs) == LET m == MaxOf(Range0(lbs) \cup {s.lo}) IN
                [s EXCEPT !.lo = m, !.hi = Max2(@ + Len(lbs), m)]

(* offset recorded for a transfer on source i: position if known, else counter    *)
RdOff(s, i, o) == IF o # None THEN o ELSE Off(Ctr(s.ro, i))
WrOff(s, i, o) == IF o # None THEN o ELSE Off(Ctr(s.wo, i))
RdBump(s, i, o, n) == IF i < 0 \/ o # None THEN s ELSE [s EXCEPT !.ro = Bump(@, i, n)]
WrBump(s, i, o, n) == IF i < 0 \/ o # None THEN s ELSE [s EXCEPT !.wo = Bump(@, i, n)]

(* the conditions on the labels of k delivered bytes: pl, ql whole buffer before   *)
(* and after, region at zero-based index a                                          *)
InputFails(s, tp, fd, o, pl, ql, a, k) ==
  LET i == Bind(s, fd)
      got == Slice(ql, a, k)
  IN F("C08", "labels outside the delivered bytes changed", Outside(pl, ql, a, k))
     \cup (IF i >= 0
           THEN F("C05", "label does not denote the byte's source and offset",
                    Denote(tp, got, i, RdOff(s, i, o)))
                \cup F("C06", "byte attributed to another source than the last one opened on the descriptor",
                    \A j \in 1 .. k : got[j] # 0 => \A x \in P(tp, got[j]) : x[1] = i)
                \cup F("C06", "bytes from a tracked descriptor attributed to no source", k > 0 => ~AllZero(got))
                \cup F("C08", "delivered byte left without input label",
                    \A j \in 1 .. k : got[j] # 0 /\ got[j] # pl[a + j])
           ELSE F("C08", "bytes from an untracked descriptor carry labels", AllZero(got))
                \cup F("C06", "bytes from an untracked descriptor attributed to a source", AllZero(got)))
InputStep(s, fd, o, ql, a, k) ==
  RdBump(Grow(s, Slice(ql, a, k)), Bind(s, fd), o, k)

(* sink records of k written bytes with labels lb *)
SinkRecs(s, fd, o, lb) ==
  LET i == Bind(s, fd)
      w == WrOff(s, i, o)
      idx == SelectSeq([j \in 1 .. Len(lb) |-> j], LAMBDA j : lb[j] # 0)
  IN IF i < 0 THEN <<>>
     ELSE [n \in 1 .. Len(idx) |-> Add(w, idx[n] - 1) \o <<lb[idx[n]], i>>]
SinkStep(s, fd, o, lb) ==
  WrBump([s EXCEPT !.sink = @ \o SinkRecs(s, fd, o, lb)], Bind(s, fd), o, Len(lb))

DKey(h) == "d" \o ToString(h)
SKey(h) == "s" \o ToString(h)
(* ---- descriptors -------------------------------------------------------------- *)
FileAt(s, h) == s.fs[s.h[h].path]
IsFile(x) == x.k = "file"
KnownPos(s, x) == IF IsFile(x) THEN s.pos[x.o] ELSE None
(* bytes that a read of n from this position may deliver *)
FileAvail(s, x, o) == Max2(0, Gap(FSize(s.fs[x.path]), o))
FileData(s, x, o, k) == [j \in 1 .. k |-> FByte(s.fs[x.path], Add(o, j - 1))]
HasFlag(str, c) == \E i \in 1 .. Len(str) : SubSeq(str, i, i) = c

(* open: the outcome POSIX prescribes *)
OpenOk(s, e) ==
  IF e.path \in DOMAIN s.fs THEN ~(HasFlag(e.flags, "c") /\ HasFlag(e.flags, "x"))
  ELSE HasFlag(e.flags, "c")
OpenFs(s, path, trunc) ==
  IF path \notin DOMAIN s.fs THEN [s EXCEPT !.fs = (path :> [t |-> "f", d |-> <<>>]) @@ @]
  ELSE IF trunc /\ s.fs[path].t = "f" THEN [s EXCEPT !.fs[path].d = <<>>]
  ELSE s
NodeOf(s, path) == IF s.fs[path].t = "fifo" THEN "q" ELSE IF s.fs[path].t = "full" THEN "full" ELSE "file"
QOf(path) == "fifo:" \o path
SizeNow(s, path) == FSize(s.fs[path])

BitAndNot(m, u) == \* mode & ~umask on nine bits
  LET bit(x, i) == (x \div (2 ^ i)) % 2
      RECURSIVE go(_)
      go(i) == IF i > 8 THEN 0
               ELSE (IF bit(m, i) = 1 /\ bit(u, i) = 0 THEN 2 ^ i ELSE 0) + go(i + 1)
  IN go(0)

OpenStep(s, e) ==
  IF e.fd < 0 THEN s
  ELSE LET s1 == OpenFs(s, e.path, HasFlag(e.flags, "t"))
           s2 == [s1 EXCEPT !.h = (e.h :> [k |-> NodeOf(s1, e.path), path |-> e.path, o |-> DKey(e.h),
                                           rq |-> QOf(e.path), wq |-> QOf(e.path),
                                           rd |-> HasFlag(e.flags, "r") \/ ~HasFlag(e.flags, "w"),
                                           wr |-> HasFlag(e.flags, "w"),
                                           app |-> HasFlag(e.flags, "a"), fd |-> e.fd]) @@ @,
                              !.pos = (DKey(e.h) :> Off(0)) @@ @]
       IN IF e.fn = "raw" THEN s2 ELSE AddSrc(s2, e.path, e.fd, SizeNow(s2, e.path))
OpenFails(s, e) ==
  F("C07", "open does not succeed or fail as the file system says", (e.fd >= 0) = OpenOk(s, e))
  \cup F("C07", "open: error code", e.fd < 0 => e.err \in {2, 17})
  \cup (IF e.fd < 0 THEN {} ELSE
     F("C07", "open: access mode or append flag",
        /\ e.acc = (IF HasFlag(e.flags, "w") THEN IF HasFlag(e.flags, "r") THEN 2 ELSE 1 ELSE 0)
        /\ (e.app = 1) = HasFlag(e.flags, "a"))
     \cup F("C07", "open: permissions of a created file",
        (e.existed = 0 /\ e.path \notin DOMAIN s.fs) => e.perm = BitAndNot(e.mode, s.umask)))
  \cup F("C08", "open: label of the result", e.rl = 0)

(* streams *)
ModeRd(m) == HasFlag(m, "r") \/ HasFlag(m, "+")
ModeWr(m) == HasFlag(m, "w") \/ HasFlag(m, "a") \/ HasFlag(m, "+")
FopenOk(s, e) == e.path \in DOMAIN s.fs \/ ~HasFlag(e.mode, "r")
FopenStep(s, e) ==
  IF e.fd < 0 THEN s
  ELSE IF e.fn = "fdopen" THEN
     LET x == s.h[e.hh] IN
     [s EXCEPT !.st = (e.h :> [x EXCEPT !.o = SKey(e.h)]) @@ @,
               !.pos = (SKey(e.h) :> IF IsFile(x) THEN s.pos[x.o] ELSE Off(0)) @@ @]
  ELSE LET s1 == OpenFs(s, e.path, HasFlag(e.mode, "w"))
           o == SKey(e.h)
           s2 == [s1 EXCEPT !.st = (e.h :> [k |-> NodeOf(s1, e.path), path |-> e.path, o |-> o,
                                            rq |-> QOf(e.path), wq |-> QOf(e.path),
                                            rd |-> ModeRd(e.mode), wr |-> ModeWr(e.mode),
                                            app |-> HasFlag(e.mode, "a"), fd |-> e.fd]) @@ @,
                              !.pos = (o :> IF e.mode \in {"a", "ab"} THEN SizeNow(s1, e.path) ELSE Off(0)) @@ @]
       IN IF e.fn = "raw" THEN s2 ELSE AddSrc(s2, e.path, e.fd, SizeNow(s2, e.path))
FopenFails(s, e) ==
  F("C07", "fopen does not succeed or fail as the file system says",
       e.fn = "fdopen" \/ ((e.fd >= 0) = FopenOk(s, e)))
  \cup F("C08", "fopen: label of the result", e.rl = 0)

(* read, pread, recv: data moves into a buffer *)
ReadFrom(s, e) == \* position the data comes from, None for queues
  LET x == s.h[e.h] IN
  IF ~IsFile(x) THEN None
  ELSE IF e.fn \in {"pread", "pread64"} THEN e.at ELSE s.pos[x.o]
Stored(e) == IF e.ret > e.req THEN e.req ELSE Max2(e.ret, 0)
DgMsg(s, x) == IF s.q[x.rq] = <<>> THEN <<>> ELSE Head(s.q[x.rq])
Peek(e) == (e.fl \div 2) % 2 = 1
ReadFails(s, e, tp) ==
  LET x == s.h[e.h]
      o == ReadFrom(s, e)
      k == Stored(e)
      a == HALO + e.off
  IN IF x.k = "full" THEN {}
     ELSE IF x.k \in {"q", "dg", "closed"} \/ ~x.rd THEN
       (IF x.k = "closed" \/ ~x.rd
        THEN F("C07", "read on a descriptor that cannot be read", e.ret = -1 /\ e.err = 9)
        ELSE IF x.k = "dg"
        THEN LET m == DgMsg(s, x) IN
             F("C07", "datagram: return value",
               e.ret = IF (e.fl \div 32) % 2 = 1 THEN Len(m) ELSE Min2(e.req, Len(m)))
             \cup F("C07", "datagram: data", Slice(e.qd, a, k) = Slice(m, 0, k))
        ELSE LET d == s.q[x.rq] IN
             F("C07", "stream: return value",
               IF d = <<>> \/ e.req = 0 THEN e.ret = 0 \/ (e.ret = -1 /\ e.err = 11)
               ELSE e.ret >= 1 /\ e.ret <= Min2(e.req, Len(d)))
             \cup F("C07", "stream: data", k <= Len(d) /\ Slice(e.qd, a, k) = Slice(d, 0, k)))
       \cup F("C07", "bytes outside the delivered ones changed", Outside(e.pd, e.qd, a, k))
       \cup InputFails(s, tp, e.fd, o, e.pl, e.ql, a, k)
       \cup F("C08", "label of the returned count", e.rl = 0)
     ELSE
       F("C07", "read: return value", e.ret = Min2(e.req, FileAvail(s, x, o)))
       \cup F("C07", "read: data", k <= FileAvail(s, x, o) /\ Slice(e.qd, a, k) = FileData(s, x, o, k))
       \cup F("C07", "bytes outside the delivered ones changed", Outside(e.pd, e.qd, a, k))
       \cup InputFails(s, tp, e.fd, o, e.pl, e.ql, a, k)
       \cup F("C08", "label of the returned count", e.rl = 0)
ReadStep(s, e) ==
  LET x == s.h[e.h]
      o == ReadFrom(s, e)
      k == Stored(e)
      s0 == InputStep(s, e.fd, o, e.ql, HALO + e.off, k)
      s1 == IF Peek(e) THEN [s0 EXCEPT !.ro = s.ro] ELSE s0     \* peeked bytes stay in the stream
  IN IF k = 0 \/ x.k \in {"closed", "full"} THEN (IF x.k = "dg" /\ e.ret >= 0 /\ s.q[x.rq] # <<>> THEN [s EXCEPT !.q[x.rq] = Tail(@)] ELSE s)
     ELSE IF x.k = "dg" THEN IF Peek(e) THEN s1 ELSE [s1 EXCEPT !.q[x.rq] = Tail(@)]
     ELSE IF x.k = "q" THEN IF Peek(e) THEN s1 ELSE [s1 EXCEPT !.q[x.rq] = SubSeq(@, k + 1, Len(@))]
     ELSE IF e.fn \in {"pread", "pread64"} THEN s1
     ELSE [s1 EXCEPT !.pos[x.o] = Add(o, k)]

(* reads of large blocks: the labels arrive as runs <<index, first, count>> *)
RunsOf(r) == [i \in 1 .. Len(r) \div 3 |-> <<r[3*i - 2], r[3*i - 1], r[3*i]>>]
BigFails(s, e, tp, x, o, k) ==
  LET i == Bind(s, e.fd)
      rs == RunsOf(e.runs)
      a == HALO + e.off
      lab == {n \in 1 .. Len(rs) : rs[n][2] # 0}
      w == RdOff(s, i, o)
  IN F("C08", "bulk read: labelled region is not the delivered region",
         IF i < 0 THEN lab = {}
         ELSE \A n \in 1 .. Len(rs) :
                IF rs[n][2] # 0 THEN rs[n][1] >= a /\ rs[n][1] + rs[n][3] <= a + k
                ELSE rs[n][1] + rs[n][3] <= a \/ rs[n][1] >= a + k \/ k = 0)
     \cup F("C05", "bulk read: label does not denote the byte's source and offset",
         i < 0 \/ \A n \in lab : LET r == rs[n] IN
             \A j \in {0, r[3] - 1, r[3] \div 2} :
                P(tp, r[2] + j) = {<<i>> \o Add(w, r[1] - a + j)})
     \cup F("C05", "bulk read: labels are not the recorded source labels",
         i < 0 \/ \A n \in lab : LET r == rs[n] IN
             r[3] >= 64 => \E b \in 1 .. Len(tp.bl) : LET y == tp.bl[b] IN
                 y[1] <= r[2] /\ r[2] + r[3] <= y[1] + y[2])
BigStep(s, e, x, o, k) ==
  LET i == Bind(s, e.fd)
      rs == RunsOf(e.runs)
      m == MaxOf({s.lo} \cup {rs[n][2] + rs[n][3] - 1 : n \in {z \in 1 .. Len(rs) : rs[z][2] # 0}})
  IN RdBump([s EXCEPT !.lo = m, !.hi = Max2(@ + k, m), !.pos[x.o] = Add(@, k)], i, o, k)

(* fread *)
FreadK(s, e) == LET x == s.st[e.h] IN
  IF IsFile(x) THEN Min2(e.sz * e.cnt, FileAvail(s, x, s.pos[x.o]))
  ELSE IF x.k = "q" THEN Min2(e.sz * e.cnt, Len(s.q[x.rq])) ELSE 0
FreadFails(s, e, tp) ==
  LET x == s.st[e.h]
      o == KnownPos(s, x)
      n == IF x.rd THEN FreadK(s, e) ELSE 0
      k == e.ret * e.sz
      a == HALO + e.off
      d == IF IsFile(x) THEN FileData(s, x, o, n) ELSE Slice(s.q[x.rq], 0, n)
  IN F("C07", "fread: return value", e.ret = IF e.sz = 0 THEN 0 ELSE n \div e.sz)
     \cup F("C07", "fread: data", k <= n /\ Slice(e.qd, a, k) = Slice(d, 0, k))
     \cup F("C07", "bytes outside the delivered ones changed", Outside(e.pd, e.qd, a, Max2(n, k)))
     \cup InputFails(s, tp, e.fd, o, e.pl, e.ql, a, Min2(k, e.sz * e.cnt))
     \cup F("C08", "label of the returned count", e.rl = 0)
StreamAdvance(s, x, n) ==
  IF IsFile(x) THEN [s EXCEPT !.pos[x.o] = Add(@, n)]
  ELSE [s EXCEPT !.q[x.rq] = SubSeq(@, n + 1, Len(@))]
FreadStep(s, e) ==
  LET x == s.st[e.h]
      n == IF x.rd THEN FreadK(s, e) ELSE 0
  IN StreamAdvance(InputStep(s, e.fd, KnownPos(s, x), e.ql, HALO + e.off, Min2(e.ret * e.sz, e.sz * e.cnt)), x, n)

(* single characters *)
NextByte(s, x) == \* -1 at the end
  IF ~x.rd THEN -1
  ELSE IF IsFile(x) THEN (IF FileAvail(s, x, s.pos[x.o]) = 0 THEN -1 ELSE FByte(s.fs[x.path], s.pos[x.o]))
  ELSE IF s.q[x.rq] = <<>> THEN -1 ELSE Head(s.q[x.rq])
GetcFails(s, e, tp) ==
  LET x == s.st[e.h]
      o == KnownPos(s, x)
      c == NextByte(s, x)
      i == Bind(s, e.fd)
  IN F("C07", "character returned", e.ret = c)
     \cup (IF e.ret = -1 THEN F("C08", "end of input carries a label", e.rl = 0)
           ELSE IF i < 0 THEN F("C08", "character from an untracked stream carries a label", e.rl = 0)
                              \cup F("C06", "character from an untracked stream attributed to a source", e.rl = 0)
           ELSE F("C05", "character label does not denote its source and offset",
                    Denote(tp, <<e.rl>>, i, RdOff(s, i, o)))
                \cup F("C06", "character attributed to another source",
                    e.rl # 0 /\ \A y \in P(tp, e.rl) : y[1] = i)
                \cup F("C08", "character delivered without label", e.rl # 0))
GetcStep(s, e) ==
  LET x == s.st[e.h] IN
  IF e.ret = -1 THEN s
  ELSE StreamAdvance(RdBump(Grow(s, <<e.rl>>), Bind(s, e.fd), KnownPos(s, x), 1), x, 1)

(* lines: the bytes up to and including the delimiter, at most m *)
LineLen(s, x, delim, m) ==
  LET av == IF ~x.rd THEN 0 ELSE IF IsFile(x) THEN FileAvail(s, x, s.pos[x.o]) ELSE Len(s.q[x.rq])
      lim == Min2(av, m)
      byte(j) == IF IsFile(x) THEN FByte(s.fs[x.path], Add(s.pos[x.o], j - 1)) ELSE s.q[x.rq][j]
      hits == {j \in 1 .. lim : byte(j) = delim}
  IN IF hits = {} THEN lim ELSE CHOOSE j \in hits : \A z \in hits : j <= z
LineData(s, x, n) == IF IsFile(x) THEN FileData(s, x, s.pos[x.o], n) ELSE Slice(s.q[x.rq], 0, n)
FirstNul(d) == LET Z == {j \in 1 .. Len(d) : d[j] = 0} IN
               IF Z = {} THEN Len(d) ELSE (CHOOSE j \in Z : \A z \in Z : j <= z) - 1
FgetsFails(s, e, tp) ==
  LET x == s.st[e.h]
      o == KnownPos(s, x)
      n == LineLen(s, x, 10, e.req - 1)
      d == LineData(s, x, n)
      a == HALO + e.off
      none == n = 0 /\ e.req > 1
      (* known finding: bytes after an embedded NUL are not labelled; judged only where asked for *)
      k == IF "nul" \in DOMAIN s.cfg THEN n ELSE FirstNul(d)
  IN F("C07", "fgets: return value", e.ret = (IF none THEN 0 ELSE 1))
     \cup (IF none \/ e.ret = 0
           THEN F("C07", "fgets: buffer changed at end of input", e.pd = e.qd)
                \cup F("C08", "fgets: labels changed at end of input", e.pl = e.ql)
           ELSE F("C07", "fgets: data", Slice(e.qd, a, n + 1) = Append(d, 0))
                \cup F("C07", "bytes outside the delivered ones changed", Outside(e.pd, e.qd, a, n + 1))
                \cup InputFails(s, tp, e.fd, o, [j \in 1 .. Len(e.pl) |-> IF j > a + k /\ j <= a + n + 1 THEN e.ql[j] ELSE e.pl[j]],
                                e.ql, a, k)
                \cup F("C08", "label on the string terminator", e.ql[a + n + 1] \in {0, e.pl[a + n + 1]})
                \cup F("C08", "fgets: label of the returned pointer", e.rl = e.ptrl))
FgetsStep(s, e) ==
  LET x == s.st[e.h]
      n == LineLen(s, x, 10, e.req - 1)
  IN IF e.ret = 0 THEN s
     ELSE StreamAdvance(InputStep(s, e.fd, KnownPos(s, x), e.ql, HALO + e.off, n), x, n)
GetdelimFails(s, e, tp) ==
  LET x == s.st[e.h]
      o == KnownPos(s, x)
      n == LineLen(s, x, e.delim, 1000000)
      d == LineData(s, x, n)
      k == Max2(0, e.ret)
  IN F("C07", "getdelim: return value", e.ret = (IF n = 0 THEN -1 ELSE n))
     \cup (IF e.ret <= 0 THEN {} ELSE
           F("C07", "getdelim: data", e.d = Append(d, 0))
           \cup InputFails(s, tp, e.fd, o, Zeros(k), Slice(e.l, 0, k), 0, k))
     \cup F("C08", "label of the returned count", e.rl = 0)
GetdelimStep(s, e) ==
  LET x == s.st[e.h]
      k == Max2(0, e.ret)
      n == LineLen(s, x, e.delim, 1000000)
  IN IF e.ret <= 0 THEN s
     ELSE StreamAdvance(InputStep(s, e.fd, KnownPos(s, x), e.l, 0, k), x, n)

(* mmap of a file (or anonymous), then munmap *)
MmapFails(s, e, tp) ==
  LET i == IF e.anon = 1 THEN -1 ELSE Bind(s, e.fd) IN
  F("C07", "mmap: result", e.ret = 0 /\ e.mret = 0)
  \cup (IF e.ret # 0 THEN {} ELSE
        F("C07", "mmap: data", e.d = (IF e.anon = 1 THEN Zeros(e.len)
                                      ELSE FileData(s, s.h[e.h], e.at, e.len)))
        \cup (IF i < 0 THEN F("C08", "mapping of an untracked or anonymous region carries labels", AllZero(Slice(e.l, 0, e.len)))
              ELSE F("C05", "mapped byte's label does not denote its source and offset",
                       Denote(tp, Slice(e.l, 0, e.len), i, e.at))
                   \cup F("C06", "mapped byte attributed to another source",
                       \A j \in 1 .. e.len : \A y \in P(tp, e.l[j]) : y[1] = i)
                   \cup F("C08", "mapped byte without label", \A j \in 1 .. e.len : e.l[j] # 0))
        \cup F("C08", "bytes beyond the mapping labelled", \A j \in e.len + 1 .. Len(e.l) : e.l[j] \in {0, e.stale})
        \cup F("C08", "labels survive munmap", e.left = <<>>)
        \cup F("C08", "label of the returned pointer", e.rl = 0 /\ e.rl2 = 0))
MmapStep(s, e) == IF e.ret # 0 \/ e.anon = 1 \/ Bind(s, e.fd) < 0 THEN s ELSE Grow(s, Slice(e.l, 0, e.len))

(* three mapped pages: an unmapping that fails twice, then the middle, first and last page *)
UnmapFails(s, e) ==
  LET pg == IF Bind(s, e.fd) >= 0 THEN 4096 ELSE 0 IN
  F("C07", "munmap: result", e.rets = <<-1, -1, 0, 0, 0>>)
  \cup F("C08", "munmap: labels after failed, partial and full unmapping",
         e.cnt = <<pg, pg, pg, pg, pg, pg, pg, 0, pg, 0, 0, pg, 0, 0, 0>>)
  \cup F("C08", "label of the result", AllZero(e.rls))
UnmapStep(s, e) == IF e.last = 0 THEN s ELSE [s EXCEPT !.lo = e.last, !.hi = Max2(@ + 12288, e.last)]

(* writes *)
WriteTarget(s, x) == IF x.app THEN FSize(s.fs[x.path]) ELSE s.pos[x.o]
WriteOk(s, x, n) == \* how many bytes can be written
  IF ~x.wr \/ x.k \in {"closed", "full"} THEN -1
  ELSE IF IsFile(x) /\ s.lim >= 0 THEN
     LET room == s.lim - WriteTarget(s, x)[2] IN IF n > 0 /\ room <= 0 THEN -1 ELSE Min2(n, room)
  ELSE n
PutBytes(s, x, d) ==
  IF IsFile(x) THEN
     LET at == WriteTarget(s, x)
         f == s.fs[x.path]
     IN [s EXCEPT !.fs[x.path].d = Patch(@, IF f.t = "sp" THEN Gap(at, f.at) ELSE at[2], d), !.pos[x.o] = Add(at, Len(d))]
  ELSE IF x.k = "dg" THEN [s EXCEPT !.q[x.wq] = Append(@, d)]
  ELSE IF x.k = "q" THEN [s EXCEPT !.q[x.wq] = @ \o d]
  ELSE s
WriteFails(s, e) ==
  LET x == s.h[e.h] IN
  F("C07", "write: return value", e.ret = WriteOk(s, x, e.req))
  \cup F("C07", "write: reason of the failure", e.ret = -1 =>
       e.err = CASE x.k = "closed" \/ ~x.wr -> 9 [] x.k = "full" -> 28 [] IsFile(x) -> 27 [] OTHER -> e.err)
  \cup F("C07", "write changed the buffer", e.pd = e.qd)
  \cup F("C09", "write changed labels", e.pl = e.ql)
  \cup F("C08", "label of the returned count", e.rl = 0)
WOff(s, x) == IF IsFile(x) THEN WriteTarget(s, x) ELSE None
WriteStep(s, e) ==
  LET x == s.h[e.h]
      k == Max2(0, e.ret)
      s1 == IF e.fn = "raw" THEN s ELSE SinkStep(s, e.fd, WOff(s, x), Slice(e.pl, HALO + e.off, k))
  IN IF k = 0 THEN s ELSE PutBytes(s1, x, Slice(e.pd, HALO + e.off, k))
FwriteFails(s, e) ==
  LET x == s.st[e.h] IN
  F("C07", "fwrite: return value", e.ret = IF x.wr /\ e.sz > 0 THEN e.cnt ELSE 0)
  \cup F("C07", "fwrite changed the buffer", e.pd = e.qd)
  \cup F("C09", "fwrite changed labels", e.pl = e.ql)
  \cup F("C08", "label of the returned count", e.rl = 0)
FwriteStep(s, e) ==
  LET x == s.st[e.h]
      k == e.ret * e.sz
      s1 == SinkStep(s, e.fd, WOff(s, x), Slice(e.pl, HALO + e.off, k))
  IN IF k = 0 THEN s ELSE PutBytes(s1, x, Slice(e.pd, HALO + e.off, k))
PutcFails(s, e) ==
  LET x == s.st[e.h] IN
  F("C07", "putc: return value", e.ret = IF x.wr THEN e.c % 256 ELSE -1)
  \cup F("C08", "label of the returned character", e.rl = 0)
PutcStep(s, e) ==
  LET x == s.st[e.h] IN
  IF e.ret = -1 THEN s
  ELSE PutBytes(IF e.fn = "raw" THEN s ELSE SinkStep(s, e.fd, WOff(s, x), <<e.l>>), x, <<e.c % 256>>)

(* ---- argument vector ------------------------------------------------------------ *)
ArgName(i) == "argv[" \o ToString(i - 1) \o "]"
ArgvOn(s) == s.on /\ s.cfg.argv
ArgvFails(s, e, tp) ==
  LET n == Len(e.args) IN
  F("C11", "tracing changed an argument", \A i \in 1 .. n : e.args[i].keep = 1)
  \cup (IF ~ArgvOn(s) THEN F("C11", "arguments labelled although not requested",
                             \A i \in 1 .. n : AllZero(e.args[i].l))
        ELSE F("C11", "argument bytes do not denote their argument and offset",
               \A i \in 1 .. n : LET x == e.args[i] IN
                  /\ Denote(tp, Slice(x.l, HALO, Len(x.d)), Len(s.src) + i - 1, Off(0))
                  /\ Outside(x.l, Zeros(Len(x.l)), HALO, Len(x.d))))
ArgvStep(s, e) ==
  IF ~ArgvOn(s) THEN s
  ELSE LET s1 == [s EXCEPT !.src = @ \o [i \in 1 .. Len(e.args) |-> [name |-> ArgName(i), fd |-> -1, size |-> None]]]
       IN FoldLeft(LAMBDA t, x : Grow(t, Slice(x.l, HALO, Len(x.d))), s1, e.args)

(* ---- initialisation ------------------------------------------------------------- *)
InitStep(s) ==
  LET s1 == [s EXCEPT !.on = TRUE]
      s2 == IF s.cfg.out THEN AddSrc(s1, "/dev/stdout", 1, s.cfg.outsize) ELSE s1
      s3 == IF s.cfg.err THEN AddSrc(s2, "/dev/stderr", 2, s.cfg.errsize) ELSE s2
  IN IF s.cfg.in THEN AddSrc(s3, "/dev/stdin", 0, s.cfg.insize) ELSE s3
(* a standard stream becomes a handle *)
StdStep(s, e) ==
  LET k == CASE e.name = "stdin" -> s.cfg.inkind [] e.name = "stdout" -> s.cfg.outkind [] OTHER -> s.cfg.errkind
      path == "std:" \o e.name
      x == [k |-> IF k = "file" THEN "file" ELSE "q", path |-> path,
            o |-> IF e.name = "stderr" THEN DKey(e.h) ELSE SKey(e.h),    \* stderr is not buffered
            rq |-> path, wq |-> path, rd |-> e.name = "stdin", wr |-> e.name # "stdin",
            app |-> FALSE, fd |-> e.fd]
      s1 == [s EXCEPT !.h = (e.h :> [x EXCEPT !.o = DKey(e.h)]) @@ @, !.st = (e.h :> x) @@ @,
                      !.pos = (SKey(e.h) :> e.pos) @@ (DKey(e.h) :> e.pos) @@ @]
  IN IF k = "file"
     THEN [s1 EXCEPT !.fs = (path :> [t |-> "f", d |-> IF e.name = "stdin" THEN s.cfg.indata ELSE Zeros(e.pos[2])]) @@ @]
     ELSE [s1 EXCEPT !.q = (path :> IF e.name = "stdin" THEN s.cfg.indata ELSE <<>>) @@ @]

(* ---- label combination ----------------------------------------------------------- *)
UnFails(s, e, tp) ==
  F("C01", "combined label does not mean the union of its parts",
      P(tp, e.r) = P(tp, e.a) \cup P(tp, e.b))
  \cup F("C02", "new label is not the next number", e.r <= s.hi + 1)
  \cup F("C02", "combining a label with itself or with no taint changed it",
      /\ (e.a = e.b => e.r = e.a) /\ (e.a = 0 => e.r = e.b) /\ (e.b = 0 => e.r = e.a))
  \cup F("C02", "a recent combination was repeated under a new label",
      \A c \in s.comb : ({c[1], c[2]} = {e.a, e.b} /\ c[3] > s.hi - 50) => (e.r <= s.hi))
  \cup F("C02", "combining with a part already contained allocated a label",
      \A c \in s.comb : ((e.a = c[3] /\ e.b \in {c[1], c[2]}) \/ (e.b = c[3] /\ e.a \in {c[1], c[2]}))
                        => e.r <= s.hi)
UnStep(s, e) == [s EXCEPT !.lo = Max2(@, e.r), !.hi = Max2(@, e.r),
                          !.comb = IF e.a # e.b /\ e.a # 0 /\ e.b # 0 /\ {"C02"} \cap Active # {}
                                   THEN {c \in @ : c[3] > e.r - 60} \cup {<<e.a, e.b, e.r>>} ELSE @]
UnionAll(tp, ls) == UNION {P(tp, ls[i]) : i \in 1 .. Len(ls)}
LdnFails(s, e, tp) ==
  F("C01", "label of a wide load does not mean the union of its bytes", P(tp, e.r) = UnionAll(tp, e.ls))
  \cup F("C25", "label of a wide load does not mean the union of its bytes", P(tp, e.r) = UnionAll(tp, e.ls))
LdnStep(s, e) == [s EXCEPT !.lo = Max2(@, e.r), !.hi = Max2(@ + Max2(0, Len(e.ls) - 1), e.r)]

(* ---- shadow memory ---------------------------------------------------------------- *)
SetFails(s, e) ==
  F("C25", "labelling a region: wrong region or label",
      /\ Outside(e.pl, e.ql, HALO + e.off, e.n)
      /\ \A j \in 1 .. e.n : e.ql[HALO + e.off + j] = e.l)
AddlFails(s, e, tp) ==
  F("C25", "adding a label to a region",
      /\ Outside(e.pl, e.ql, HALO + e.off, e.n)
      /\ \A j \in 1 .. e.n : LET z == HALO + e.off + j IN
            P(tp, e.ql[z]) = P(tp, e.pl[z]) \cup P(tp, e.l))
AddlStep(s, e) == [Grow(s, e.ql) EXCEPT !.hi = @ + e.n]
StrLen0(d, a) == LET Z == {j \in a + 1 .. Len(d) : d[j] = 0} IN (CHOOSE j \in Z : \A z \in Z : j <= z) - a - 1
MemFails(s, e, tp) ==
  LET a == HALO + e.o
      b == HALO + e.so
      n == CASE e.fn \in {"memcpy", "memmove", "memset"} -> e.n
             [] e.fn = "strcpy" -> StrLen0(e.sd, b) + 1
             [] e.fn = "strncpy" -> e.n
             [] e.fn = "strcat" -> StrLen0(e.sd, b) + 1
      at == IF e.fn = "strcat" THEN a + StrLen0(e.pd, a) ELSE a
      cp == CASE e.fn = "strncpy" -> Min2(n, StrLen0(e.sd, b) + 1) [] OTHER -> n
      src == IF e.s = e.b THEN e.pd ELSE e.sd
      srl == IF e.s = e.b THEN e.pl ELSE e.sla
      d == IF e.fn = "memset" THEN [j \in 1 .. n |-> e.so % 256]
           ELSE [j \in 1 .. n |-> IF j <= cp THEN src[b + j] ELSE 0]
      l == IF e.fn = "memset" THEN [j \in 1 .. n |-> e.sl]
           ELSE [j \in 1 .. n |-> IF j <= cp THEN srl[b + j] ELSE 0]
  IN F("C07", "memory or string function: data",
         Slice(e.qd, at, n) = d /\ Outside(e.pd, e.qd, at, n) /\ e.same = 1)
     \cup F("C25", "memory or string function: labels do not follow the bytes",
         \A j \in 1 .. n : P(tp, e.ql[at + j]) = P(tp, l[j]))
     \cup F("C25", "memory or string function: labels outside the written bytes changed",
         Outside(e.pl, e.ql, at, n))
     \cup F("C25", "memory or string function: label of the returned pointer", e.rl = e.dl)
StrdupFails(s, e, tp) ==
  LET b == HALO + e.so
      n == StrLen0(e.sd, b) + 1
  IN F("C07", "strdup: data", e.qd = Slice(e.sd, b, n))
     \cup F("C25", "strdup: labels do not follow the bytes", e.ql = Slice(e.sl, b, n))

(* ---- string functions: comparing, searching, converting, formatting ------------------ *)
Byte(d, o, i) == d[HALO + o + i]
(* the characters of a string with its terminator *)
Str0(d, o) == LET n == StrLen0(d, HALO + o) IN Slice(d, HALO + o, n + 1)
Lower(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Order(a, b, n) ==       \* of the first n elements, as unsigned characters
  LET D == {i \in 1 .. n : i > Len(a) \/ i > Len(b) \/ a[i] # b[i]} IN
  IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN Sgn(a[i] - b[i])
CmpValue(e) ==
  LET str == e.fn \in {"strcmp", "strncmp", "strcasecmp", "strncasecmp"}
      fold == e.fn \in {"strcasecmp", "strncasecmp"}
      lim == e.fn \in {"strncmp", "strncasecmp", "memcmp", "bcmp"}
      (* a bounded comparison looks at no more than n characters, which need no terminator *)
      cut(d, o) == LET all == Slice(d, HALO + o, Min2(e.n, Len(d) - HALO - o))
                       Z == {i \in 1 .. Len(all) : all[i] = 0}
                   IN IF str /\ Z # {} THEN SubSeq(all, 1, CHOOSE i \in Z : \A j \in Z : i <= j) ELSE all
      a0 == IF lim THEN cut(e.ad, e.ao) ELSE Str0(e.ad, e.ao)
      b0 == IF lim THEN cut(e.bd, e.bo) ELSE Str0(e.bd, e.bo)
      f(q) == IF fold THEN [i \in 1 .. Len(q) |-> Lower(q[i])] ELSE q
  IN Order(f(a0), f(b0), Min2(Len(a0), Len(b0)))
Say(p, q, name, cond) == F(p, name, cond) \cup F(q, name, cond)
CmpFails(e) ==
  Say("C07", "C26", "comparison: result",
      IF e.fn = "bcmp" THEN (e.r = 0) = (CmpValue(e) = 0) ELSE e.r = CmpValue(e))
  \cup Say("C25", "C26", "comparison: label of the result, or an operand was changed", e.rl = 0 /\ e.keep = 1)
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
FindValue(e) ==
  LET a == IF e.fn = "memchr" THEN Slice(e.ad, HALO + e.ao, e.n) ELSE Str0(e.ad, e.ao)
      b == Str0(e.bd, e.bo)
      hit == {i \in 1 .. Len(a) : a[i] = e.c}
      acc == {i \in 1 .. Len(a) - 1 : \E j \in 1 .. Len(b) - 1 : a[i] = b[j]}
      sub == {i \in 1 .. Len(a) : i + Len(b) - 2 < Len(a) /\ \A j \in 1 .. Len(b) - 1 : a[i + j - 1] = b[j]}
      first(S) == IF S = {} THEN -1 ELSE MinOf(S) - 1
  IN CASE e.fn = "strlen" -> Len(a) - 1
       [] e.fn \in {"strchr", "memchr"} -> first(hit)
       [] e.fn = "strrchr" -> IF hit = {} THEN -1 ELSE MaxOf(hit) - 1
       [] e.fn = "strpbrk" -> first(acc)
       [] e.fn = "strstr" -> first(sub)
FindFails(e) ==
  Say("C07", "C26", "search: result", e.r = FindValue(e))
  \cup Say("C25", "C26", "search: label of the result, or an operand was changed",
       e.keep = 1 /\ IF e.fn = "strlen" THEN e.rl = 0
                     ELSE IF FindValue(e) >= 0 THEN e.rl = e.la ELSE e.rl \in {0, e.la})
ConvFails(e, tp) ==
  LET used == P(tp, e.lb) \cup UnionAll(tp, Slice(e.al, HALO + e.ao, e.refend))
      term == IF Byte(e.ad, e.ao, e.refend + 1) = 0 THEN P(tp, e.al[HALO + e.ao + e.refend + 1]) ELSE {}
  IN Say("C07", "C26", "conversion: value, end or errno", e.v = e.ref /\ e.end = e.refend /\ e.err = e.referr)
     \cup Say("C25", "C26", "conversion: label of the value, or the text was changed",
          e.keep = 1 /\ IF e.refend = 0 THEN e.rl = 0 ELSE P(tp, e.rl) \in {used, used \cup term})
Text(p) == IF p.k = "n" THEN <<>> ELSE p.t
TextLabels(p) ==
  CASE p.k = "n" -> <<>>
    [] p.k = "lit" -> Zeros(Len(p.t))
    [] p.k = "num" -> [i \in 1 .. Len(p.t) |-> p.l]
    [] p.k = "str" -> LET z == Zeros(Len(p.t) - Len(p.al)) IN IF p.left = 1 THEN p.al \o z ELSE z \o p.al
FmtFails(e, tp) ==
  LET all == FoldLeft(LAMBDA q, p : q \o Text(p), <<>>, e.pieces)
      lab == FoldLeft(LAMBDA q, p : q \o TextLabels(p), <<>>, e.pieces)
      at == HALO + e.off
      k == IF e.size < 0 THEN Len(all) ELSE IF e.size = 0 THEN 0 ELSE Min2(Len(all), e.size - 1)
      n == IF e.size = 0 THEN 0 ELSE k + 1              \* bytes stored, with the terminator
      N == {i \in 1 .. Len(e.pieces) : e.pieces[i].k = "n"}
      sofar == IF N = {} THEN <<>> ELSE FoldLeft(LAMBDA q, p : q \o Text(p), <<>>, SubSeq(e.pieces, 1, MinOf(N)))
  IN Say("C07", "C26", "formatted output: text, terminator, return value or count",
        /\ e.ret = Len(all) /\ Outside(e.pd, e.qd, at, n)
        /\ n > 0 => Slice(e.qd, at, k) = SubSeq(all, 1, k) /\ e.qd[at + n] = 0
        /\ N # {} => e.nv = Len(sofar))
     \cup Say("C25", "C26", "formatted output: labels do not follow the characters",
        \A j \in 1 .. n : P(tp, e.ql[at + j]) = IF j <= k THEN P(tp, lab[j]) ELSE {})
     \cup Say("C25", "C26", "formatted output: labels outside the written bytes changed, or label of the result",
        /\ Outside(e.pl, e.ql, at, n) /\ e.rl = 0
        /\ N # {} => \A i \in 1 .. Len(e.n0) : e.n1[i] = IF i \in HALO + 1 .. HALO + 4 THEN 0 ELSE e.n0[i])
(* ---- calls that fill a structure ---------------------------------------------------- *)
SysFails(e, tp) ==
  LET ok == \E i \in 1 .. Len(e.mask) : e.mask[i] = 1 IN
  Say("C07", "C26", "system call: outcome", e.ret = e.ref /\ e.same = 1 /\ e.outside = 1)
  \cup Say("C08", "C26", "system call: label of the result", e.rl = e.ptr)
  \cup Say("C08", "C26", "system call: labels of the structure",
       \A i \in 1 .. Len(e.mask) :
          IF e.mask[i] = 1 THEN P(tp, e.ql[i]) = P(tp, e.want)
          ELSE e.ql[i] = e.g \/ (~ok /\ e.fn = "select" /\ e.ql[i] = 0))
EdgeFails(e) ==
  Say("C07", "C26", "operand at the end of mapped memory: outcome",
      e.ok = 1 /\ SubSeq(e.d, 1, e.n) = e.sd /\ \A i \in e.n + 1 .. Len(e.d) : e.d[i] = 165)
  \cup Say("C25", "C26", "operand at the end of mapped memory: labels",
      e.rl = 0 /\ SubSeq(e.l, 1, e.n) = e.sl /\ \A i \in e.n + 1 .. Len(e.l) : e.l[i] = 0)

(* ---- heap --------------------------------------------------------------------------- *)
ReallocFails(s, e) ==
  IF e.n = -1 THEN
     F("C10", "failed reallocation reported as success or damaged the old block",
         e.null = 1 /\ e.qd = e.pd /\ e.ql = e.pl)
  ELSE IF e.n = 0 THEN {}
  ELSE LET k == Min2(e.old, e.n) IN
     F("C10", "reallocation failed", e.null = 0)
     \cup (IF e.null = 1 THEN {} ELSE
       F("C10", "reallocation changed the contents", SubSeq(e.qd, 1, k) = SubSeq(e.pd, 1, k))
       \cup F("C10", "reallocation lost or changed labels", SubSeq(e.ql, 1, k) = SubSeq(e.pl, 1, k)))
     \cup F("C10", "label of the returned pointer", e.rl = 0)

(* ---- control flow --------------------------------------------------------------------- *)
Zero4 == <<0, 0, 0, 0>>
TcfFails(s, e) ==
  F("C17", "the condition's value changed", e.ret = e.c)
  \cup F("C17", "the condition's label changed", e.rl = e.l)
TcfStep(s, e) == IF s.on /\ e.l # Zero4 THEN [s EXCEPT !.cfl = Append(@, <<2, e.fid, e.l>>)] ELSE s
FnIndex(s, name) == LET S == {i \in 1 .. Len(s.fn) : s.fn[i] = name} IN
                    IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
FentFails(s, e) ==
  F("C12", "function number", s.on => e.r = IF FnIndex(s, e.name) >= 0 THEN FnIndex(s, e.name) ELSE Len(s.fn))
  \cup F("C17", "function number before initialisation", ~s.on => e.r = 0)
FentStep(s, e) ==
  IF ~s.on THEN s
  ELSE LET s1 == IF FnIndex(s, e.name) >= 0 THEN s ELSE [s EXCEPT !.fn = Append(@, e.name)]
       IN [s1 EXCEPT !.evs = Append(@, <<0, FnIndex(s1, e.name)>>)]

(* ---- the specification ------------------------------------------------------------------ *)
Fails(s, e, tp) ==
  CASE e.op = "crash" -> {<<p, "the run did not end normally">> : p \in Active}
    [] e.op = "un" -> UnFails(s, e, tp)
    [] e.op = "ldn" -> LdnFails(s, e, tp)
    [] e.op = "open" -> OpenFails(s, e)
    [] e.op = "fopen" -> FopenFails(s, e)
    [] e.op = "read" -> ReadFails(s, e, tp)
    [] e.op = "bigread" -> LET x == s.h[e.h] IN
         F("C07", "read: return value", e.ret = Min2(e.req, FileAvail(s, x, ReadFrom(s, e))))
         \cup F("C07", "read: data", e.eq = 1)
         \cup BigFails(s, e, tp, x, ReadFrom(s, e), Max2(0, e.ret))
    [] e.op = "bigfread" -> LET x == s.st[e.h] IN
         F("C07", "fread: return value", e.ret = FreadK(s, e) \div e.sz)
         \cup F("C07", "fread: data", e.eq = 1)
         \cup BigFails(s, e, tp, x, KnownPos(s, x), e.ret * e.sz)
    [] e.op = "fread" -> FreadFails(s, e, tp)
    [] e.op = "getc" -> GetcFails(s, e, tp)
    [] e.op = "fgets" -> FgetsFails(s, e, tp)
    [] e.op = "getdelim" -> GetdelimFails(s, e, tp)
    [] e.op = "mmap" -> MmapFails(s, e, tp)
    [] e.op = "unmap" -> UnmapFails(s, e)
    [] e.op = "write" -> WriteFails(s, e)
    [] e.op = "fwrite" -> FwriteFails(s, e)
    [] e.op = "putc" -> PutcFails(s, e)
    [] e.op = "argv" -> ArgvFails(s, e, tp)
    [] e.op = "setl" -> SetFails(s, e)
    [] e.op = "addl" -> AddlFails(s, e, tp)
    [] e.op = "mem" -> MemFails(s, e, tp)
    [] e.op = "strdup" -> StrdupFails(s, e, tp)
    [] e.op = "realloc" -> ReallocFails(s, e)
    [] e.op = "calloc" -> F("C10", "calloc: contents or labels", e.null = 0 /\ e.d = Zeros(e.n) /\ AllZero(e.l) /\ e.rl = 0)
    [] e.op = "malloc" -> F("C10", "malloc: result", e.null = 0 /\ e.rl = 0)
    [] e.op = "tcf" -> TcfFails(s, e)
    [] e.op = "fent" -> FentFails(s, e)
    [] e.op = "close" -> F("C07", "close: return value",
                           (e.ret = 0) = (e.h \in DOMAIN s.h /\ s.h[e.h].k # "closed"))
                         \cup F("C08", "close: label of the result", e.rl = 0)
    [] e.op = "fclose" -> F("C07", "fclose: return value", e.ret = 0)
    [] e.op = "tell" -> F("C07", "file position", e.ret = KnownPos(s, s.h[e.h]))
    [] e.op = "ftell" -> F("C07", "stream position", e.ret = KnownPos(s, s.st[e.h]))
    [] e.op = "drain" -> LET d == s.q[s.h[e.h].rq] IN
         F("C07", "bytes that arrived at the peer",
           IF s.h[e.h].k = "dg" THEN e.data = SubSeq(DgMsg(s, s.h[e.h]), 1, Len(e.data))
           ELSE Len(e.data) <= Len(d) /\ e.data = SubSeq(d, 1, Len(e.data)) /\ (d # <<>> => e.ret >= 1))
    [] e.op = "tcp" -> F("C07", "connection set-up",
           e.st = 0 /\ e.fs >= 0 /\ e.gotport = e.cport /\ (e.fn = "accept4" => e.cloexec = 1))
         \cup F("C08", "label of the returned descriptor", e.rl = 0)
    [] e.op = "udp" -> F("C07", "connection set-up", e.st = 0)
    [] e.op = "connfail" -> F("C07", "failed connection reported as success", e.ret = -1 /\ e.err = 111)
         \cup F("C08", "label of the result", e.rl = 0)
    [] e.op = "accreset" -> F("C07", "accepting a connection that was reset, and an empty queue",
           e.st = 0 /\ e.ok = 1 /\ e.again = -1 /\ e.err = 11)
         \cup F("C08", "label of the returned descriptor", e.rl = 0)
    [] e.op = "udpoff" -> F("C07", "disconnecting a datagram socket", e.st = 0)
         \cup F("C08", "label of the result", e.rl = 0)
    [] e.op = "cmp" -> CmpFails(e)
    [] e.op = "find" -> FindFails(e)
    [] e.op = "conv" -> ConvFails(e, tp)
    [] e.op = "fmt" -> FmtFails(e, tp)
    [] e.op = "sys" -> SysFails(e, tp)
    [] e.op = "edge" -> EdgeFails(e)
    [] e.op = "callocfail" -> LET ok == e.null = 1 /\ e.err = 12 /\ e.rl = 0 IN
         F("C10", "an allocation that cannot succeed", ok) \cup F("C26", "an allocation that cannot succeed", ok)
    [] OTHER -> {}

Step(s, e) ==
  CASE e.op = "init" -> InitStep(s)
    [] e.op = "un" -> UnStep(s, e)
    [] e.op = "ldn" -> LdnStep(s, e)
    [] e.op = "conv" -> [s EXCEPT !.lo = Max2(@, e.rl), !.hi = Max2(@ + e.refend + 2, e.rl)]
    [] e.op = "br" -> IF s.on /\ e.l # 0 THEN [s EXCEPT !.mk = @ \cup {e.l}] ELSE s
    [] e.op = "mkfile" -> [s EXCEPT !.fs = (e.path :> [t |-> "f", d |-> e.data]) @@ @]
    [] e.op = "mkbig" -> [s EXCEPT !.fs = (e.path :> [t |-> "big", n |-> e.size, seed |-> e.seed]) @@ @]
    [] e.op = "mksparse" -> [s EXCEPT !.fs = (e.path :> [t |-> "sp", at |-> e.at, d |-> e.data]) @@ @]
    [] e.op = "mkfifo" -> [s EXCEPT !.fs = (e.path :> [t |-> "fifo"]) @@ @, !.q = (QOf(e.path) :> <<>>) @@ @]
    [] e.op = "unlink" -> [s EXCEPT !.fs = [p \in DOMAIN @ \ {e.path} |-> @[p]]]
    [] e.op = "umask" -> [s EXCEPT !.umask = e.m]
    [] e.op = "fsize" -> [s EXCEPT !.lim = e.n]
    [] e.op = "extwrite" -> [s EXCEPT !.fs[e.path].d = Patch(@, e.at, e.data)]
    [] e.op = "open" -> OpenStep(s, e)
    [] e.op = "fopen" -> FopenStep(s, e)
    [] e.op = "std" -> StdStep(s, e)
    [] e.op = "close" -> IF e.ret = 0 /\ e.h \in DOMAIN s.h THEN [s EXCEPT !.h[e.h].k = "closed"] ELSE s
    [] e.op = "pipe" ->
         LET x == [k |-> "q", path |-> "", o |-> DKey(e.hr), rq |-> ToString(e.hr), wq |-> ToString(e.hr),
                   rd |-> TRUE, wr |-> FALSE, app |-> FALSE, fd |-> e.fr]
         IN [s EXCEPT !.h = (e.hr :> x) @@ (e.hw :> [x EXCEPT !.rd = FALSE, !.wr = TRUE, !.fd = e.fw]) @@ @,
                      !.q = (ToString(e.hr) :> <<>>) @@ @]
    [] e.op \in {"sockpair", "tcp", "udp"} ->
         LET h1 == IF e.op = "sockpair" THEN e.h1 ELSE e.hc
             h2 == IF e.op = "sockpair" THEN e.h2 ELSE e.hs
             f1 == IF e.op = "sockpair" THEN e.f1 ELSE e.fc
             f2 == IF e.op = "sockpair" THEN e.f2 ELSE e.fs
             k == IF e.op = "udp" THEN "dg" ELSE IF e.op = "sockpair" /\ e.dgram = 1 THEN "dg" ELSE "q"
             x == [k |-> k, path |-> "", o |-> DKey(h1), rq |-> ToString(h1), wq |-> ToString(h2),
                   rd |-> TRUE, wr |-> TRUE, app |-> FALSE, fd |-> f1]
             s1 == [s EXCEPT !.h = (h1 :> x) @@ (h2 :> [x EXCEPT !.rq = x.wq, !.wq = x.rq, !.fd = f2]) @@ @,
                             !.q = (ToString(h1) :> <<>>) @@ (ToString(h2) :> <<>>) @@ @]
             nm(p, q) == "socket:127.0.0.1:" \o ToString(p) \o "-127.0.0.1:" \o ToString(q)
         IN IF e.op = "sockpair" THEN s1
            ELSE AddSrc(AddSrc(s1, nm(e.cport, e.sport), f1, None), nm(e.sport, e.cport), f2, None)
    [] e.op = "dup" -> [s EXCEPT !.h = (e.h :> [s.h[e.from] EXCEPT !.fd = e.fd]) @@ @]
    [] e.op = "feed" -> IF e.ret < 0 THEN s ELSE
         LET x == s.h[e.h] IN
         IF x.k = "dg" THEN [s EXCEPT !.q[x.wq] = Append(@, e.data)] ELSE [s EXCEPT !.q[x.wq] = @ \o SubSeq(e.data, 1, e.ret)]
    [] e.op = "drain" -> LET x == s.h[e.h] IN
         IF s.q[x.rq] = <<>> THEN s
         ELSE IF x.k = "dg" THEN [s EXCEPT !.q[x.rq] = Tail(@)]
         ELSE [s EXCEPT !.q[x.rq] = SubSeq(@, Len(e.data) + 1, Len(@))]
    [] e.op = "lseek" -> IF e.ret = None THEN s ELSE [s EXCEPT !.pos[s.h[e.h].o] = e.ret]
    [] e.op = "fseek" -> IF e.ret # 0 THEN s ELSE [s EXCEPT !.pos[s.st[e.h].o] = e.tell]
    [] e.op = "read" -> ReadStep(s, e)
    [] e.op = "bigread" -> LET x == s.h[e.h] IN BigStep(s, e, x, ReadFrom(s, e), Max2(0, e.ret))
    [] e.op = "bigfread" -> LET x == s.st[e.h] IN BigStep(s, e, x, KnownPos(s, x), e.ret * e.sz)
    [] e.op = "fread" -> FreadStep(s, e)
    [] e.op = "getc" -> GetcStep(s, e)
    [] e.op = "fgets" -> FgetsStep(s, e)
    [] e.op = "getdelim" -> GetdelimStep(s, e)
    [] e.op = "mmap" -> MmapStep(s, e)
    [] e.op = "unmap" -> UnmapStep(s, e)
    [] e.op = "write" -> WriteStep(s, e)
    [] e.op = "fwrite" -> FwriteStep(s, e)
    [] e.op = "putc" -> PutcStep(s, e)
    [] e.op = "argv" -> ArgvStep(s, e)
    [] e.op = "addl" -> AddlStep(s, e)
    [] e.op = "tcf" -> TcfStep(s, e)
    [] e.op = "ent" -> IF s.on THEN [s EXCEPT !.cfl = Append(@, <<0, e.fid, Zero4>>)] ELSE s
    [] e.op = "lev" -> IF s.on THEN [s EXCEPT !.cfl = Append(@, <<1, e.fid, Zero4>>)] ELSE s
    [] e.op = "fent" -> FentStep(s, e)
    [] e.op = "fex" -> IF s.on THEN [s EXCEPT !.evs = Append(@, <<1, e.i>>)] ELSE s
    [] e.op \in {"exit", "assert", "return", "_exit"} -> [s EXCEPT !.done = e.op]
    [] OTHER -> s

(* ---- the finished trace file --------------------------------------------------------------- *)
TabSrc(f) == {f.table[i][1] : i \in {j \in 1 .. Len(f.table) : f.table[j][2] = 1}}
ParentsOf(x) == CASE x[2] = 2 -> {x[3], x[4]} [] x[2] = 3 -> x[3] .. x[4] [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(ix, S, frontier) ==
  LET N == UNION {IF l \in DOMAIN ix THEN ParentsOf(ix[l]) ELSE {} : l \in frontier} \ S
  IN IF N = {} THEN S ELSE Reach(ix, S \cup N, N)
Index(f) == [l \in {f.table[i][1] : i \in 1 .. Len(f.table)} |->
               f.table[CHOOSE i \in 1 .. Len(f.table) : f.table[i][1] = l]]
NLabels(f) == Len(f.table) + FoldLeft(LAMBDA a, b : a + b[2], 0, f.blocks)
(* the sections of the file: f.sec <<tag, align, offset (pair), size (pair)>> *)
Plus(a, b) == <<a[1] + b[1] + (a[2] + b[2]) \div B27, (a[2] + b[2]) % B27>>
LessEq(a, b) == a = b \/ Less(a, b)
SecEnd(x) == Plus(x[3], x[4])
Entry == <<16, 8, 1, 16, 1, 4, 4, 1>>
LayoutOk(f) ==
  /\ Len(f.sec) = 8 /\ {f.sec[i][1] : i \in 1 .. Len(f.sec)} = 1 .. 8
  /\ \A i \in 1 .. 8 : /\ f.sec[i][2] > 0 /\ f.sec[i][3][2] % f.sec[i][2] = 0
                        /\ LessEq(<<0, 8 + 24 * 8>>, f.sec[i][3])
                        /\ LessEq(SecEnd(f.sec[i]), f.fsize)
                        /\ f.sec[i][4][2] % Entry[f.sec[i][1]] = 0
  /\ \A i, j \in 1 .. 8 : i # j => LessEq(SecEnd(f.sec[i]), f.sec[j][3]) \/ LessEq(SecEnd(f.sec[j]), f.sec[i][3])
Has(f, p, ok) == p \in DOMAIN f => ok
ReadsBack(s, f, tp) ==
  /\ f.zero = 1 /\ \A l \in DOMAIN tp.m : \A x \in tp.m[l] : x[1] >= 0
  /\ s.lo <= NLabels(f) /\ NLabels(f) <= s.hi
  /\ Has(f, "sources", f.sources = [i \in 1 .. Len(s.src) |-> <<s.src[i].name, s.src[i].fd>>])
  /\ Has(f, "sizes", f.sizes = [i \in 1 .. Len(s.src) |-> s.src[i].size])
  /\ Has(f, "sinks", f.sinks = s.sink)
  /\ Has(f, "functions", f.functions = s.fn)
  /\ Has(f, "events", f.events = s.evs)
  /\ Has(f, "cflog", f.cflog = s.cfl)
  /\ Has(f, "cf", Range0(f.cf) = Reach(Index(f), s.mk, s.mk))
  /\ Has(f, "idx", Range0(f.idx) = TabSrc(f))
Final(s, f, tp) ==
  F("C14", "sections: each once, aligned, behind the header, within the file, apart from each other, whole records",
       "sec" \in DOMAIN f => LayoutOk(f))
  \cup F("C14", "what was recorded before the end cannot be read back", ReadsBack(s, f, tp))
  \cup F("C16", "records made before the table was full are not intact", ReadsBack(s, f, tp))
  \cup F("C02", "malformed table entry", f.zero = 1 /\ \A l \in DOMAIN tp.m : \A x \in tp.m[l] : x[1] >= 0)
  \cup F("C02", "number of labels", s.lo <= NLabels(f) /\ NLabels(f) <= s.hi)
  \cup F("C03", "labels marked as affecting control flow",
       "cf" \in DOMAIN f => Range0(f.cf) = Reach(Index(f), s.mk, s.mk))
  \cup F("C03", "marking changed the label table", "same" \in DOMAIN f => f.same = 1)
  \cup F("C05", "source label index does not list exactly the source labels",
       "idx" \in DOMAIN f => /\ Range0(f.idx) = TabSrc(f)
                             /\ f.idxblocks = [i \in 1 .. Len(f.blocks) |-> <<f.blocks[i][1], f.blocks[i][2]>>])
  \cup F("C06", "recorded sources",
       "sources" \in DOMAIN f => f.sources = [i \in 1 .. Len(s.src) |-> <<s.src[i].name, s.src[i].fd>>])
  \cup F("C06", "recorded source sizes",
       "sizes" \in DOMAIN f => f.sizes = [i \in 1 .. Len(s.src) |-> s.src[i].size])
  \cup F("C11", "sources of standard streams and arguments",
       "sources" \in DOMAIN f => f.sources = [i \in 1 .. Len(s.src) |-> <<s.src[i].name, s.src[i].fd>>])
  \cup F("C09", "sink records", "sinks" \in DOMAIN f => f.sinks = s.sink)
  \cup F("C06", "written bytes attributed to another source than the last one opened on the descriptor", "sinks" \in DOMAIN f =>
       IF Len(f.sinks) = Len(s.sink) THEN \A i \in 1 .. Len(s.sink) : f.sinks[i][4] = s.sink[i][4]
       ELSE {f.sinks[i][4] : i \in 1 .. Len(f.sinks)} = {s.sink[i][4] : i \in 1 .. Len(s.sink)})
  \cup F("C07", "file contents after the run",
       "files" \in DOMAIN f => \A p \in DOMAIN f.files :
           IF p \in DOMAIN s.fs /\ s.fs[p].t = "f" THEN f.files[p] = s.fs[p].d
           ELSE p \in DOMAIN s.fs \/ f.files[p] = <<-1>>)
  \cup F("C12", "function names", "functions" \in DOMAIN f => f.functions = s.fn)
  \cup F("C12", "function entry and exit events", "events" \in DOMAIN f => f.events = s.evs)
  \cup F("C13", "control-flow log", "cflog" \in DOMAIN f => f.cflog = s.cfl)
  \cup F("C17", "records from before initialisation or missing records after it",
       "cflog" \in DOMAIN f /\ "events" \in DOMAIN f =>
         Len(f.cflog) = Len(s.cfl) /\ Len(f.events) = Len(s.evs) /\ Len(f.functions) = Len(s.fn))
=============================================================================
