-------------------------------- MODULE IOGen --------------------------------
(* Which library calls an instrumented program can make, in which order: an     *)
(* abstract model of descriptors, streams, files and queues.  It decides what   *)
(* is enabled (so that nothing blocks and nothing is undefined in C), its       *)
(* behaviours are the scripts replayed in the real runtime; what the calls have *)
(* to do is specified in PT.  Two ways of exploring it: breadth first over a    *)
(* small alphabet (every sequence up to a length), and random simulation.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Ops,        \* enabled operation classes
          Small,      \* TRUE: reduced parameter sets (exhaustive exploration)
          MaxLen,     \* length of the sequences
          ND, NS      \* number of descriptor and stream handles

VARIABLES st, hist, steps
vars == <<st, hist, steps>>

S(x) == ToString(x)
Pick(small, big) == IF Small THEN small ELSE big
DH == 1 .. ND
SH == 11 .. 10 + NS
Free == [k |-> "no", path |-> "", pos |-> 0, rd |-> FALSE, wr |-> FALSE, app |-> FALSE, last |-> "n", peer |-> 0]
DPaths == {"a", "b", "n"}
SPaths == {"s", "t", "u"}
Init == /\ st = [d |-> [h \in DH |-> Free], s |-> [h \in SH |-> Free],
                 sz |-> [p \in DPaths \cup SPaths |->
                           CASE p = "a" -> 9 [] p = "b" -> 4 [] p = "s" -> 23 [] p = "t" -> 4 [] OTHER -> -1],
                 q |-> [h \in DH |-> 0], lim |-> -1, fifo |-> FALSE]
        /\ hist = <<>> /\ steps = 0

Path(p) == "{D}/" \o p
Has(f, c) == \E i \in 1 .. Len(f) : SubSeq(f, i, i) = c
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

OpenS == {h \in SH : st.s[h].k = "file"}

(* ---- descriptors ------------------------------------------------------------ *)
OpenFn == Pick({"open", "raw"}, {"open", "open64", "openat", "raw"})
OpenFlags == Pick({"r", "rwc", "rwa"}, {"r", "w", "rw", "rwc", "wct", "wca", "rwa", "rwcx", "rwct"})
FirstFree == {h \in DH : st.d[h].k \in {"no", "closed"}}
Lowest(H) == {h \in H : \A g \in H : h <= g}
OpenC == {<<"open " \o f \o " " \o S(h) \o " " \o Path(p) \o " " \o fl \o " " \o m,
            IF (st.sz[p] < 0 /\ ~Has(fl, "c")) \/ (st.sz[p] >= 0 /\ Has(fl, "x")) THEN st
            ELSE [st EXCEPT !.d[h] = [Free EXCEPT !.k = "file", !.path = p, !.rd = (fl = "r" \/ Has(fl, "r")),
                                        !.wr = Has(fl, "w"), !.app = Has(fl, "a")],
                            !.sz[p] = IF @ < 0 \/ Has(fl, "t") THEN 0 ELSE @]>> :
          f \in OpenFn, h \in Lowest(FirstFree), p \in Pick({"a", "n"}, DPaths), fl \in OpenFlags,
          m \in Pick({"0644"}, {"0644", "0600", "0777"})}
OpenD == {h \in DH : st.d[h].k \notin {"no", "closed"}}
CloseC == {<<c \o " " \o S(h), [st EXCEPT !.d[h].k = "closed"]>> :
           h \in OpenD, c \in Pick({"close"}, {"close", "rawclose"})}
FileD == {h \in DH : st.d[h].k = "file"}
Bufs == Pick({"0 0", "1 4"}, {"0 0", "0 3", "1 4", "1 0", "0 11"})
ReadC == {<<"read read " \o S(h) \o " " \o b \o " " \o S(n),
            IF st.d[h].rd THEN [st EXCEPT !.d[h].pos = @ + Max2(0, Min2(n, st.sz[st.d[h].path] - @))] ELSE st>> :
          h \in FileD, b \in Bufs, n \in Pick({2, 12}, {0, 1, 2, 3, 5, 12})}
PreadC == {<<"read " \o f \o " " \o S(h) \o " " \o b \o " " \o S(n) \o " " \o S(at), st>> :
           h \in FileD, b \in Pick({"0 0"}, Bufs), n \in Pick({3}, {0, 1, 3, 12}), f \in Pick({"pread"}, {"pread", "pread64"}),
           at \in Pick({1}, {0, 1, 2, 7, 8, 9, 40})}
SeekC == {<<"lseek " \o S(h) \o " " \o w,
            [st EXCEPT !.d[h].pos =
               CASE w = "0 0" -> 0 [] w = "3 0" -> 3 [] w = "20 0" -> 20
                 [] w = "-1 1" -> IF @ > 0 THEN @ - 1 ELSE @
                 [] w = "2 1" -> @ + 2 [] w = "0 2" -> st.sz[st.d[h].path]
                 [] w = "4 2" -> st.sz[st.d[h].path] + 4]>> :
          h \in FileD, w \in Pick({"3 0", "0 2"}, {"0 0", "3 0", "20 0", "-1 1", "2 1", "0 2", "4 2"})}
Wrote(h, n) == \* number of bytes a write of n transfers
  LET x == st.d[h]
      at == IF x.app THEN st.sz[x.path] ELSE x.pos IN
  IF ~x.wr THEN 0 ELSE IF st.lim < 0 THEN n ELSE Max2(0, Min2(n, st.lim - at))
WriteC == {<<"write " \o f \o " " \o S(h) \o " " \o b \o " " \o S(n),
             LET x == st.d[h]
                 at == IF x.app THEN st.sz[x.path] ELSE x.pos
                 k == Wrote(h, n)
             IN IF k = 0 THEN st
                ELSE [st EXCEPT !.d[h].pos = at + k, !.sz[x.path] = Max2(@, at + k)]>> :
           h \in FileD, b \in Pick({"1 0", "0 0"}, Bufs), n \in Pick({4}, {0, 1, 4, 7, 12}),
           f \in Pick({"write"}, {"write", "raw"})}
TellC == {<<"tell " \o S(h), st>> : h \in FileD}
DupC == {<<"dup " \o S(h) \o " " \o S(g), [st EXCEPT !.d[h] = [st.d[g] EXCEPT !.k = "dup"]]>> :
         h \in Lowest(FirstFree), g \in FileD}
(* a duplicate shares its position with the original: it is only read by pread or closed *)
DupReadC == {<<"read pread " \o S(h) \o " 0 2 " \o S(n) \o " " \o S(at), st>> :
             h \in {g \in DH : st.d[g].k = "dup"}, n \in {1, 4}, at \in {0, 5}}
LimC == IF OpenS # {} THEN {} ELSE {<<"fsize " \o S(n), [st EXCEPT !.lim = n]>> : n \in IF st.lim < 0 THEN Pick({6}, {3, 6, 10}) ELSE {-1}}
BadC == {<<"read read " \o S(h) \o " 0 0 4", st>> : h \in {g \in DH : st.d[g].k = "closed" /\ \A x \in DH : x # g => st.d[x].k \in {"no"}}}

(* ---- streams ------------------------------------------------------------------- *)
Modes == Pick({"r", "w+", "a"}, {"r", "rb", "r+", "w", "w+", "a", "a+", "wb"})
Writer(m) == m \notin {"r", "rb"}
FopenOkay(p, m) == LET U == {h \in OpenS : st.s[h].path = p} IN
  IF Writer(m) THEN U = {} ELSE \A h \in U : ~st.s[h].wr
FopenP(p) ==
  {<<"fopen " \o f \o " " \o S(h) \o " " \o Path(p) \o " " \o m,
     IF st.sz[p] < 0 /\ Has(m, "r") THEN st
     ELSE [st EXCEPT !.s[h] = [Free EXCEPT !.k = "file", !.path = p,
                        !.rd = (Has(m, "r") \/ Has(m, "+")), !.wr = Writer(m), !.app = Has(m, "a"),
                        !.pos = IF m = "a" THEN Max2(0, st.sz[p]) ELSE 0],
                     !.sz[p] = IF Has(m, "w") \/ @ < 0 THEN 0 ELSE @]>> :
   f \in Pick({"fopen"}, {"fopen", "fopen64", "raw"}), h \in IF st.lim < 0 THEN Lowest({g \in SH : st.s[g].k = "no"}) ELSE {},
   m \in {y \in Modes : FopenOkay(p, y)}}
FopenC == UNION {FopenP(p) : p \in Pick({"s"}, SPaths)}
FcloseC == {<<"fclose " \o S(h), [st EXCEPT !.s[h] = Free]>> : h \in OpenS}
CanR == {h \in OpenS : st.s[h].last # "w"}
CanW == {h \in OpenS : st.s[h].last # "r"}
Left(h) == IF st.s[h].rd THEN Max2(0, st.sz[st.s[h].path] - st.s[h].pos) ELSE 0
R(h, n) == [st EXCEPT !.s[h].pos = @ + Min2(n, Left(h)), !.s[h].last = "r"]
FreadC == {<<"fread " \o f \o " " \o S(h) \o " " \o b \o " " \o S(x[1]) \o " " \o S(x[2]), R(h, x[1] * x[2])>> :
           f \in Pick({"fread"}, {"fread", "fread_unlocked"}), h \in CanR, b \in Pick({"0 0"}, Bufs),
           x \in Pick({<<1, 3>>, <<5, 2>>}, {<<1, 0>>, <<0, 3>>, <<1, 1>>, <<1, 5>>, <<2, 2>>, <<3, 4>>, <<5, 2>>, <<7, 1>>, <<12, 1>>})}
GetcC == {<<"getc " \o f \o " " \o S(h) \o " 5", R(h, 1)>> :
          f \in Pick({"fgetc"}, {"fgetc", "fgetc_unlocked", "_IO_getc", "getc", "getc_unlocked"}), h \in CanR}
(* the position after a line depends on the data, which this model does not know: *)
(* it only has to stay an upper bound on what is left                              *)
FgetsC == {<<"fgets " \o S(h) \o " " \o b \o " " \o S(n), [st EXCEPT !.s[h].last = "r"]>> :
           h \in CanR, b \in Pick({"0 0"}, Bufs), n \in Pick({4, 20}, {1, 2, 3, 4, 5, 12})}
GetdC == {<<"getdelim " \o f \o " " \o S(h) \o " " \o S(d) \o " 6", [st EXCEPT !.s[h].last = "r"]>> :
          f \in Pick({"getdelim"}, {"getdelim", "__getdelim"}), h \in CanR, d \in Pick({10}, {10, 69, 255})}
FseekC == {<<"fseek " \o S(h) \o " " \o w, [st EXCEPT !.s[h].last = "n"]>> :
           h \in OpenS, w \in Pick({"3 0", "0 2"}, {"0 0", "3 0", "11 0", "-1 2", "0 2", "2 1", "0 1", "30 0"})}
W(h, n) == [st EXCEPT !.s[h].last = "w", !.sz[st.s[h].path] = IF n = 0 \/ ~st.s[h].wr THEN @ ELSE Max2(@, 1)]
FwriteC == {<<"fwrite " \o S(h) \o " " \o b \o " " \o S(x[1]) \o " " \o S(x[2]), W(h, x[1] * x[2])>> :
            h \in CanW, b \in Pick({"1 0"}, Bufs), x \in Pick({<<2, 2>>}, {<<1, 0>>, <<0, 3>>, <<1, 1>>, <<2, 2>>, <<1, 6>>, <<4, 3>>})}
PutcC == {<<"putc " \o f \o " " \o S(h) \o " " \o S(g) \o " " \o S(c), W(h, 1)>> :
          f \in Pick({"putc"}, {"putc", "fputc"}), h \in CanW, g \in Pick({1}, {0, 1, 5, 6}), c \in Pick({65}, {65, 0, 255, 256, 321, -1})}
FtellC == {<<"ftell " \o S(h), st>> : h \in {g \in OpenS : ~st.s[g].app}}

(* ---- queues: a fifo, connections ------------------------------------------------- *)
FreeD == {h \in DH : st.d[h].k = "no"}
FifoC == IF st.fifo THEN {} ELSE
         {<<"mkfifo " \o Path("f") \o "|open " \o f \o " " \o S(h) \o " " \o Path("f") \o " rw 0",
            [st EXCEPT !.fifo = TRUE, !.d[h] = [Free EXCEPT !.k = "q", !.rd = TRUE, !.wr = TRUE, !.peer = h], !.q[h] = 0]>> :
          f \in {"open", "raw"}, h \in Lowest(FreeD)}
ConnC == IF Cardinality(FreeD) < 2 THEN {} ELSE
         LET h == CHOOSE x \in Lowest(FreeD) : TRUE
             g == CHOOSE x \in Lowest(FreeD \ {h}) : TRUE
             two(k) == [st EXCEPT !.d[h] = [Free EXCEPT !.k = k, !.rd = TRUE, !.wr = TRUE, !.peer = g],
                                  !.d[g] = [Free EXCEPT !.k = k, !.rd = TRUE, !.wr = TRUE, !.peer = h],
                                  !.q[h] = 0, !.q[g] = 0]
             pp == S(h) \o " " \o S(g)
         IN {<<"tcp " \o pp \o " accept", two("q")>>, <<"tcp " \o pp \o " accept4", two("q")>>,
             <<"udp " \o pp, two("dg")>>, <<"sockpair " \o pp, two("q")>>, <<"sockpair " \o pp \o " dgram", two("dg")>>,
             <<"pipe " \o pp, [two("q") EXCEPT !.d[h].wr = FALSE, !.d[g].rd = FALSE]>>}
QD == {h \in DH : st.d[h].k \in {"q", "dg"} /\ st.d[st.d[h].peer].k = st.d[h].k}
Into(h, n) == LET p == st.d[h].peer IN
  [st EXCEPT !.q[p] = IF st.d[h].k = "dg" THEN @ + 1 ELSE @ + n]
FeedC == {<<"feed " \o S(h) \o " " \o x[1], Into(h, x[2])>> : h \in {g \in QD : st.d[g].wr},
          x \in {<<"41", 1>>, <<"616263", 3>>, <<"30313233343536", 7>>}}
QReadC == {<<"read " \o f \o " " \o S(h) \o " " \o b \o " " \o S(n) \o fl,
             [st EXCEPT !.q[h] = IF st.d[h].k = "dg" THEN @ - 1 ELSE Max2(0, @ - n)]>> :
           f \in {"read"}, h \in {g \in QD : st.d[g].rd /\ st.q[g] > 0}, b \in Bufs, n \in {1, 2, 5, 12}, fl \in {""}}
SockD == {h \in QD : st.d[h].rd /\ st.d[h].wr /\ st.d[h].peer # h}
RecvC == {<<"read " \o f \o " " \o S(h) \o " " \o b \o " " \o S(n) \o " " \o S(fl),
            [st EXCEPT !.q[h] = IF st.d[h].k = "dg" THEN @ - 1 ELSE Max2(0, @ - n)]>> :
          f \in {"recv", "recvfrom"}, h \in {g \in SockD : st.q[g] > 0}, b \in Bufs, n \in {1, 2, 5, 12},
          fl \in {0, 64}}
TruncC == {<<"read " \o f \o " " \o S(h) \o " " \o b \o " " \o S(n) \o " 32",
             [st EXCEPT !.q[h] = @ - 1]>> :
           f \in {"recv", "recvfrom"}, h \in {g \in SockD : st.q[g] > 0 /\ st.d[g].k = "dg"}, b \in Bufs, n \in {1, 2, 5}}
QWriteC == {<<"write " \o f \o " " \o S(h) \o " " \o b \o " " \o S(n), Into(h, n)>> :
            f \in {"write"}, h \in {g \in QD : st.d[g].wr}, b \in Bufs, n \in {1, 4, 7}}
SendC == {<<"write send " \o S(h) \o " " \o b \o " " \o S(n), Into(h, n)>> : h \in SockD, b \in Bufs, n \in {1, 4, 7}}
DrainC == {<<"drain " \o S(h) \o " 20", [st EXCEPT !.q[h] = IF st.d[h].k = "dg" THEN @ - 1 ELSE Max2(0, @ - 20)]>> :
           h \in {g \in QD : st.d[g].rd /\ st.q[g] > 0}}

(* ---- labels ------------------------------------------------------------------------ *)
LabC == {<<x, st>> : x \in {"lb 0 0 1", "lb 1 1 2", "lb 1 5 1", "lb 0 4 2", "un 1 2 3", "un 5 6 4", "un 3 1 1",
                           "setl 0 2 3 3", "setl 1 6 2 4", "setl 0 0 1 0", "setl 1 3 9 0", "fill 0 1 7778", "fill 1 7 797a",
                           "br 1", "br 3", "br 5"}}

Class(o) ==
  CASE o = "open" -> OpenC [] o = "close" -> CloseC [] o = "read" -> ReadC [] o = "pread" -> PreadC
    [] o = "seek" -> SeekC [] o = "write" -> WriteC [] o = "tell" -> TellC [] o = "dup" -> DupC
    [] o = "dupread" -> DupReadC [] o = "lim" -> LimC [] o = "bad" -> BadC
    [] o = "fopen" -> FopenC
    [] o = "fclose" -> FcloseC [] o = "fread" -> FreadC [] o = "getc" -> GetcC [] o = "fgets" -> FgetsC
    [] o = "getdelim" -> GetdC [] o = "fseek" -> FseekC [] o = "fwrite" -> FwriteC [] o = "putc" -> PutcC
    [] o = "ftell" -> FtellC [] o = "fifo" -> FifoC [] o = "conn" -> ConnC [] o = "feed" -> FeedC
    [] o = "qread" -> QReadC [] o = "recv" -> RecvC [] o = "trunc" -> TruncC [] o = "qwrite" -> QWriteC
    [] o = "send" -> SendC [] o = "drain" -> DrainC [] o = "lab" -> LabC

(* what is still open at the end of a sequence is closed again *)
Closers == LET d == {h \in DH : st.d[h].k \notin {"no", "closed"}}
               t == OpenS IN
  (IF st.lim < 0 THEN <<>> ELSE <<"fsize -1">>)
  \o [i \in 1 .. ND |-> IF i \in d THEN "close " \o S(i) ELSE "%"]
  \o [i \in 1 .. NS |-> IF 10 + i \in t THEN "fclose " \o S(10 + i) ELSE "%"]

Do(c) == st' = c[2] /\ hist' = Append(hist, c[1])
Next == /\ Len(hist) < MaxLen /\ UNCHANGED steps
        /\ \E o \in Ops : \E c \in Class(o) : Do(c)
Spec == Init /\ [][Next]_vars

(* simulation: a random operation per step, nothing if it is not possible now *)
SimNext == IF steps < MaxLen
           THEN /\ steps' = steps + 1
                /\ \E o \in RandomSubset(1, Ops) : LET C == Class(o) IN
                     IF C = {} THEN UNCHANGED <<st, hist>> ELSE \E c \in RandomSubset(1, C) : Do(c)
           ELSE /\ steps = MaxLen
                /\ PrintT("@S " \o ToJson(hist \o Closers))
                /\ steps' = steps + 1 /\ UNCHANGED <<st, hist>>
SimSpec == Init /\ [][SimNext]_vars

TypeOK == /\ \A h \in DH : st.d[h].pos >= 0 /\ st.q[h] >= 0
          /\ \A h \in FileD : st.sz[st.d[h].path] >= 0
          /\ \A h \in OpenS : st.sz[st.s[h].path] >= 0
(* nothing that reads or writes a stream is ever enabled on a stream opened for *)
(* writing elsewhere (the two would not see each other's buffers)               *)
OneWriter == \A h, g \in OpenS : h # g /\ st.s[h].path = st.s[g].path => ~st.s[h].wr
Emit == Len(hist) = MaxLen => PrintT("@S " \o ToJson(hist \o Closers))
=============================================================================
