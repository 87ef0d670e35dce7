---------------------------------- MODULE Exec ----------------------------------
(* An execution as the analyses see it: functions entered and left, basic blocks   *)
(* entered, input bytes touched.  Everything the navigation over events may be     *)
(* asked is defined here on the sequence of events.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Top(q) == IF q = <<>> THEN 0 ELSE q[Len(q)]
LastBlock(ev) == LET B == {i \in 1 .. Len(ev) : ev[i].k = "b"} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i
Ev(k, f, b, fr) == [k |-> k, f |-> f, b |-> b, fr |-> fr, r |-> {}]
(* one operation of the program *)
Apply(s, o) ==
  LET n == Len(s.ev) + 1  t == Top(s.st) IN
  IF o[1] = "c" THEN [ev |-> s.ev \o <<Ev("e", o[2], 0, n), Ev("b", o[2], 0, n)>>, st |-> Append(s.st, n), acc |-> s.acc]
  \* "d" and "y": another event lies between a call or return and the block after it
  ELSE IF o[1] = "d" THEN [ev |-> s.ev \o <<Ev("e", o[2], 0, n), Ev("n", 0, 0, n), Ev("b", o[2], 0, n)>>, st |-> Append(s.st, n), acc |-> s.acc]
  ELSE IF o[1] = "e" THEN [ev |-> Append(s.ev, Ev("e", o[2], 0, n)), st |-> Append(s.st, n), acc |-> s.acc]
  ELSE IF o[1] = "b" THEN [s EXCEPT !.ev = Append(@, Ev("b", s.ev[t].f, o[2], t))]
  ELSE IF o[1] \in {"x", "y"} THEN LET st == SubSeq(s.st, 1, Len(s.st) - 1)
                              ev == Append(s.ev, Ev("x", s.ev[t].f, 0, t)) \o (IF o[1] = "y" THEN <<Ev("n", 0, 0, Top(st))>> ELSE <<>>)
                          IN [ev |-> IF st = <<>> THEN ev ELSE Append(ev, Ev("b", s.ev[Top(st)].f, o[2], Top(st))), st |-> st, acc |-> s.acc]
  ELSE IF o[1] = "r" THEN [s EXCEPT !.ev = [@ EXCEPT ![LastBlock(s.ev)].r = @ \cup (o[2] .. o[2] + o[3] - 1)],
                                    !.acc = Append(@, <<1, o[2] .. o[2] + o[3] - 1>>)]
  ELSE IF o[1] = "q" THEN [s EXCEPT !.acc = Append(@, <<2, o[2] .. o[2] + o[3] - 1>>)]
  ELSE [s EXCEPT !.ev = Append(@, Ev("n", 0, 0, t))]
Run(ops) == FoldLeft(Apply, [ev |-> <<>>, st |-> <<>>, acc |-> <<>>], ops)
-----------------------------------------------------------------------------------
Least(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Most(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
Asc(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Is(E, k) == {i \in 1 .. Len(E) : E[i].k = k}
NextCF(E, i) == Least({j \in i + 1 .. Len(E) : E[j].k # "n"})
PrevCF(E, i) == Most({j \in 1 .. i - 1 : E[j].k # "n"})
(* the frame in which a function was called *)
Parent(E, e) == LET p == PrevCF(E, e) IN IF p = 0 THEN 0 ELSE IF E[p].k = "b" THEN E[p].fr ELSE 0
Caller(E, e) == LET p == Parent(E, e) IN IF p = 0 THEN 0 ELSE Most({i \in Is(E, "b") : i < e /\ E[i].fr = p})
BlocksOf(E, e) == {i \in Is(E, "b") : E[i].fr = e}
CallsOf(E, e) == {i \in Is(E, "e") : i > e /\ Parent(E, i) = e}
ReturnOf(E, e) == Least({i \in Is(E, "x") : E[i].fr = e})
RECURSIVE Bytes(_, _)
Bytes(E, e) == UNION {E[i].r : i \in BlocksOf(E, e)} \cup UNION {Bytes(E, i) : i \in CallsOf(E, e)}
EntryCount(E, b) == Cardinality({i \in Is(E, "b") : i < b /\ E[i].fr = E[b].fr /\ E[i].b = E[b].b})
Called(E, b) == Least({i \in Is(E, "e") : i > b /\ Caller(E, i) = b})
NextBlock(E, b) == Least({i \in BlocksOf(E, E[b].fr) : i > b})
NextTouching(E, b) == Least({i \in BlocksOf(E, E[b].fr) : i > b /\ E[i].r # {}})
ReturningTo(E, x) == LET i == NextCF(E, x) IN IF i = 0 THEN 0 ELSE IF E[i].k = "b" THEN i ELSE 0
(* the function entered next once a given one is over *)
NextEntry(E, e) == LET f == IF ReturnOf(E, e) = 0 THEN e ELSE ReturnOf(E, e) IN Least({i \in Is(E, "e") : i > f})
(* maximal runs of a set of offsets, in order *)
RECURSIVE RunEnd(_, _)
RunEnd(S, o) == IF o \in S THEN RunEnd(S, o + 1) ELSE o
Runs(S) == LET st == Asc({o \in S : o - 1 \notin S}) IN [i \in 1 .. Len(st) |-> <<st[i], RunEnd(S, st[i])>>]
(* use of the input *)
Touches(acc, s) == {i \in 1 .. Len(acc) : acc[i][1] = s}
FirstUse(acc, s, o) == Least({i \in Touches(acc, s) : o \in acc[i][2]})
Unused(acc, s, n) == {o \in 0 .. n - 1 : FirstUse(acc, s, o) = 0}
OutOfOrder(acc, s, n) == {o \in 1 .. n - 1 : FirstUse(acc, s, o) # 0 /\ FirstUse(acc, s, o - 1) > FirstUse(acc, s, o)}
RECURSIVE Flat(_, _, _)
Flat(acc, s, i) == IF i > Len(acc) THEN <<>>
                   ELSE (IF acc[i][1] = s THEN LET q == Asc(acc[i][2]) IN [k \in 1 .. Len(q) |-> <<i, q[k]>>] ELSE <<>>) \o Flat(acc, s, i + 1)
Seeks(acc, s) == LET q == Flat(acc, s, 1)
                     B == Asc({k \in 2 .. Len(q) : q[k][2] < q[k - 1][2]})
                 IN [j \in 1 .. Len(B) |-> <<q[B[j] - 1][2], q[B[j]][2]>>]
-----------------------------------------------------------------------------------
(* well-formedness of every execution, checked on the generator's states *)
WellFormed(ops) ==
  LET s == Run(ops)  E == s.ev IN
  /\ \A i \in 1 .. Len(s.st) : E[s.st[i]].k = "e" /\ ReturnOf(E, s.st[i]) = 0
  /\ \A e \in Is(E, "e") : (ReturnOf(E, e) = 0) = (\E i \in 1 .. Len(s.st) : s.st[i] = e)
  /\ \A e \in Is(E, "e") : Caller(E, e) # 0 => E[Caller(E, e)].fr = Parent(E, e) /\ Called(E, Caller(E, e)) = e
  /\ \A x \in Is(E, "x") : Caller(E, E[x].fr) # 0 => ReturningTo(E, x) = NextBlock(E, Caller(E, E[x].fr))
  /\ \A b \in Is(E, "b") : E[b].fr # 0 /\ E[b].f = E[E[b].fr].f
===============================================================================
