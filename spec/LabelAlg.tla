------------------------------ MODULE LabelAlg ------------------------------
(* Design model of the label table: how labels are created, combined and      *)
(* marked.  The table only ever grows; a label denotes a set of input bytes   *)
(* (its provenance), and the model checks that the combination rules, the     *)
(* reuse of recent labels and the control-flow marking keep the meaning of    *)
(* every label exact.  TLC explores every history within the constants, and   *)
(* (through the history variable, which the VIEW hides) prints each           *)
(* transition so that the same history is replayed on the real code.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Blocks,      \* sequence of <<size, first byte>>: source labels arrive in blocks
          MaxLabels,   \* bound on the size of the table
          Window,      \* how many recent labels are searched for a duplicate
          MaxMarks,    \* bound on marking operations
          Emit         \* "all": print the history of every transition, "leaf":
                       \* only of histories of EmitLen operations, "no": nothing
CONSTANT EmitLen

VARIABLES table,   \* Seq of [k: "s"|"u"|"r", a, b, cf]; label = index
          blk,     \* how many blocks have been read
          marks,   \* labels that decided a branch
          hist     \* operations so far

vars == <<table, blk, marks, hist>>

Src(i)      == [k |-> "s", a |-> i, b |-> 0, cf |-> FALSE]
Rng(a, b)   == [k |-> "r", a |-> a, b |-> b, cf |-> FALSE]
Uni(a, b)   == [k |-> "u", a |-> IF a > b THEN a ELSE b, b |-> IF a > b THEN b ELSE a, cf |-> FALSE]
Max(a, b)   == IF a > b THEN a ELSE b
SameBut(x, y) == x.k = y.k /\ x.a = y.a /\ x.b = y.b

(* Meaning: the set of input bytes a label stands for *)
RECURSIVE Prov(_, _)
Prov(t, l) ==
  IF l = 0 THEN {}
  ELSE LET e == t[l] IN
    CASE e.k = "s" -> {e.a}
      [] e.k = "u" -> Prov(t, e.a) \cup Prov(t, e.b)
      [] e.k = "r" -> UNION {Prov(t, x) : x \in e.a .. e.b}

Parents(t, l) == LET e == t[l] IN
    CASE e.k = "s" -> {} [] e.k = "u" -> {e.a, e.b} [] e.k = "r" -> e.a .. e.b

RECURSIVE Closure(_, _)
Closure(t, S) ==
  LET N == S \cup UNION {Parents(t, l) : l \in S}
  IN IF N = S THEN S ELSE Closure(t, N)

(* ---- the combination rules ------------------------------------------------ *)
Lbl(x) == [new |-> FALSE, l |-> x, e |-> Src(0)]
New(e) == [new |-> TRUE, l |-> 0, e |-> e]
Plain(l, r) == IF l + 1 = r THEN New(Rng(l, r))
               ELSE IF r + 1 = l THEN New(Rng(r, l))
               ELSE New(Uni(l, r))
InR(e, x) == e.a <= x /\ x <= e.b
InU(e, x) == e.a = x \/ e.b = x

RangeSource(rng, rl, sl, l, r) ==
  IF InR(rng, sl) THEN Lbl(rl)
  ELSE IF sl + 1 = rng.a THEN New(Rng(sl, rng.b))
  ELSE IF rng.b + 1 = sl THEN New(Rng(rng.a, sl))
  ELSE Plain(l, r)
UnionSource(u, ul, sl, l, r) == IF InU(u, sl) THEN Lbl(ul) ELSE Plain(l, r)
UnionRange(u, ul, rng, rl, l, r) ==
  LET lo == u.b  hi == u.a IN
  IF InR(rng, ul) THEN Lbl(rl)
  ELSE IF rng.a <= lo /\ hi <= rng.b THEN Lbl(rl)
  ELSE IF InU(u, rl) THEN Lbl(ul)
  ELSE IF lo + 1 = rng.a /\ InR(rng, hi) THEN New(Rng(lo, rng.b))
  ELSE IF lo + 1 = rng.a /\ hi = rng.b + 1 THEN New(Rng(lo, hi))
  ELSE IF lo + 1 # rng.a /\ hi = rng.b + 1 /\ InR(rng, lo) THEN New(Rng(rng.a, hi))
  ELSE IF ul + 1 = rng.a THEN New(Rng(ul, rng.b))
  ELSE IF rng.b + 1 = ul THEN New(Rng(rng.a, ul))
  ELSE Plain(l, r)

Combine(t, l, r) ==
  LET x == t[l]  y == t[r] IN
  CASE x.k = "s" /\ y.k = "s" -> IF x.a = y.a THEN Lbl(l) ELSE Plain(l, r)
    [] x.k = "u" /\ y.k = "u" ->
         IF InU(x, r) THEN Lbl(l) ELSE IF InU(y, l) THEN Lbl(r)
         ELSE IF SameBut(x, y) THEN Lbl(l) ELSE Plain(l, r)
    [] x.k = "r" /\ y.k = "r" ->
         IF InR(x, r) THEN Lbl(l) ELSE IF InR(y, l) THEN Lbl(r)
         ELSE IF x.a <= y.a /\ y.b <= x.b THEN Lbl(l)
         ELSE IF y.a <= x.a /\ x.b <= y.b THEN Lbl(r)
         ELSE IF x.b + 1 = y.a THEN New(Rng(x.a, y.b))
         ELSE IF y.b + 1 = x.a THEN New(Rng(y.a, x.b))
         ELSE Plain(l, r)
    [] x.k = "r" /\ y.k = "s" -> RangeSource(x, l, r, l, r)
    [] x.k = "s" /\ y.k = "r" -> RangeSource(y, r, l, l, r)
    [] x.k = "u" /\ y.k = "s" -> UnionSource(x, l, r, l, r)
    [] x.k = "s" /\ y.k = "u" -> UnionSource(y, r, l, l, r)
    [] x.k = "u" /\ y.k = "r" -> UnionRange(x, l, y, r, l, r)
    [] x.k = "r" /\ y.k = "u" -> UnionRange(y, r, x, l, l, r)

(* the result label and the table after combining l and r *)
UnionStep(t, l, r) ==
  IF l = r THEN [l |-> l, t |-> t]
  ELSE LET c == Combine(t, l, r) IN
    IF ~c.new THEN [l |-> c.l, t |-> t]
    ELSE LET n == Len(t)
             lo == Max(Max(l, r), IF n > Window THEN n - Window + 1 ELSE 1)
             dup == {i \in lo .. n : SameBut(t[i], c.e)}
         IN IF dup # {} THEN [l |-> CHOOSE i \in dup : \A j \in dup : j <= i, t |-> t]
            ELSE [l |-> n + 1, t |-> Append(t, c.e)]

(* ---- behaviour ------------------------------------------------------------ *)
Init == table = <<>> /\ blk = 0 /\ marks = {} /\ hist = <<>>

NewBlock ==
  /\ blk < Len(Blocks)
  /\ Len(table) + Blocks[blk + 1][1] <= MaxLabels
  /\ table' = table \o [i \in 1 .. Blocks[blk + 1][1] |-> Src(Blocks[blk + 1][2] + i - 1)]
  /\ blk' = blk + 1
  /\ hist' = Append(hist, <<"src", Blocks[blk + 1][1], Blocks[blk + 1][2], 0>>)
  /\ UNCHANGED marks

Unite(l, r) ==
  LET u == UnionStep(table, l, r) IN
  /\ Len(u.t) <= MaxLabels
  /\ table' = u.t
  /\ hist' = Append(hist, <<"un", l, r, u.l>>)
  /\ UNCHANGED <<blk, marks>>

Mark(l) ==
  /\ Cardinality(marks) < MaxMarks
  /\ LET C == Closure(table, {l}) IN
     table' = [i \in 1 .. Len(table) |-> IF i \in C THEN [table[i] EXCEPT !.cf = TRUE] ELSE table[i]]
  /\ marks' = marks \cup {l}
  /\ hist' = Append(hist, <<"br", l, 0, 0>>)
  /\ UNCHANGED blk

Next == \/ NewBlock
        \/ \E l, r \in 1 .. Len(table) : Unite(l, r)
        \/ \E l \in 1 .. Len(table) : Mark(l)
Spec == Init /\ [][Next]_vars

(* ---- properties ----------------------------------------------------------- *)
LabelsOf == 1 .. Len(table)
TypeOK == \A l \in LabelsOf : table[l].k \in {"s", "u", "r"}
WellFormed == \A l \in LabelsOf : LET e == table[l] IN
   /\ e.k = "u" => 1 <= e.b /\ e.b < e.a /\ e.a < l
   /\ e.k = "r" => 1 <= e.a /\ e.a < e.b /\ e.b < l
MarksExact == {l \in LabelsOf : table[l].cf} = Closure(table, marks)
(* every combination possible in this state means exactly the union, allocates *)
(* at most one label, is idempotent, and absorbs what it already contains      *)
UnionExact == \A l, r \in LabelsOf :
   LET u == UnionStep(table, l, r) IN
   /\ Prov(u.t, u.l) = Prov(table, l) \cup Prov(table, r)
   /\ Len(u.t) <= Len(table) + 1
   /\ UnionStep(u.t, u.l, l).t = u.t /\ UnionStep(u.t, r, u.l).t = u.t
   /\ UnionStep(u.t, l, r) = [l |-> u.l, t |-> u.t]
   /\ UnionStep(u.t, r, l).t = u.t
(* a label never changes meaning *)
Stable == [][\A l \in 1 .. Len(table) :
                /\ SameBut(table[l], table'[l])
                /\ table[l].cf => table'[l].cf]_vars

View == <<table, blk, marks>>
EmitTransition == \/ Emit # "all"
                  \/ PrintT("@H " \o ToJson(<<hist', table'>>))
(* for simulation: a few random choices per step, and the history printed at the end *)
Some(S) == RandomSubset(IF Cardinality(S) < 3 THEN Cardinality(S) ELSE 3, S)
SimNext ==
  \/ /\ Len(hist) < EmitLen
     /\ \/ blk < 1 /\ NewBlock
        \/ /\ blk >= 1
           /\ \/ RandomElement(1 .. 4) = 1 /\ NewBlock
              \/ \E l, r \in Some(LabelsOf) : Unite(l, r)
              \/ \E l \in Some(LabelsOf) : RandomElement(1 .. 3) = 1 /\ Mark(l)
  \/ /\ Len(hist) = EmitLen
     /\ PrintT("@H " \o ToJson(<<hist, <<>>>>))
     /\ hist' = Append(hist, <<"end", 0, 0, 0>>)
     /\ UNCHANGED <<table, blk, marks>>
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
