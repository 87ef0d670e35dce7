--------------------------------- MODULE Grammar ---------------------------------
(* Context-free grammars: a grammar g maps every non-terminal to a set of rules,   *)
(* a rule is a sequence of symbols, and a symbol that is not in DOMAIN g is a      *)
(* terminal of one byte.  A non-terminal without rules derives the empty word.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RulesOf(g, N) == IF g[N] = {} THEN {<<>>} ELSE g[N]
SetOf(q) == {q[i] : i \in 1 .. Len(q)}
Refs(g, N) == UNION {SetOf(r) \cap DOMAIN g : r \in g[N]}
(* ---- the language, cut at words of length n: a least fixed point -------------- *)
RECURSIVE SeqWords(_, _, _)
SeqWords(L, q, n) ==
  IF q = <<>> THEN {<<>>}
  ELSE LET rest == SeqWords(L, Tail(q), n) IN
       IF q[1] \in DOMAIN L THEN {w \in {u \o v : u \in L[q[1]], v \in rest} : Len(w) <= n}
       ELSE {<<q[1]>> \o v : v \in {v \in rest : Len(v) < n}}
RECURSIVE Lfp(_, _, _)
Lfp(g, L, n) ==
  LET M == [N \in DOMAIN g |-> UNION {SeqWords(L, r, n) : r \in RulesOf(g, N)}] IN
  IF M = L THEN L ELSE Lfp(g, M, n)
Lang(g, n) == Lfp(g, [N \in DOMAIN g |-> {}], n)
(* ---- which non-terminals derive anything, reach, derive nothing but the empty word *)
RECURSIVE ProdFix(_, _)
ProdFix(g, P) ==
  LET Q == {N \in DOMAIN g : \E r \in RulesOf(g, N) : SetOf(r) \cap DOMAIN g \subseteq P} IN
  IF Q = P THEN P ELSE ProdFix(g, Q)
Productive(g) == ProdFix(g, {})
RECURSIVE ReachFix(_, _)
ReachFix(g, R) == LET Q == R \cup UNION {Refs(g, N) : N \in R} IN IF Q = R THEN R ELSE ReachFix(g, Q)
Reachable(g, s) == ReachFix(g, {s})
RECURSIVE TermFix(_, _)
TermFix(g, T) ==
  LET Q == {N \in DOMAIN g : \E r \in g[N] : \E x \in SetOf(r) : x \notin DOMAIN g \/ x \in T} IN
  IF Q = T THEN T ELSE TermFix(g, Q)
(* of productive grammars: exactly those that derive some non-empty word *)
WithTerminal(g) == TermFix(g, {})
(* ---- Earley's algorithm: items <<N, rule, dot, from, to>> ---------------------- *)
After(it) == it[2][it[3] + 1]
Open(it) == it[3] < Len(it[2])
ChartStep(g, w, C) ==
  C \cup UNION {
    IF Open(it) THEN
      IF After(it) \in DOMAIN g
      THEN {<<After(it), r, 0, it[5], it[5]>> : r \in RulesOf(g, After(it))} \cup
           {<<it[1], it[2], it[3] + 1, it[4], d[5]>> : d \in {d \in C : ~Open(d) /\ d[1] = After(it) /\ d[4] = it[5]}}
      ELSE IF it[5] < Len(w) /\ w[it[5] + 1] = After(it) THEN {<<it[1], it[2], it[3] + 1, it[4], it[5] + 1>>} ELSE {}
    ELSE {} : it \in C}
RECURSIVE ChartFix(_, _, _)
ChartFix(g, w, C) == LET D == ChartStep(g, w, C) IN IF D = C THEN C ELSE ChartFix(g, w, D)
Accepts(g, s, w) ==
  LET C == ChartFix(g, w, {<<s, r, 0, 0, 0>> : r \in RulesOf(g, s)})
  IN \E it \in C : it[1] = s /\ ~Open(it) /\ it[4] = 0 /\ it[5] = Len(w)
(* ---- derivation trees: [n |-> non-terminal, t |-> terminal, c |-> children] ----- *)
RECURSIVE Matches(_, _, _, _), ValidTree(_, _, _)
(* the children c derive by the rule q *)
Matches(g, T, q, c) ==
  /\ Len(q) = Len(c)
  /\ \A i \in 1 .. Len(q) : IF q[i] \in DOMAIN g THEN c[i].n = q[i] /\ ValidTree(g, T, c[i]) ELSE c[i].t = q[i]
(* a non-terminal that can only derive the empty word need not be expanded; T: those that can derive more *)
ValidTree(g, T, t) ==
  /\ t.n \in DOMAIN g
  /\ (t.c = <<>> /\ t.n \notin T) \/ \E q \in RulesOf(g, t.n) : Matches(g, T, q, t.c)
RECURSIVE YieldOf(_), YieldAll(_)
YieldOf(t) == IF t.t # "" THEN <<t.t>> ELSE YieldAll(t.c)
YieldAll(c) == IF c = <<>> THEN <<>> ELSE YieldOf(c[1]) \o YieldAll(Tail(c))
(* ---- the number of derivation trees, for grammars without empty and unit rules -- *)
Countable(g) == \A N \in DOMAIN g : g[N] # {} /\ \A r \in g[N] : Len(r) > 0 /\ (Len(r) = 1 => r[1] \notin DOMAIN g)
RECURSIVE CountSeq(_, _, _), SumOver(_, _, _), CountSplit(_, _, _, _)
SumOver(g, S, w) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN CountSeq(g, r, w) + SumOver(g, S \ {r}, w)
CountSplit(g, q, w, k) ==
  IF k = 0 THEN 0
  ELSE (LET c == SumOver(g, g[q[1]], SubSeq(w, 1, k)) IN IF c = 0 THEN 0 ELSE c * CountSeq(g, Tail(q), SubSeq(w, k + 1, Len(w))))
       + CountSplit(g, q, w, k - 1)
CountSeq(g, q, w) ==
  IF Len(q) > Len(w) THEN 0
  ELSE IF q = <<>> THEN (IF w = <<>> THEN 1 ELSE 0)
  ELSE IF q[1] \notin DOMAIN g THEN (IF w[1] = q[1] THEN CountSeq(g, Tail(q), Tail(w)) ELSE 0)
  ELSE CountSplit(g, q, w, Len(w) - Len(q) + 1)
CountTrees(g, s, w) == SumOver(g, g[s], w)
(* ---- editing ---------------------------------------------------------------------- *)
RECURSIVE Subst(_, _, _)
Subst(q, X, with) == IF q = <<>> THEN <<>> ELSE (IF q[1] = X THEN with ELSE <<q[1]>>) \o Subst(Tail(q), X, with)
Replace(g, U, X, with) == [g EXCEPT ![U] = {Subst(r, X, with) : r \in @}]
Add(g, N, r) == IF N \in DOMAIN g THEN [g EXCEPT ![N] = @ \cup {r}] ELSE [M \in DOMAIN g \cup {N} |-> IF M = N THEN {r} ELSE g[M]]
RemoveNT(g, X) == [N \in DOMAIN g \ {X} |-> {Subst(r, X, <<>>) : r \in g[N]}]
WellFormed(g, nts) == \A N \in DOMAIN g : \A r \in g[N] : SetOf(r) \cap nts \subseteq DOMAIN g
===============================================================================
