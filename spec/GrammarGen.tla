------------------------------- MODULE GrammarGen -------------------------------
(* Grammars: every set of at most MaxRules rules over the symbols, or random ones. *)
(* Also the design: Earley's chart accepts exactly the language, and the steps of   *)
(* simplification preserve it.                                                      *)
EXTENDS Grammar, Json, Randomization, SequencesExt
CONSTANTS NTs, Ts, MaxLen, MaxRules, N, CheckChart, Simplify, Steps
VARIABLES g, l0, n
vars == <<g, l0, n>>
Start == "<S>"
Words == UNION {[1 .. k -> Ts] : k \in 0 .. N}
Rules == UNION {[1 .. k -> NTs \cup Ts] : k \in 0 .. MaxLen}
Size(h) == FoldFunction(+, 0, [X \in DOMAIN h |-> Cardinality(h[X])])
(* every non-terminal has a rule, derives something and is used *)
Whole(h) == /\ \A X \in NTs : h[X] # {}
            /\ Productive(h) = NTs /\ Reachable(h, Start) = NTs
Dump(h) == [X \in DOMAIN h |-> SetToSeq(h[X])]
Init == g = [X \in NTs |-> {}] /\ l0 = {} /\ n = 0
Grow == /\ n = 0 /\ Size(g) < MaxRules
        /\ \E X \in NTs, r \in Rules : r \notin g[X] /\ g' = [g EXCEPT ![X] = @ \cup {r}]
        /\ l0' = IF Simplify /\ Whole(g') THEN Lang(g', N)[Start] ELSE {}
        /\ UNCHANGED n
(* the steps of simplification *)
DropSelf == \E X \in DOMAIN g : <<X>> \in g[X] /\ Cardinality(g[X]) > 1 /\ g' = [g EXCEPT ![X] = @ \ {<<X>>}]
Inline == \E X \in DOMAIN g \ {Start} :
            /\ Cardinality(g[X]) = 1
            /\ LET r == CHOOSE r \in g[X] : TRUE IN
               g' = RemoveNT([M \in DOMAIN g |-> {Subst(q, X, r) : q \in g[M]}], X)
DropEmpty == \E X \in DOMAIN g \ {Start} : X \notin WithTerminal(g) /\ g' = RemoveNT(g, X)
Reduce == /\ Simplify /\ (IF n = 1 THEN TRUE ELSE Whole(g)) /\ n' = 1 /\ UNCHANGED l0
          /\ (DropSelf \/ Inline \/ DropEmpty)
Next == Grow \/ Reduce
Spec == Init /\ [][Next]_vars
Emit == (n = 0 /\ Whole(g)) => PrintT("@S " \o ToJson(<<Dump(g)>>))
ChartIsLanguage == (CheckChart /\ Whole(g)) => LET L == Lang(g, N) IN \A w \in Words : Accepts(g, Start, w) = (w \in L[Start])
SimplifyKeeps == n = 1 => Lang(g, N)[Start] = l0 /\ WellFormed(g, NTs)
TerminalIsLanguage == (CheckChart /\ Whole(g)) => LET L == Lang(g, N) IN \A X \in NTs : (X \notin WithTerminal(g)) => L[X] = {<<>>}
(* random grammars *)
RandRule(z) == LET k == RandomElement(0 .. MaxLen) IN [i \in 1 .. k |-> RandomElement(NTs \cup Ts)]
SimNext == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED l0
           /\ g' = [X \in NTs |-> {RandRule(i) : i \in 1 .. RandomElement(1 .. MaxRules)}]
           /\ (Whole(g') => PrintT("@S " \o ToJson(<<Dump(g')>>)))
SimSpec == Init /\ [][SimNext]_vars
(* ---- histories of edits: a random grammar, then Steps edits; l0 is the log ------ *)
EditRule(z) == LET k == RandomElement(0 .. MaxLen) IN [i \in 1 .. k |-> RandomElement(DOMAIN g \cup Ts)]
Log(op, h) == l0' = Append(l0, op) /\ g' = h
(* keep the rules from growing without end *)
Small == \A X \in DOMAIN g : \A r \in g[X] : Len(r) < 8
EditInit == /\ g = [X \in NTs |-> {}] /\ l0 = <<>> /\ n = 0
EditFirst == /\ n = 0 /\ n' = 1
             /\ g' = [X \in NTs |-> {RandRule(i) : i \in 1 .. RandomElement(0 .. MaxRules)}]
             /\ l0' = <<Dump(g')>>
EditAdd == \E X \in DOMAIN g : LET r == EditRule(0) IN Log(<<"add", X, "", r>>, Add(g, X, r))
EditNew == \E X \in NTs \ DOMAIN g : LET r == EditRule(0) IN Log(<<"new", X, "", r>>, Add(g, X, r))
EditRemove == \E X \in DOMAIN g \ {Start} : Log(<<"rm", X, "", <<>>>>, RemoveNT(g, X))
EditReplace == \E U, X \in DOMAIN g : X \in Refs(g, U) /\ Small /\ LET r == EditRule(0) IN Log(<<"rep", U, X, r>>, Replace(g, U, X, r))
EditReplaceNT == \E U, X, Y \in DOMAIN g : X \in Refs(g, U) /\ Log(<<"repnt", U, X, <<Y>>>>, Replace(g, U, X, <<Y>>))
EditRemoveUse == \E U, X \in DOMAIN g : X \in Refs(g, U) /\ Log(<<"rsp", U, X, <<>>>>, Replace(g, U, X, <<>>))
EditSimplify == /\ Productive(g) = DOMAIN g /\ Log(<<"simp", "", "", <<>>>>, g)
EditQuery == Log(<<"query", "", "", <<>>>>, g)
EditNext == \/ EditFirst
            \/ n > 0 /\ n <= Steps /\ n' = n + 1
               /\ (EditAdd \/ EditNew \/ EditRemove \/ EditReplace \/ EditReplaceNT \/ EditRemoveUse \/ EditSimplify \/ EditQuery)
               /\ (n' > Steps => PrintT("@S " \o ToJson(l0')))
EditSpec == EditInit /\ [][EditNext]_vars
EditSane == n = 0 \/ WellFormed(g, NTs)
===============================================================================
