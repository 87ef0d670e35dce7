------------------------------- MODULE GrammarRead ------------------------------
(* What the parser and the grammar editor have to answer (C22, C23).               *)
EXTENDS Grammar, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
VARIABLES tid, done, bad
Start == "<S>"
(* rules arrive as a record: non-terminal -> sequence of rules *)
Load(d) == [X \in DOMAIN d |-> SetOf(d[X])]
If(p, c, what) == IF p \/ c \notin Active THEN {} ELSE {<<c, what>>}
(* ---- parsing: a grammar, and for words whether they match and their first trees -- *)
ParseVerdict(t) ==
  LET g == Load(t.rules)
      L == Lang(g, t.n)[Start]
      T == WithTerminal(g)
      cnt == Countable(g)
  IN UNION {LET x == t.words[i] IN
       If(x.acc = (x.w \in L), "C22", IF x.acc THEN "a word outside the language is accepted" ELSE "a word of the language is rejected") \cup
       If(x.acc = (Len(x.trees) > 0), "C22", "match and parse trees disagree") \cup
       If(\A j \in 1 .. Len(x.trees) : x.trees[j].n = Start /\ ValidTree(g, T, x.trees[j]), "C22", "a parse tree is no derivation") \cup
       If(\A j \in 1 .. Len(x.trees) : YieldOf(x.trees[j]) = x.w, "C22", "a parse tree does not yield the word") \cup
       If(x.first, "C22", "the parse tree of a match is none of its parse trees") \cup
       (IF cnt /\ x.w \in L
        THEN LET m == CountTrees(g, Start, x.w) IN
             If(Len(x.trees) = (IF m > t.cap THEN t.cap ELSE m) /\ Cardinality(SetOf(x.trees)) = Len(x.trees), "C22", "a derivation is missing or listed twice")
        ELSE {}) : i \in 1 .. Len(t.words)}
(* ---- editing: a grammar and the dumps after each edit ------------------------------ *)
After1(g, op) ==
  CASE op[1] = "add" -> Add(g, op[2], op[4])
    [] op[1] = "new" -> Add(g, op[2], op[4])
    [] op[1] = "rm" -> RemoveNT(g, op[2])
    [] op[1] \in {"rep", "repnt", "rsp"} -> Replace(g, op[2], op[3], op[4])
    [] OTHER -> g
Used(g, X) == {U \in DOMAIN g : X \in Refs(g, U)}
Sound(g, e, nts) ==
  If(WellFormed(g, nts), "C23", "a referenced non-terminal is not defined") \cup
  If(\A X \in DOMAIN g : SetOf(e.used[X]) = Used(g, X), "C23", "the use relation is wrong") \cup
  If(e.verify = "" \/ (e.verify = "DisconnectedGrammarError" /\ ~(WithTerminal(g) \subseteq Reachable(g, Start))), "C23", "the grammar does not verify") \cup
  (* productions with the same rules count as one *)
  If(e.verify # "" \/ WithTerminal(g) \subseteq Reachable(g, Start) \/ Cardinality({g[X] : X \in DOMAIN g}) < Cardinality(DOMAIN g), "C23", "a grammar with symbols that cannot be reached verifies") \cup
  If(e.held, "C23", "a production holds a rule twice or does not know its rules") \cup
  If(e.kept, "C23", "simplification removes a production that is to stay") \cup
  If(e.damage = <<>>, "C23", "a damaged grammar verifies")
EditStep(g, h, e, n, nts) ==
  Sound(h, e, nts) \cup
  (IF e.op[1] = "simp"
   THEN If(Start \in DOMAIN h /\ DOMAIN h \subseteq DOMAIN g, "C23", "simplification loses the start symbol or invents others") \cup
        If(Productive(g) = DOMAIN g => Start \in DOMAIN h /\ Lang(h, n)[Start] = Lang(g, n)[Start], "C23", "simplification changes the language")
   ELSE If(h = After1(g, e.op), "C23", "an edit has another effect") \cup
        If(e.op[1] # "add" \/ e.added = (h # g), "C23", "an addition reports another effect")) \cup
  (IF e.asked /\ Productive(h) = DOMAIN h /\ h[Start] # {}
   THEN If(LET L == Lang(h, n)[Start] IN \A i \in 1 .. Len(e.words) : e.words[i].acc = (e.words[i].w \in L), "C23", "after edits the parser accepts another language")
   ELSE {})
EditVerdict(t) ==
  LET G(i) == IF i = 0 THEN Load(t.rules) ELSE Load(t.edits[i].rules)
      nts == SetOf(t.nts)
  IN UNION {IF t.edits[i].error # "" THEN If(FALSE, "C23", "an edit fails")
            ELSE EditStep(G(i - 1), G(i), t.edits[i], t.n, nts) : i \in 1 .. Len(t.edits)}
TInit == tid \in 1 .. Len(Tr) /\ done = FALSE /\ bad = {}
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
         /\ bad' = LET t == Tr[tid] IN
                   IF t.error # "" THEN {<<t.prop, "a query fails">>}
                   ELSE IF t.kind = "parse" THEN ParseVerdict(t) ELSE EditVerdict(t)
TSpec == TInit /\ [][TNext]_<<tid, done, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, 1, bad>>)
View == <<tid, done, bad>>
===============================================================================
