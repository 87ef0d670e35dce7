--------------------------------- MODULE ExecRead ---------------------------------
(* What the analyses have to say about an execution: navigation over its events     *)
(* (C27), and the parse tree and grammar extracted from it (C28).                   *)
EXTENDS Exec, TLC, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
VARIABLES tid, done, bad
Set(q) == {q[i] : i \in 1 .. Len(q)}
Name(f) == "f" \o ToString(f)
(* ---- C27 ---------------------------------------------------------------------- *)
NavOk(E, i, v, inp) ==
  LET If(p, what) == IF p THEN {} ELSE {<<"C27", what>>} IN
  If(v.ncf = NextCF(E, i) /\ v.pcf = PrevCF(E, i), "next and previous control-flow event") \cup
  IF E[i].k = "e" THEN
    If(v.caller = Caller(E, i), "caller of a function") \cup
    If(v.entry = Least(BlocksOf(E, i)), "first block of a function") \cup
    (IF BlocksOf(E, i) = {} THEN {} ELSE If(v.fn = Name(E[i].f), "function that was entered")) \cup
    If(v.calls = Asc(CallsOf(E, i)), "functions called by a function") \cup
    If(v.bbs = Asc(BlocksOf(E, i)), "blocks of a function") \cup
    If(v.iter = Asc(CallsOf(E, i) \cup BlocksOf(E, i)), "blocks and calls of a function, in order") \cup
    If(v.taints = Asc(Bytes(E, i)) /\ v.touched = (Bytes(E, i) # {}), "input bytes of an invocation") \cup
    If(v.ret = ReturnOf(E, i), "return of an invocation")
  ELSE IF E[i].k = "b" THEN
    If(v.count = EntryCount(E, i), "how often a block was entered") \cup
    If(v.called = Called(E, i), "function called by a block") \cup
    If(v.nbb = NextBlock(E, i), "next block of the function") \cup
    If(v.ntbb = NextTouching(E, i), "next block that touched input") \cup
    If(v.fn = Name(E[i].f), "function of a block") \cup
    If(v.tokens = LET q == Runs(E[i].r) IN [k \in 1 .. Len(q) |-> SubSeq(inp, q[k][1] + 1, q[k][2])], "tokens of a block")
  ELSE IF E[i].k = "x" THEN
    If(v.to = ReturningTo(E, i), "block returned to") \cup
    (IF BlocksOf(E, E[i].fr) = {} THEN {} ELSE If(v.from = Name(E[i].f), "function returned from"))
  ELSE {}
Nav(t) ==
  LET s == Run(t.ops)  E == s.ev  r == t.r  n == Len(t.inp)
      If(p, what) == IF p THEN {} ELSE {<<"C27", what>>} IN
  IF [i \in 1 .. Len(E) |-> <<E[i].k, E[i].f, E[i].b, E[i].fr>>] # r.events THEN {<<"C27", "driver and model disagree about the events">>} ELSE
  UNION {NavOk(E, i, r.nav[i], t.inp) : i \in 1 .. Len(E)} \cup
  If(r.ftrace = Asc(Is(E, "e")) /\ r.ncalls = Cardinality(Is(E, "e")), "functions of the trace") \cup
  If(r.nbbs = Cardinality(Is(E, "b")), "number of blocks entered") \cup
  If(r.entry = Least(Is(E, "e")), "entry point of the trace") \cup
  If(r.nfe0 = Least(Is(E, "e")) /\ \A k \in 1 .. Len(r.nfe) : r.nfe[k] = NextEntry(E, r.ftrace[k]), "function entered next") \cup
  If(Set(r.same) = {<<i, i>> : i \in 1 .. Len(E)} /\ Set(r.invsame) = {<<i, i>> : i \in Is(E, "e")}, "equality of events") \cup
  If(r.order = [i \in 1 .. Len(E) |-> i], "order of events") \cup
  If(r.unused = Asc(Unused(s.acc, 1, n)), "input bytes never used") \cup
  If(r.ooo = Asc(OutOfOrder(s.acc, 1, n)), "input bytes used out of order") \cup
  If([k \in 1 .. Len(r.seeks) |-> <<r.seeks[k][2], r.seeks[k][3]>>] = Seeks(s.acc, 1), "steps back in the input")
(* ---- C28 ---------------------------------------------------------------------- *)
(* a tree: nodes in preorder, each [k, u (event), t (bytes), b, e (range), c (children)] *)
RECURSIVE Pre(_, _)
Pre(T, i) == <<i>> \o FlattenSeq([k \in 1 .. Len(T[i].c) |-> Pre(T, T[i].c[k])])
RECURSIVE Post(_, _)
Post(T, i) == FlattenSeq([k \in 1 .. Len(T[i].c) |-> Post(T, T[i].c[k])]) \o <<i>>
Text(T) == FlattenSeq([i \in 1 .. Len(T) |-> IF T[i].c = <<>> THEN T[i].t ELSE <<>>])
Shape(T) == [i \in 1 .. Len(T) |-> <<T[i].k, T[i].u, T[i].t, T[i].c>>]
(* children lie side by side and fill their parent *)
Fills(T, i) == LET c == T[i].c IN
  c = <<>> \/ /\ T[c[1]].b = T[i].b /\ T[c[Len(c)]].e = T[i].e
              /\ \A k \in 1 .. Len(c) - 1 : T[c[k]].e = T[c[k + 1]].b
              /\ \A k \in 1 .. Len(c) : T[c[k]].b < T[c[k]].e
Kids(T, i) == SelectSeq([k \in 1 .. Len(T[i].c) |-> T[T[i].c[k]].u], LAMBDA u : u # 0)
SubSeqOf(a, b) == Len(a) <= Len(b) /\ \E S \in SUBSET (1 .. Len(b)) : Cardinality(S) = Len(a) /\ LET q == Asc(S) IN \A k \in 1 .. Len(a) : a[k] = b[q[k]]
Rises(a) == \A k \in 1 .. Len(a) - 1 : a[k] < a[k + 1]
Hull(S) == <<Least({o + 1 : o \in S}) - 1, Most({o + 1 : o \in S})>>
(* the reads were those of a parser that never looks at a byte of another block *)
Touching(E) == {i \in Is(E, "b") : E[i].r # {}}
RECURSIVE Under(_, _)
Under(E, e) == BlocksOf(E, e) \cup UNION {Under(E, i) : i \in CallsOf(E, e)}
Clean(E, e) == \A i, j \in {i \in Under(E, e) : E[i].r # {}} : i < j => Hull(E[i].r)[2] <= Hull(E[j].r)[1]
Symbols(T, r, i) == [k \in 1 .. Len(T[i].c) |-> LET n == T[T[i].c[k]] IN IF n.k = "t" THEN [n |-> "", t |-> n.t] ELSE [n |-> n.name, t |-> <<>>]]
Tree(t) ==
  LET E == Run(t.ops).ev  r == t.r  T == r.tree  n == Len(t.inp)  root == Least(Is(E, "e"))
      If(p, what) == IF p THEN {} ELSE {<<"C28", what>>}
      Inner == {i \in 1 .. Len(T) : T[i].k # "t"} IN
  If(Text(T) = t.inp /\ r.matches = t.inp, "the tree spells the input") \cup
  If(Pre(T, 1) = [i \in 1 .. Len(T) |-> i], "preorder") \cup
  If(r.post = Post(T, 1), "postorder") \cup
  If(r.leaves = Asc({i \in 1 .. Len(T) : T[i].c = <<>>}), "leaves") \cup
  If(r.desc = Len(T) - 1, "number of descendants") \cup
  If(Set(r.dag) = UNION {{<<i, T[i].c[k]>> : k \in 1 .. Len(T[i].c)} : i \in 1 .. Len(T)}, "tree as a graph") \cup
  If(T[1].k = "S" /\ T[1].b = 0 /\ T[1].e = n, "the root spans the input") \cup
  If(\A i \in 1 .. Len(T) : Fills(T, i), "children lie side by side and fill their parent") \cup
  If(\A i \in 1 .. Len(T) : T[i].k = "t" => T[i].c = <<>> /\ T[i].t = SubSeq(t.inp, T[i].b + 1, T[i].e), "bytes of a terminal") \cup
  If(\A i \in Inner : T[i].c # <<>>, "every leaf is a terminal") \cup
  If(Set(Kids(T, 1)) \subseteq {root} /\
     \A i \in Inner \ {1} : LET k == Kids(T, i) IN
        IF T[i].k = "b" THEN k = <<>>
        ELSE Rises(k) /\ Set(k) \subseteq CallsOf(E, T[i].u) \cup BlocksOf(E, T[i].u), "nodes follow the calls of the trace") \cup
  If(\A i \in Inner : T[i].k = "b" => LET h == Hull(E[T[i].u].r) IN h[1] <= T[i].b /\ T[i].e <= h[2], "a block covers bytes it touched") \cup
  If(root # 0 /\ Clean(E, root) =>
     /\ \A b \in Under(E, root) : E[b].r # {} => \E i \in Inner : T[i].k = "b" /\ T[i].u = b /\ <<T[i].b, T[i].e>> = Hull(E[b].r)
     /\ \A i \in Inner : T[i].k = "f" => <<T[i].b, T[i].e>> = Hull(Bytes(E, T[i].u)), "blocks of a straightforward parser own their bytes") \cup
  If(Shape(r.clone) = Shape(T) /\ [i \in 1 .. Len(T) |-> <<r.clone[i].b, r.clone[i].e>>] = [i \in 1 .. Len(T) |-> <<T[i].b, T[i].e>>], "a clone equals its original") \cup
  If(r.after = T, "changing a clone leaves the original alone") \cup
  If(Text(r.simp) = t.inp /\ \A i \in 1 .. Len(r.simp) : Fills(r.simp, i), "a simplified tree spells the input") \cup
  If(Set([i \in 1 .. Len(r.simp) |-> <<r.simp[i].k, r.simp[i].u>>]) \subseteq Set([i \in 1 .. Len(T) |-> <<T[i].k, T[i].u>>]) /\
     \A i \in 1 .. Len(T) : T[i].k = "f" => \E j \in 1 .. Len(r.simp) : r.simp[j].u = T[i].u, "a simplified tree keeps the calls") \cup
  If(r.verified /\ ~r.verwrong, "verification of a tree") \cup
  If(r.start = T[1].name, "start of the grammar") \cup
  If({x[1] : x \in Set(r.rules)} = {T[i].name : i \in Inner} /\
     \A x \in Set(r.rules) : Set(x[2]) = {Symbols(T, r, i) : i \in {i \in Inner : T[i].name = x[1]}}, "rules of the grammar") \cup
  If(\A i, j \in Inner : T[i].name = T[j].name => T[i].k = T[j].k /\ (T[i].k = "S" \/ E[T[i].u].f = E[T[j].u].f), "names of productions") \cup
  If(r.acc, "the grammar accepts the input") \cup
  If(r.accs, "the simplified grammar accepts the input") \cup
  If(r.ext /\ r.exts, "the extracted grammar accepts the input")
TInit == tid \in 1 .. Len(Tr) /\ done = FALSE /\ bad = {}
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
         /\ bad' = LET t == Tr[tid] IN
              IF t.error # "" THEN {<<IF "C27" \in Active THEN "C27" ELSE "C28", "a query fails">>}
              ELSE IF "C27" \in Active THEN Nav(t) ELSE Tree(t)
TSpec == TInit /\ [][TNext]_<<tid, done, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, 1, bad>>)
View == <<tid, done, bad>>
===============================================================================
