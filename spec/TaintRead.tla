------------------------------- MODULE TaintRead --------------------------------
(* What a collection of input bytes has to answer.  A byte is <<source, offset>>, *)
(* a region <<source, first offset, length>>.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
VARIABLES tid, done, bad
Set(q) == {q[i] : i \in 1 .. Len(q)}
(* the maximal contiguous regions of a set of bytes *)
Starts(S) == {x \in S : <<x[1], x[2] - 1>> \notin S}
RECURSIVE RunLen(_, _, _)
RunLen(S, s, o) == IF <<s, o>> \in S THEN 1 + RunLen(S, s, o + 1) ELSE 0
Regions(S) == {<<x[1], x[2], RunLen(S, x[1], x[2])>> : x \in Starts(S)}
OnceEach(q, S) == Set(q) = S /\ Len(q) = Cardinality(S)
(* bytes or regions of one source come in increasing order *)
Rising(q) == \A i, j \in 1 .. Len(q) : i < j /\ q[i][1] = q[j][1] => q[i][2] < q[j][2]
(* all entries of one source stand together *)
Grouped(q) == \A i, j \in 1 .. Len(q) : i < j /\ q[i][1] = q[j][1] => \A k \in i .. j : q[k][1] = q[i][1]
(* where a pattern occurs inside the regions (content: source -> bytes) *)
Occurs(S, content, p) ==
  UNION {{<<g[1], o, Len(p)>> : o \in {o \in g[2] .. g[2] + g[3] - Len(p) : \A k \in 1 .. Len(p) : content[g[1]][o + k] = p[k]}} : g \in Regions(S)}
(* a slice from f to t (99: left out, negative: from the end) of n entries *)
Clamp(v, n) == IF v < 0 THEN (IF v + n < 0 THEN 0 ELSE v + n) ELSE IF v > n THEN n ELSE v
From(f, n) == IF f = 99 THEN 0 ELSE Clamp(f, n)
To(t, n) == IF t = 99 THEN n ELSE Clamp(t, n)
SliceOk(g, q, x) == LET f == From(q[1], g[3])  t == To(q[2], g[3])
                    IN IF f >= t THEN x[3] = 0 /\ x[1] = g[1] ELSE x = <<g[1], g[2] + f, t - f>>
Verdict(t) ==
  LET r == t.r
      A == Set(t.a)  B == Set(t.b)  RA == Regions(A)
      If(p, what) == IF p THEN {} ELSE {<<"C21", what>>} IN
  If(Set(r.sources) = {x[1] : x \in A}, "sources") \cup
  If(r.len = Cardinality(A) /\ r.bool = (A # {}), "number of bytes") \cup
  If(OnceEach(r.iter, A) /\ Rising(r.iter) /\ Grouped(r.iter), "iteration") \cup
  If(\A s \in 1 .. Len(r.from) : OnceEach(r.from[s], {x \in A : x[1] = s}) /\ Rising(r.from[s]), "bytes of one source") \cup
  If(OnceEach(r.regions, RA) /\ Rising(r.regions), "regions") \cup
  If(OnceEach(r.toreg, RA), "regions of an unsorted list") \cup
  If(\A i \in 1 .. Len(r.regions) : r.values[i] = [k \in 1 .. r.regions[i][3] |-> t.content[r.regions[i][1]][r.regions[i][2] + k]], "bytes of a region") \cup
  If(\A i \in 1 .. Len(t.pats) : OnceEach(r.find[i], Occurs(A, t.content, t.pats[i])) /\ Rising(r.find[i]), "search") \cup
  If(\A i \in 1 .. Len(t.pats) : r.contains[i] = (Occurs(A, t.content, t.pats[i]) # {}), "membership of a byte string") \cup
  If(OnceEach(r.first, A \ B) /\ Rising(r.first) /\ OnceEach(r.second, B \ A) /\ Rising(r.second), "difference") \cup
  If(OnceEach(r.rfirst, Regions(A \ B)) /\ OnceEach(r.rsecond, Regions(B \ A)), "regions of the difference") \cup
  If(r.differ = (A # B), "whether two collections differ") \cup
  If(\A i \in 1 .. Len(r.regions) : \A k \in 1 .. Len(t.slices) : SliceOk(r.regions[i], t.slices[k], r.slices[i][k]), "slice of a region") \cup
  If(\A i \in 1 .. Len(r.regions) : r.items[i] = [k \in 1 .. r.regions[i][3] |-> <<r.regions[i][1], r.regions[i][2] + k - 1, 1>>], "byte of a region")
TInit == tid \in 1 .. Len(Tr) /\ done = FALSE /\ bad = {}
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
         /\ bad' = LET t == Tr[tid] IN IF t.error # "" THEN {<<"C21", "a query fails">>} ELSE Verdict(t)
TSpec == TInit /\ [][TNext]_<<tid, done, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, 1, bad>>)
View == <<tid, done, bad>>
===============================================================================
