--------------------------------- MODULE GraphRead ---------------------------------
(* What a directed graph has to answer: roots, distances, ancestors, descendants,     *)
(* immediate dominators.  Nodes are numbers, edges pairs.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
VARIABLES tid, done, bad
Set(q) == {q[i] : i \in 1 .. Len(q)}
RECURSIVE Ball(_, _, _)
Ball(G, S, k) == IF k = 0 THEN S ELSE LET T == Ball(G, S, k - 1) IN T \cup {e[2] : e \in {e \in G : e[1] \in T}}
(* the distance from a to b, -1 without a path *)
Dist(N, G, a, b) == LET K == {k \in 0 .. Cardinality(N) : b \in Ball(G, {a}, k)} IN IF K = {} THEN -1 ELSE CHOOSE k \in K : \A j \in K : k <= j
Reach(N, G, a) == Ball(G, {a}, Cardinality(N))
Without(G, d) == {e \in G : e[1] # d /\ e[2] # d}
(* d lies on every path from r to n *)
Dom(N, G, r, d, n) == d = n \/ d = r \/ n \notin Reach(N, Without(G, d), r)
Strict(N, G, r, n) == {d \in Reach(N, G, r) \ {n} : Dom(N, G, r, d, n)}
IDom(N, G, r, n) == CHOOSE d \in Strict(N, G, r, n) : \A x \in Strict(N, G, r, n) : Dom(N, G, r, x, d)
Forest(N, G, R) == UNION {{<<IDom(N, G, r, n), n>> : n \in Reach(N, G, r) \ {r}} : r \in R}
Once(q) == Len(q) = Cardinality(Set(q))
Verdict(t) ==
  LET r == t.r  N == Set(t.nodes)  G == Set(t.edges)
      R == IF t.given THEN Set(t.roots) ELSE {n \in N : \A e \in G : e[2] # n}
      D == [a \in N |-> [b \in N |-> Dist(N, G, a, b)]]
      If(p, what) == IF p THEN {} ELSE {<<"C29", what>>} IN
  If(Set(r.roots) = R /\ Once(r.roots), "roots") \cup
  If(\A a, b \in N : r.dist[a][b] = D[a][b], "length of the shortest path") \cup
  If(R = {} \/ \A n \in N : r.depth[n] = LET K == {D[a][n] : a \in R} \ {-1} IN IF K = {} THEN -1 ELSE CHOOSE k \in K : \A j \in K : k <= j, "depth") \cup
  If(\A n \in N : /\ Once(r.anc[n]) /\ Set(r.anc[n]) = {a \in N \ {n} : D[a][n] # -1}
                  /\ \A i \in 1 .. Len(r.anc[n]) - 1 : D[r.anc[n][i]][n] <= D[r.anc[n][i + 1]][n], "ancestors, the nearest first") \cup
  If(\A n \in N : Once(r.desc[n]) /\ Set(r.desc[n]) = {b \in N \ {n} : D[n][b] # -1}, "descendants") \cup
  If(\A n \in N : r.one[n] = (Cardinality({e \in G : e[2] = n}) = 1), "exactly one predecessor") \cup
  If(Set(r.forest) = Forest(N, G, R), "immediate dominators") \cup
  If(Set(r.again) = Set(r.forest), "asking twice") \cup
  If(Set(r.union) = G \cup Set(t.other), "union of graphs")
TInit == tid \in 1 .. Len(Tr) /\ done = FALSE /\ bad = {}
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
         /\ bad' = LET t == Tr[tid] IN IF t.error # "" THEN {<<"C29", "a query fails">>} ELSE Verdict(t)
TSpec == TInit /\ [][TNext]_<<tid, done, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, 1, bad>>)
View == <<tid, done, bad>>
===============================================================================
