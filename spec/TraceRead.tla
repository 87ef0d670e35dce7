------------------------------- MODULE TraceRead -------------------------------
(* What a reader has to make of a trace: the listing (C18), the input-output      *)
(* mapping and the cavities (C19), the inputs behind marks and labels (C20).       *)
(* A trace record holds the contents of the file (src, lab, sinks, fns, events)    *)
(* and what the reader answered (r).  Input bytes are <<descriptor, name, offset>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
VARIABLES tid, done, bad
Range1(q) == {q[i] : i \in 1 .. Len(q)}
Parents(lab, l) == LET e == lab[l] IN CASE e[1] = 1 -> {} [] e[1] = 2 -> {e[2], e[3]} [] OTHER -> e[2] .. e[3]
(* the input bytes each label stands for, from the first label on *)
Byte(src, e) == <<src[e[2] + 1][2], src[e[2] + 1][1], e[3]>>
RECURSIVE Build(_, _, _)
Build(src, lab, acc) ==
  IF Len(acc) = Len(lab) THEN acc
  ELSE LET e == lab[Len(acc) + 1]
           S == CASE e[1] = 1 -> {Byte(src, e)}
                  [] e[1] = 2 -> acc[e[2]] \cup acc[e[3]]
                  [] OTHER -> UNION {acc[x] : x \in e[2] .. e[3]}
       IN Build(src, lab, Append(acc, S))
Deno(t) == Build(t.src, t.lab, <<>>)
Of(D, l) == IF l = 0 THEN {} ELSE D[l]
Inputs(t) == {l \in 1 .. Len(t.lab) : t.lab[l][1] = 1}

(* ---- C18 ------------------------------------------------------------------- *)
(* forest nodes: <<label, parents (none or two), byte (none or one), mark>>      *)
RECURSIVE Up(_, _, _)
Up(F, todo, seen) ==      \* F: label -> node; the bytes reached from todo
  IF todo = {} THEN UNION {Range1(F[l][3]) : l \in seen}
  ELSE LET N == UNION {Range1(F[l][2]) : l \in todo} \ (seen \cup todo) IN Up(F, N, seen \cup todo)
Forest(t, D) ==
  LET q == t.r.forest
      S == {q[i][1] : i \in 1 .. Len(q)}
      F == [l \in S |-> q[CHOOSE i \in 1 .. Len(q) : q[i][1] = l]]
      n == Len(t.lab) IN
  (IF Cardinality(S) # Len(q) THEN {<<"C18", "a label has more than one node">>} ELSE {}) \cup
  (IF {l \in S : l >= 0} # 0 .. n THEN {<<"C18", "labels of the taint forest">>}
   ELSE IF \E l \in S : ~(Range1(F[l][2]) \subseteq S) THEN {<<"C18", "a parent is not in the forest">>}
   ELSE (IF \E l \in 1 .. n : Up(F, {l}, {}) # D[l] THEN {<<"C18", "bytes behind a node of the forest">>} ELSE {}) \cup
        (IF \/ \E l \in 1 .. n : F[l][4] # t.lab[l][4]
            \/ \E l \in S : \E p \in Range1(F[l][2]) : p < 0 /\ F[p][4] # F[l][4]
         THEN {<<"C18", "control-flow mark of a node">>} ELSE {}) \cup
        (IF \E l \in S : Len(F[l][2]) \notin {0, 2} \/ (Len(F[l][3]) = 1) # (l \in Inputs(t))
         THEN {<<"C18", "kind of a node">>} ELSE {}) \cup
        (IF Range1(t.r.edges) # UNION {{<<p, l>> : p \in Range1(F[l][2])} : l \in S} THEN {<<"C18", "edges of the exported forest">>} ELSE {}))
Listing(t) ==
  LET r == t.r IN
  (IF r.sources # t.src THEN {<<"C18", "sources">>} ELSE {}) \cup
  (IF r.count # Len(t.lab) + 1 THEN {<<"C18", "number of labels">>} ELSE {}) \cup
  (IF r.nodes # t.lab THEN {<<"C18", "labels">>} ELSE {}) \cup
  (IF r.inputlabels # SetToSortSeq(Inputs(t), <) THEN {<<"C18", "input labels">>} ELSE {}) \cup
  (IF r.sinks # t.sinks THEN {<<"C18", "output records">>} ELSE {}) \cup
  (IF r.functions # t.fns THEN {<<"C18", "functions">>} ELSE {}) \cup
  (IF r.events # t.events THEN {<<"C18", "events">>} ELSE {}) \cup
  (IF r.outputs # [i \in 1 .. Len(t.sinks) |-> LET k == t.sinks[i] IN <<t.src[k[3] + 1][2], t.src[k[3] + 1][1], k[1], k[2]>>]
   THEN {<<"C18", "outputs of the trace">>} ELSE {}) \cup
  (IF Range1(r.inputs) # {<<t.src[t.lab[l][2] + 1][2], t.src[t.lab[l][2] + 1][1]>> : l \in Inputs(t)}
   THEN {<<"C18", "inputs of the trace">>} ELSE {}) \cup
  (IF ~r.same THEN {<<"C18", "asking for a node twice gives different nodes">>} ELSE {})

(* ---- C19 ------------------------------------------------------------------- *)
Mapping(t, D) == UNION {{<<b[2], b[3], t.src[k[3] + 1][1], k[1]>> : b \in Of(D, k[2])} : k \in Range1(t.sinks)}
Names(t) == {t.src[t.lab[l][2] + 1][1] : l \in Inputs(t)}
Length(t, nm) == LET Ls == {l \in Inputs(t) : t.src[t.lab[l][2] + 1][1] = nm}
                 IN Max(UNION {{t.src[t.lab[l][2] + 1][3], t.lab[l][3] + 1} : l \in Ls})
Used(t, D, nm) == {o \in 0 .. Length(t, nm) - 1 :
                     \/ \E l \in Inputs(t) : t.src[t.lab[l][2] + 1][1] = nm /\ t.lab[l][3] = o /\ t.lab[l][4] = 1
                     \/ \E k \in Range1(t.sinks) : \E b \in Of(D, k[2]) : b[2] = nm /\ b[3] = o}
(* the maximal runs of unused offsets, as <<from, to>> with to excluded *)
Runs(U, n) == LET Free == (0 .. n - 1) \ U
                  Starts == SetToSortSeq({o \in Free : o - 1 \notin Free}, <)
              IN [i \in 1 .. Len(Starts) |-> <<Starts[i], CHOOSE e \in Starts[i] + 1 .. n : e \notin Free /\ \A x \in Starts[i] .. e - 1 : x \in Free>>]
Cavities(t, D) == {<<nm, Runs(Used(t, D, nm), Length(t, nm))>> : nm \in Names(t)}
Map19(t, D) ==
  LET r == t.r  x == Cavities(t, D) IN
  (IF Range1(r.mapping) # Mapping(t, D) THEN {<<"C19", "input-output mapping">>} ELSE {}) \cup
  (IF ~t.cavities THEN {}
   ELSE (IF {c \in Range1(r.cavities) : c[2] # <<>>} # {c \in x : c[2] # <<>>} THEN {<<"C19", "cavities">>} ELSE {}) \cup
        (IF Range1(r.printed) # UNION {{<<c[1], c[2][i][1], c[2][i][2]>> : i \in 1 .. Len(c[2])} : c \in x} THEN {<<"C19", "cavities printed by the command">>} ELSE {}))

(* ---- C20 ------------------------------------------------------------------- *)
Flow20(t, D) ==
  LET r == t.r  x == UNION {D[l] : l \in {l \in Inputs(t) : t.lab[l][4] = 1}} IN
  (IF Range1(r.icf) # x THEN {<<"C20", "inputs affecting control flow">>} ELSE {}) \cup
  (IF Range1(r.icfbase) # x THEN {<<"C20", "inputs behind the marked nodes">>} ELSE {}) \cup
  (IF Len(r.icf) # Cardinality(x) \/ Len(r.icfbase) # Cardinality(x) THEN {<<"C20", "an input byte is listed twice">>} ELSE {}) \cup
  (IF \E i \in 1 .. Len(t.queries) : Range1(r.taints[i]) # UNION {D[l] : l \in Range1(t.queries[i])}
   THEN {<<"C20", "inputs behind a set of labels">>} ELSE {})

TInit == tid \in 1 .. Len(Tr) /\ done = FALSE /\ bad = {}
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
         /\ bad' = LET t == Tr[tid]
                       D == Deno(t) IN
              IF t.error # "" THEN {<<CHOOSE a \in Active : TRUE, "the reader fails on a well-formed trace">>}
              ELSE (IF "C18" \in Active THEN Listing(t) \cup Forest(t, D) ELSE {}) \cup
                   (IF "C19" \in Active THEN Map19(t, D) ELSE {}) \cup
                   (IF "C20" \in Active THEN Flow20(t, D) ELSE {})
TSpec == TInit /\ [][TNext]_<<tid, done, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, 1, bad>>)
View == <<tid, done, bad>>
===============================================================================
