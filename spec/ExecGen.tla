--------------------------------- MODULE ExecGen ---------------------------------
(* Programs for Exec: every sequence of operations up to a length, or random ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Exec
CONSTANTS Fns, Blks, NIn, Chunk, Modes, MaxDepth, MaxLen
VARIABLES ops, depth, pos, roots, over
vars == <<ops, depth, pos, roots, over>>
Init == ops = <<<<"c", 1>>>> /\ depth = 1 /\ pos = 0 /\ roots = 1 /\ over = FALSE
Add(o, d, p) == ops' = Append(ops, o) /\ depth' = d /\ pos' = p /\ UNCHANGED roots /\ over' = FALSE
Rd(o, n) == <<"r", o, n>>
Acts ==
  (IF depth > 0 /\ depth < MaxDepth THEN {<<<<"c", f>>, depth + 1, pos>> : f \in Fns} ELSE {}) \cup
  (IF depth > 0 THEN {<<<<"b", b>>, depth, pos>> : b \in Blks} ELSE {}) \cup
  (IF depth > 0 THEN {<<<<"x", b>>, depth - 1, pos>> : b \in IF depth = 1 THEN {0} ELSE Blks} ELSE {}) \cup
  (IF depth > 0 /\ "next" \in Modes THEN {<<Rd(pos, n), depth, pos + n>> : n \in {n \in Chunk : pos + n <= NIn}} ELSE {}) \cup
  (IF depth > 0 /\ "peek" \in Modes THEN {<<Rd(pos, n), depth, pos>> : n \in {n \in Chunk : pos + n <= NIn}} ELSE {}) \cup
  (IF depth > 0 /\ "any" \in Modes THEN {<<Rd(o, n), depth, o + n>> : <<o, n>> \in {x \in (0 .. NIn - 1) \X Chunk : x[1] + x[2] <= NIn}} ELSE {}) \cup
  (IF "other" \in Modes THEN {<<<<"q", o, 1>>, depth, pos>> : o \in {0, NIn - 1}} ELSE {}) \cup
  (IF "noise" \in Modes THEN {<<<<"n", 0>>, depth, pos>>} ELSE {}) \cup
  (IF "noise" \in Modes /\ depth > 0 THEN {<<<<"y", 1>>, depth - 1, pos>>} ELSE {}) \cup
  (IF "noise" \in Modes /\ depth > 0 /\ depth < MaxDepth THEN {<<<<"d", 1>>, depth + 1, pos>>} ELSE {})
Pick(a) == Add(a[1], a[2], a[3])
Again == depth = 0 /\ roots = 1 /\ ops' = Append(ops, <<"c", 2>>) /\ depth' = 1 /\ roots' = 2 /\ UNCHANGED pos /\ over' = FALSE
Next == /\ Len(ops) < MaxLen
        /\ (Again \/ \E a \in Acts : Pick(a))
Spec == Init /\ [][Next]_vars
Emit == PrintT("@S " \o ToJson(ops))
(* random programs: written out when they are long enough *)
SimNext == \/ /\ ~over /\ Len(ops) < MaxLen /\ (Again \/ (Acts # {} /\ \E a \in Acts : Pick(a)))
           \/ /\ ~over /\ Len(ops) >= MaxLen \div 3
              /\ over' = TRUE /\ UNCHANGED <<depth, pos, roots>>
              /\ ops' = IF depth > 0 /\ Len(ops) % 5 = 0 THEN Append(ops, <<"e", 1>>) ELSE ops
              /\ PrintT("@S " \o ToJson(ops'))
SimSpec == Init /\ [][SimNext]_vars
Sane == WellFormed(ops) /\ (over \/ depth = Len(Run(ops).st))
===============================================================================
