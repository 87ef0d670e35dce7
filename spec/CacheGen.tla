-------------------------------- MODULE CacheGen --------------------------------
(* Histories of the bounded cache, checked against ghost variables: the value     *)
(* last stored per key, and when each key was last used.                           *)
EXTENDS Cache, TLC, Json, Randomization
CONSTANTS KeySet, Values, Limit, MaxLen, Emitting
VARIABLES q, last, used, clock, hist, ev
vars == <<q, last, used, clock, hist, ev>>
Ops == {<<o, k, v>> : o \in {"set", "getd", "sdef"}, k \in KeySet, v \in Values} \cup
       {<<o, k, 0>> : o \in {"get", "has", "del", "pop"}, k \in KeySet} \cup
       {<<"iter", n, 0>> : n \in 0 .. 3} \cup {<<"len", 0, 0>>, <<"items", 0, 0>>, <<"clear", 0, 0>>}
Init == q = <<>> /\ last = [k \in KeySet |-> 0] /\ used = [k \in KeySet |-> 0] /\ clock = 1 /\ hist = <<>> /\ ev = <<>>
Uses(op, r) == CASE op[1] \in {"set", "sdef"} -> <<op[2]>>
                 [] op[1] \in {"get", "getd", "has"} -> IF op[2] \in Keys(q) THEN <<op[2]>> ELSE <<>>
                 [] op[1] = "iter" -> r
                 [] OTHER -> <<>>
Do(op) == LET x == LRU(q, Limit, op)
              us == Uses(op, x.r)
              stored == op[1] = "set" \/ (op[1] = "sdef" /\ op[2] \notin Keys(q)) IN
  /\ q' = x.q
  /\ last' = IF stored THEN [last EXCEPT ![op[2]] = op[3]] ELSE last
  /\ used' = [k \in KeySet |-> IF \E i \in 1 .. Len(us) : us[i] = k THEN clock + (CHOOSE i \in 1 .. Len(us) : us[i] = k) ELSE used[k]]
  /\ clock' = clock + 5
  /\ hist' = Append(hist, op)
  /\ ev' = IF op[1] \in {"set", "sdef"} THEN SetToSeq((Keys(q) \cup {op[2]}) \ Keys(x.q)) ELSE <<>>
Next == Len(hist) < MaxLen /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
(* the contract *)
Bounded == Limit >= 0 => Len(q) <= Limit
LastStored == \A i \in 1 .. Len(q) : q[i][2] = last[q[i][1]]
ByUse == \A i, j \in 1 .. Len(q) : i < j => used[q[i][1]] < used[q[j][1]]
EvictsOldest == \A i \in 1 .. Len(ev) : \A k \in Keys(q) : used[ev[i]] < used[k]
Once == \A i, j \in 1 .. Len(q) : q[i][1] = q[j][1] => i = j
View == <<q, Len(hist)>>
VOnce == Emitting => PrintT("@S " \o ToJson(hist'))
SimNext == IF Len(hist) < MaxLen THEN \E op \in RandomSubset(1, Ops) : Do(op)
           ELSE Len(hist) = MaxLen /\ PrintT("@S " \o ToJson(hist)) /\ hist' = Append(hist, <<"len", 0, 0>>) /\ UNCHANGED <<q, last, used, clock, ev>>
SimSpec == Init /\ [][SimNext]_vars
===============================================================================
