--------------------------------- MODULE SetGen ---------------------------------
(* Histories of the ordered set (and of memoised functions).                       *)
EXTENDS Cache, TLC, Json, Randomization
CONSTANTS Items, Others, MaxLen, Emitting
VARIABLES s, m, hist
vars == <<s, m, hist>>
One == {"add", "discard", "remove", "in"}
Two == {"or", "sub", "xor", "and", "ior", "isub", "iand", "le", "eq", "disj"}
Seqs == UNION {[1 .. n -> Items] : n \in 0 .. Others}
Ops == {<<o, x>> : o \in One, x \in Items} \cup {<<o, x>> : o \in {"olen", "list", "oclear"}, x \in {0}}
Init == s = <<>> /\ m = <<>> /\ hist = <<>>
Do(op) == LET x == OSet(s, op) IN
  /\ s' = x.q
  (* m: a plain set kept along *)
  /\ m' = SetToSortSeq(CASE op[1] = "add" -> SetOf(m) \cup {op[2]} [] op[1] \in {"discard", "remove"} -> SetOf(m) \ {op[2]}
            [] op[1] = "ior" -> SetOf(m) \cup SetOf(op[2]) [] op[1] = "isub" -> SetOf(m) \ SetOf(op[2])
            [] op[1] = "iand" -> SetOf(m) \cap SetOf(op[2]) [] op[1] = "oclear" -> {} [] OTHER -> SetOf(m), <)
  /\ hist' = Append(hist, op)
Next == Len(hist) < MaxLen /\ (\/ \E op \in Ops : Do(op) \/ \E o \in Two, x \in Seqs : Do(<<o, x>>))
Spec == Init /\ [][Next]_vars
SameMembers == SetOf(s) = SetOf(m) /\ Len(s) = Len(m)
VOnce == Emitting => PrintT("@S " \o ToJson(hist'))
View == <<s, Len(hist)>>
SimNext == IF Len(hist) < MaxLen THEN \/ \E op \in RandomSubset(1, Ops) : Do(op)
                                      \/ \E o \in RandomSubset(1, Two), x \in RandomSubset(1, Seqs) : Do(<<o, x>>)
           ELSE Len(hist) = MaxLen /\ PrintT("@S " \o ToJson(hist)) /\ hist' = Append(hist, <<"olen", 0>>) /\ UNCHANGED <<s, m>>
SimSpec == Init /\ [][SimNext]_vars
===============================================================================
