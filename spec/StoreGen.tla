------------------------------- MODULE StoreGen --------------------------------
(* Operation sequences on the trace file container: all sequences up to MaxLen    *)
(* over an alphabet, or simulated long ones.  Only the number of labels matters    *)
(* for what may follow.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Alphabet, MaxLen, MaxLab
VARIABLES hist, n, steps
vars == <<hist, n, steps>>
S(x) == ToString(x)
Init == hist = <<>> /\ n = 1 /\ steps = 0
Plain(a) == hist' = Append(hist, a) /\ n' = n
NewLab(k) == hist' = Append(hist, "lab 7 " \o S(100 * Len(hist)) \o " " \o S(k)) /\ n' = IF n + k <= MaxLab THEN n + k ELSE n
Un(a, b) == a < n /\ b < n /\ a # b /\ hist' = Append(hist, "un " \o S(a) \o " " \o S(b)) /\ n' = IF n < MaxLab THEN n + 1 ELSE n
Mark(a) == a < n /\ hist' = Append(hist, "mark " \o S(a)) /\ n' = n
Next0(Al, Ks, As, Bs) ==
  \/ \E a \in Al : /\ a \notin {"@lab", "@un", "@mark"} /\ Plain(a)
  \/ "@lab" \in Alphabet /\ \E k \in Ks : NewLab(k)
  \/ "@un" \in Alphabet /\ \E a \in As, b \in Bs : Un(a, b)
  \/ "@mark" \in Alphabet /\ \E a \in As : Mark(a)
Next == Len(hist) < MaxLen /\ Next0(Alphabet, {1, 2, 5, 11}, 1 .. MaxLab - 1, 1 .. MaxLab - 1) /\ UNCHANGED steps
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("@S " \o ToJson(hist))
SimNext == IF steps < MaxLen
           THEN /\ steps' = steps + 1
                /\ \/ Next0(RandomSubset(1, Alphabet), RandomSubset(1, {1, 2, 3, 5}), RandomSubset(1, 1 .. MaxLab - 1), RandomSubset(1, 1 .. MaxLab - 1))
                   \/ UNCHANGED <<hist, n>>
           ELSE /\ steps = MaxLen /\ PrintT("@S " \o ToJson(hist)) /\ steps' = steps + 1 /\ UNCHANGED <<hist, n>>
SimSpec == Init /\ [][SimNext]_vars
Sane == n <= MaxLab
===============================================================================
