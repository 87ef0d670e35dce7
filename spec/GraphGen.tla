--------------------------------- MODULE GraphGen ---------------------------------
(* Directed graphs: all on few nodes, random ones on more (sparse and dense).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt
CONSTANTS NN, Loops, Most, Steps
VARIABLES g, n
P(k) == {e \in (1 .. k) \X (1 .. k) : Loops \/ e[1] # e[2]}
Out(k, x) == PrintT("@S " \o ToJson(<<k, SetToSeq(x)>>))
Init == n \in 1 .. NN /\ g \in SUBSET P(n)
Spec == Init /\ [][FALSE]_<<g, n>>
Emit == Out(n, g)
SimInit == n = 0 /\ g = {}
SimNext == /\ n < Steps /\ n' = n + 1
           /\ \E k \in RandomSubset(1, 4 .. NN) : \E m \in RandomSubset(1, 2 .. Most) :
                 g' = RandomSubset(IF m > Cardinality(P(k)) THEN Cardinality(P(k)) ELSE m, P(k)) /\ Out(k, g')
SimSpec == SimInit /\ [][SimNext]_<<g, n>>
Sane == n >= 0
===============================================================================
