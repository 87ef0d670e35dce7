-------------------------------- MODULE TaintGen --------------------------------
(* Collections of input bytes: every pair of sets over few sources and offsets,   *)
(* or random ones over more, with the contents of the sources.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt
CONSTANTS NSrc, NOff, Contents, Pairs, Steps
VARIABLES a, b, c, n
vars == <<a, b, c, n>>
U == (1 .. NSrc) \X (0 .. NOff - 1)
Seqd(S) == SetToSeq(S)
Out(x, y, z) == PrintT("@S " \o ToJson(<<Seqd(x), Seqd(y), z>>))
Strings == [1 .. NOff -> Contents]
(* every first set; with Pairs also every second set *)
Init == /\ a \in SUBSET U /\ b \in (IF Pairs THEN SUBSET U ELSE {{}}) /\ n = 0
        /\ c \in (IF Pairs THEN {[s \in 1 .. NSrc |-> [o \in 1 .. NOff |-> 97]]} ELSE [1 .. NSrc -> Strings])
Spec == Init /\ [][FALSE]_vars
Emit == Out(a, b, c)
SimInit == a = {} /\ b = {} /\ c = <<>> /\ n = 0
SimNext == /\ n < Steps /\ n' = n + 1
           /\ \E k \in RandomSubset(1, 0 .. Cardinality(U)), m \in RandomSubset(1, 0 .. Cardinality(U)) :
                 a' = RandomSubset(k, U) /\ b' = RandomSubset(m, U)
           /\ c' = [s \in 1 .. NSrc |-> [o \in 1 .. NOff |-> RandomElement(Contents)]]
           /\ Out(a', b', c')
SimSpec == SimInit /\ [][SimNext]_vars
Sane == a \subseteq U
===============================================================================
