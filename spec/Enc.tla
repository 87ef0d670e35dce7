--------------------------------- MODULE Enc ----------------------------------
(* Label records and their 64-bit words, as sequences of limbs (16 bits each,    *)
(* lowest first), at full width.                                                 *)
(*   kind 1 input byte: a source number (8 bits), b offset (54 bits)             *)
(*   kind 2 pair a > b, kind 3 range a < b: label numbers (31 bits)              *)
(*   bit 63 set for input bytes, bit 62 the control-flow mark                     *)
(* EncProof.tla states the same layout on integers and is proved for all values. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
F(p, name, cond) == IF p \in Active /\ ~cond THEN {<<p, name>>} ELSE {}

P2 == [i \in 0 .. 16 |-> 2 ^ i]
Bit(w, i) == (w[(i \div 16) + 1] \div P2[i % 16]) % 2
Word(bit(_)) == [k \in 1 .. 4 |->
   LET RECURSIVE go(_)
       go(i) == IF i = 16 THEN 0 ELSE P2[i] * bit(16 * (k - 1) + i) + go(i + 1)
   IN go(0)]
(* the word of a record *)
Encode(kind, a, b, cf) ==
  Word(LAMBDA i :
    CASE i = 63 -> IF kind = 1 THEN 1 ELSE 0
      [] i = 62 -> cf
      [] kind = 1 /\ i < 8 -> Bit(a, i)
      [] kind = 1 -> Bit(b, i - 8)
      [] i < 31 -> Bit(b, i)
      [] OTHER -> Bit(a, i - 31))
Mark(w) == [w EXCEPT ![4] = IF (@ \div 16384) % 2 = 1 THEN @ ELSE @ + 16384]

Fails(e) ==
  F("C04", "the runtime does not decode the record it encoded",
      e.k = e.kind /\ e.a2 = e.a /\ e.b2 = e.b /\ e.cf2 = e.cf)
  \cup F("C04", "the Python reader does not decode the record", e.py = <<e.kind, e.a, e.b, e.cf>>)
  \cup F("C04", "the Python reader does not decode the marked record", e.pym = <<e.kind, e.a, e.b, 1>>)
  \cup F("C04", "layout of the word", e.w = Encode(e.kind, e.a, e.b, e.cf))
  \cup F("C04", "marking changes more than the mark", e.plus = Mark(e.w))
  \cup F("C04", "the mark is reported wrongly", e.has = e.cf)
  \cup F("C04", "input bytes and combinations are told apart wrongly", e.issrc = (IF e.kind = 1 THEN 1 ELSE 0))
  \cup F("C04", "comparing while ignoring the mark", e.eq = 1 /\ e.eqo = 0)

VARIABLES tid, i, bad
vars == <<tid, i, bad>>
TInit == tid \in 1 .. Len(Tr) /\ i = 0 /\ bad = {}
TNext == /\ bad = {} /\ i <= Len(Tr[tid].ev) /\ i' = i + 1 /\ UNCHANGED tid
         /\ bad' = IF i = Len(Tr[tid].ev) THEN {}
                   ELSE LET e == Tr[tid].ev[i + 1] IN
                        IF e.op = "crash" THEN {<<"C04", "the run did not end normally">>} ELSE Fails(e)
TSpec == TInit /\ [][TNext]_vars
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, i, bad>>)
View == <<tid, i, bad>>
===============================================================================
