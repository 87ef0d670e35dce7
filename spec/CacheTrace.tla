------------------------------- MODULE CacheTrace -------------------------------
(* Histories recorded from the real classes: every operation <<op..>> with its    *)
(* answer r and the listing afterwards.                                            *)
EXTENDS Cache, TLC, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
VARIABLES tid, i, q, bad
TInit == tid \in 1 .. Len(Tr) /\ i = 0 /\ bad = {} /\ q = IF Tr[tid].kind = "memo" THEN <<0, 0, 0>> ELSE <<>>
Step(t, op) == CASE t.kind = "lru" -> LRU(q, t.max, op) [] t.kind = "set" -> OSet(q, op) [] OTHER -> Memo(q, op)
If(p, what) == IF p THEN {} ELSE {<<"C24", what>>}
Agree(t, e, x) ==
  If(IF t.kind = "set" /\ e.op[1] = "and" THEN SetOf(e.r) = SetOf(x.r) /\ Len(e.r) = Len(x.r) ELSE e.r = x.r, "answer of an operation") \cup
  If(t.kind = "memo" \/ e.now = x.q, "contents and order afterwards")
TNext == /\ bad = {} /\ i <= Len(Tr[tid].ev)
         /\ LET t == Tr[tid] IN
            IF i = Len(t.ev) THEN i' = i + 1 /\ UNCHANGED <<tid, q, bad>>
            ELSE LET e == t.ev[i + 1]
                     x == Step(t, e.op) IN
                 /\ q' = x.q /\ i' = i + 1 /\ UNCHANGED tid
                 /\ bad' = Agree(t, e, x)
TSpec == TInit /\ [][TNext]_<<tid, i, q, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, i, bad>>)
View == <<tid, i, bad>>
===============================================================================
