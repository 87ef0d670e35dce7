------------------------------- MODULE PTTrace -------------------------------
(* Trace validation: every recorded execution of the real code has to be a     *)
(* behaviour of PT.  One TLC run validates a batch; tid selects the trace, i   *)
(* is the number of events consumed, bad collects the broken conditions.       *)
EXTENDS PT, Json

CONSTANT TraceFile
Tr == JsonDeserialize(TraceFile)
TPs == [t \in 1 .. Len(Tr) |-> Meaning(Tr[t].fin)]

VARIABLES tid, i, s, bad
tvars == <<tid, i, s, bad>>

TInit == /\ tid \in 1 .. Len(Tr)
         /\ i = 0
         /\ s = Init0(Tr[tid].cfg)
         /\ bad = {}
Consume == /\ bad = {}
           /\ i < Len(Tr[tid].ev)
           /\ LET e == Tr[tid].ev[i + 1] IN
              /\ bad' = Fails(s, e, TPs[tid])
              /\ s' = IF bad' = {} THEN Step(s, e) ELSE s
           /\ i' = i + 1
           /\ UNCHANGED tid
Finish == /\ bad = {}
          /\ i = Len(Tr[tid].ev)
          /\ bad' = Final(s, Tr[tid].fin, TPs[tid])
          /\ i' = i + 1
          /\ UNCHANGED <<tid, s>>
TNext == Consume \/ Finish
TSpec == TInit /\ [][TNext]_tvars

(* rejected traces are printed, all of them, and make the run fail             *)
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, i, bad>>)
Accepted == bad = {}
View == <<tid, i, bad>>
=============================================================================
