------------------------------- MODULE Capacity -------------------------------
(* Filling the real tables of the trace file up to and beyond their capacity.    *)
(* A run is a plan of bulk operations; the finished file is summarised.  Each     *)
(* table holds exactly what was recorded until it was full; functions and the     *)
(* control-flow log stop the program when full, output records are dropped.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
F(p, name, cond) == IF p \in Active /\ ~cond THEN {<<p, name>>} ELSE {}
Min2(a, b) == IF a < b THEN a ELSE b

Cap == [fn |-> 65535, str |-> 1048576, sink |-> 1048576, cf |-> 1073741824]
Al(n) == n + 2 + (n % 2)

(* s: functions, bytes of names, events, sinks, control-flow bytes, stopped *)
Init0 == [fn |-> 0, str |-> 0, ev |-> 0, sink |-> 0, cfn |-> 0, cfb |-> 0, stop |-> FALSE]
Step(s, e) ==
  IF s.stop THEN s
  ELSE CASE e.op = "mfent" ->
         LET room == Min2(Cap.fn - s.fn, (Cap.str - s.str) \div Al(e.w))
             n == Min2(e.n, room)
         IN [s EXCEPT !.fn = @ + n, !.str = @ + n * Al(e.w), !.ev = @ + n, !.stop = n < e.n]
    [] e.op = "name" -> [s EXCEPT !.str = @ + Al(e.w)]         \* a source with a name of that length
    [] e.op = "mwr" -> [s EXCEPT !.sink = Min2(Cap.sink, @ + e.n * e.count)]
    [] e.op = "mcf" -> LET n == Min2(e.n, (Cap.cf - s.cfb) \div e.w)
                       IN [s EXCEPT !.cfn = @ + n, !.cfb = @ + n * e.w, !.stop = n < e.n]
Fails(t) ==
  LET s == FoldLeft(Step, Init0, t.plan)
      f == t.fin
  IN F("C16", "the trace file is unreadable", f.err = "")
     \cup (IF f.err # "" THEN {} ELSE
       F("C16", "the program does not stop exactly when a record does not fit and cannot be dropped",
           t.status = (IF s.stop THEN 255 ELSE 0))
       \cup F("C16", "a call failed", s.stop \/ t.ok)
       \cup F("C16", "functions", f.nfn = s.fn /\ f.fnok)
       \cup F("C16", "names", f.str \in s.str .. s.str + (IF s.stop THEN 400 ELSE 0))
       \cup F("C16", "function events", f.nev = s.ev /\ f.evok)
       \cup F("C16", "output records", f.nsink = s.sink /\ f.sinkok)
       \cup F("C16", "control-flow log", f.cfb = s.cfb /\ f.cfok)
       \cup F("C16", "sections run into each other", f.layout))

VARIABLES tid, i, bad
vars == <<tid, i, bad>>
TInit == tid \in 1 .. Len(Tr) /\ i = 0 /\ bad = {}
TNext == i = 0 /\ i' = 1 /\ bad' = Fails(Tr[tid]) /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_vars
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, i, bad>>)
View == <<tid, i, bad>>
===============================================================================
