-------------------------------- MODULE CFRead --------------------------------
(* Reading the control-flow log back: from the raw events <<kind, function,      *)
(* label>> (0 enter, 1 leave, 2 tainted branch; numbers as limbs) to the events   *)
(* <<kind, call stack, label>> with generated exits.                              *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
Z == <<0, 0, 0, 0>>
Pop(q) == SubSeq(q, 1, Len(q) - 1)
(* exits of everything above the innermost occurrence of f *)
RECURSIVE Unwind(_, _)
Unwind(a, f) == IF a.k = <<>> \/ a.k[Len(a.k)] = f THEN a
                ELSE Unwind([k |-> Pop(a.k), out |-> Append(a.out, <<1, a.k, Z>>)], f)
One(a, e) ==
  CASE e[1] = 0 -> LET k == Append(a.k, e[2]) IN [k |-> k, out |-> Append(a.out, <<0, k, Z>>)]
    [] e[1] = 1 -> LET b == Unwind(a, e[2]) IN [k |-> Pop(b.k), out |-> Append(b.out, <<1, b.k, Z>>)]
    [] OTHER -> LET b == Unwind(a, e[2]) IN [b EXCEPT !.out = Append(@, <<2, b.k, e[3]>>)]
Expected(ev) == LET a == FoldLeft(One, [k |-> <<>>, out |-> <<>>], ev)
                IN Unwind(a, <<-1, 0, 0, 0>>).out
VARIABLES tid, done, bad
TInit == tid \in 1 .. Len(Tr) /\ done = FALSE /\ bad = {}
Named(q) == [i \in 1 .. Len(q) |-> <<q[i][1], [j \in 1 .. Len(q[i][2]) |-> ToString(q[i][2][j])], q[i][3]>>]
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
         /\ bad' = LET t == Tr[tid]
                       x == Expected(t.raw) IN
             (IF t.error # "" THEN {<<"C13", "the reader fails on a well-formed log">>}
              ELSE IF t.got # x THEN {<<"C13", "events read back from the control-flow log">>}
              ELSE IF t.again # x THEN {<<"C13", "events read back a second time">>}
              ELSE IF t.named # Named(x) THEN {<<"C13", "events read back with function names">>}
              ELSE {})
TSpec == TInit /\ [][TNext]_<<tid, done, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, 1, bad>>)
View == <<tid, done, bad>>
===============================================================================
