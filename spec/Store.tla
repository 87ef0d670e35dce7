-------------------------------- MODULE Store ---------------------------------
(* The trace file container: sections of limited capacity.  An operation either  *)
(* records its whole record, or (only if it does not fit) drops it or stops the   *)
(* program; the file always holds exactly what was recorded.                      *)
(*                                                                                *)
(* Fails(s, e) / Step(s, e) judge one recorded operation, Final the finished file.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)

Cap == [src |-> 3, lab |-> 12, str |-> 1048576, sink |-> 5, bit |-> 70, fn |-> 4, ev |-> 4, cf |-> 23]
MaxStr == 65535

F(p, name, cond) == IF p \in Active /\ ~cond THEN {<<p, name>>} ELSE {}
Range0(q) == {q[i] : i \in 1 .. Len(q)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* bytes a name takes in the table of names *)
Al(n) == n + 2 + (n % 2)
(* length of a number in the control-flow log *)
VLen(w) == LET v == w[1] + 65536 * (w[2] % 4096) IN
           IF w[2] >= 4096 THEN 5
           ELSE IF v < 128 THEN 1 ELSE IF v < 16384 THEN 2 ELSE IF v < 2097152 THEN 3 ELSE 4
CfLen(e) == 1 + VLen(e.fid) + (IF e.k = 2 THEN VLen(e.l) ELSE 0)

Init0 == [src |-> <<>>, sb |-> {0}, sink |-> <<>>, bits |-> {}, fn |-> <<>>, ev |-> <<>>,
          cf |-> <<>>, cfb |-> 0, lab |-> <<{}>>, mk |-> {}, over |-> FALSE]

(* sb is the set of possible fill levels of the table of names: whether the name of  *)
(* an entry that did not fit itself was stored is left open                           *)
StrFits(s, n) == {b \in s.sb : n <= MaxStr /\ b + Al(n) <= Cap.str}
FnIx(s, nm) == {i \in 1 .. Len(s.fn) : s.fn[i] = nm}
Mean(s, l) == IF l + 1 <= Len(s.lab) THEN s.lab[l + 1] ELSE {<<-1, l>>}

Room(s, e) == \* whether the record fits (for names: may fit)
  CASE e.op = "str" -> StrFits(s, e.nm[1]) # {}
    [] e.op = "src" -> StrFits(s, e.nm[1]) # {} /\ Len(s.src) < Cap.src
    [] e.op = "fn" -> FnIx(s, e.nm) # {} \/ (StrFits(s, e.nm[1]) # {} /\ Len(s.fn) < Cap.fn)
    [] e.op = "sink" -> Len(s.sink) < Cap.sink
    [] e.op = "ev" -> Len(s.ev) < Cap.ev
    [] e.op = "cf" -> s.cfb + CfLen(e) <= Cap.cf
    [] e.op = "lab" -> Len(s.lab) + e.n <= Cap.lab
    [] e.op = "un" -> Len(s.lab) < Cap.lab
    [] e.op = "bit" -> e.b < Cap.bit
    [] e.op = "isset" -> e.b < Cap.bit
    [] e.op = "bits" -> e.n = 0 \/ (e.b < Cap.bit /\ e.b + e.n <= Cap.bit)
    [] OTHER -> TRUE
Sure(s, e) == \* whether the record fits in every case
  CASE e.op \in {"str", "src"} -> Room(s, e) /\ StrFits(s, e.nm[1]) = s.sb
    [] e.op = "fn" -> FnIx(s, e.nm) # {} \/ (Room(s, e) /\ StrFits(s, e.nm[1]) = s.sb)
    [] OTHER -> Room(s, e)
Quiet == {"sink", "ev", "cf"}         \* operations that do not report whether they recorded

Fails(s, e) ==
  F("C16", "operation after the program stopped", ~s.over)
  \cup (IF e.res = "stop" \/ e.res = "drop"
        THEN F("C16", "a record that fits was refused", ~Sure(s, e))
             \cup F("C16", "labels cannot be dropped", e.res = "drop" => e.op \notin {"lab", "un"})
        ELSE F("C16", "a record that does not fit was accepted", e.op \in Quiet \/ e.op = "un" \/ Room(s, e))
             \cup F("C16", "number given to the record",
                  CASE e.op = "str" -> e.val \in s.sb
                    [] e.op = "src" -> e.val = Len(s.src)
                    [] e.op = "fn" -> e.val = (IF FnIx(s, e.nm) # {} THEN MaxOf(FnIx(s, e.nm)) - 1 ELSE Len(s.fn))
                    [] e.op = "lab" -> e.res = "ok" /\ e.val = Len(s.lab)
                    [] e.op = "un" -> \/ e.val < Len(s.lab) /\ Mean(s, e.val) = Mean(s, e.a) \cup Mean(s, e.b)
                                      \/ e.val = Len(s.lab) /\ Room(s, e)
                    [] e.op \in {"bit", "isset"} -> e.val = (IF e.b \in s.bits THEN 1 ELSE 0)
                    [] e.op = "find" -> LET S == {i \in 1 .. Len(s.src) : s.src[i][2] = e.fd} IN
                                        e.val = IF e.fd < 0 \/ S = {} THEN -1 ELSE MaxOf(S) - 1
                    [] OTHER -> TRUE))
NameStep(s, e, ok) ==
  IF ok THEN {b + Al(e.nm[1]) : b \in StrFits(s, e.nm[1])}
  ELSE s.sb \cup {b + Al(e.nm[1]) : b \in StrFits(s, e.nm[1])}
Step(s, e) ==
  IF e.res = "stop" THEN [s EXCEPT !.over = TRUE]
  ELSE LET ok == e.res # "drop" /\ Room(s, e) IN
  CASE e.op = "str" -> IF ok THEN [s EXCEPT !.sb = {e.val + Al(e.nm[1])}] ELSE s
    [] e.op = "src" -> [s EXCEPT !.sb = NameStep(s, e, ok), !.src = IF ok THEN Append(@, <<e.nm, e.fd, e.size>>) ELSE @]
    [] e.op = "fn" -> IF FnIx(s, e.nm) # {} THEN s
                      ELSE [s EXCEPT !.sb = NameStep(s, e, ok), !.fn = IF ok THEN Append(@, e.nm) ELSE @]
    [] e.op = "sink" -> IF ok THEN [s EXCEPT !.sink = Append(@, <<e.off, e.l, e.i>>)] ELSE s
    [] e.op = "ev" -> IF ok THEN [s EXCEPT !.ev = Append(@, <<e.k, e.i>>)] ELSE s
    [] e.op = "cf" -> IF ok THEN [s EXCEPT !.cf = Append(@, <<e.k, e.fid, e.l>>), !.cfb = @ + CfLen(e)] ELSE s
    [] e.op = "lab" -> IF ok THEN [s EXCEPT !.lab = @ \o [j \in 1 .. e.n |-> {<<e.s, e.off[1], e.off[2] + j - 1>>}]] ELSE s
    [] e.op = "un" -> IF e.val = Len(s.lab) THEN [s EXCEPT !.lab = Append(@, Mean(s, e.a) \cup Mean(s, e.b))] ELSE s
    [] e.op = "mark" -> [s EXCEPT !.mk = @ \cup {e.a}]
    [] e.op = "bit" -> IF ok THEN [s EXCEPT !.bits = @ \cup {e.b}] ELSE s
    [] e.op = "bits" -> IF ok THEN [s EXCEPT !.bits = @ \cup (e.b .. e.b + e.n - 1)] ELSE s
    [] OTHER -> s

(* ---- the finished file: f.sec <<tag, align, offset, size>> in file order -------- *)
Entry == <<16, 8, 1, 16, 1, 4, 4, 1>>     \* size of one record per tag
Sec(f, t) == CHOOSE x \in Range0(f.sec) : x[1] = t
EntM(f, m, x) == CASE x[1] = 1 -> {<<x[2], x[3][1], x[3][2]>>}
                   [] x[1] = 2 /\ x[2] <= Len(m) /\ x[3] <= Len(m) -> m[x[2]] \cup m[x[3]]
                   [] x[1] = 3 /\ x[3] <= Len(m) -> UNION {m[y] : y \in x[2] .. x[3]}
                   [] OTHER -> {<<-1, 0, 0>>}
FMean(f) == FoldLeft(LAMBDA m, x : Append(m, EntM(f, m, x)), <<>>, f.lab)    \* without label 0
Par(x) == CASE x[1] = 2 -> {x[2], x[3]} [] x[1] = 3 -> x[2] .. x[3] [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(f, S) == LET N == S \cup UNION {IF l >= 1 /\ l <= Len(f.lab) THEN Par(f.lab[l]) ELSE {} : l \in S} IN
               IF N = S THEN S ELSE Reach(f, N)
Final(s, f) ==
  IF f.err # "" THEN {<<p, "the trace file is unreadable">> : p \in Active}
  ELSE
  F("C14", "sections: each once, aligned, behind the header, within the file, apart from each other, whole records",
     /\ Len(f.sec) = 8 /\ {f.sec[i][1] : i \in 1 .. 8} = 1 .. 8
     /\ \A i \in 1 .. 8 : /\ f.sec[i][3] % f.sec[i][2] = 0
                          /\ f.sec[i][3] >= 200
                          /\ f.sec[i][3] + f.sec[i][4] <= f.size
                          /\ f.sec[i][4] % Entry[f.sec[i][1]] = 0
     /\ \A i, j \in 1 .. 8 : i # j => \/ f.sec[i][3] + f.sec[i][4] <= f.sec[j][3]
                                      \/ f.sec[j][3] + f.sec[j][4] <= f.sec[i][3])
  \cup F("C14", "size of a section is not what was recorded",
     /\ Sec(f, 1)[4] = 16 * Len(s.src) /\ Sec(f, 2)[4] = 8 * Len(s.lab) /\ Sec(f, 4)[4] = 16 * Len(s.sink)
     /\ Sec(f, 6)[4] = 4 * Len(s.fn) /\ Sec(f, 7)[4] = 4 * Len(s.ev) /\ Sec(f, 8)[4] = s.cfb
     /\ Sec(f, 3)[4] \in s.sb)
  \cup F("C16", "sources", f.src = s.src)
  \cup F("C16", "output records", f.sink = s.sink)
  \cup F("C16", "functions", f.fn = s.fn)
  \cup F("C16", "function events", f.ev = s.ev)
  \cup F("C16", "control-flow log", f.cf = s.cf)
  \cup F("C16", "labels", FMean(f) = Tail(s.lab))
  \cup F("C16", "marks", {l \in 1 .. Len(f.lab) : f.lab[l][4] = 1} = Reach(f, s.mk) \ {0})
  \cup F("C16", "input label index", Range0(f.bits) = s.bits)

(* ---- trace validation ------------------------------------------------------------ *)
VARIABLES tid, i, s, bad
vars == <<tid, i, s, bad>>
TInit == tid \in 1 .. Len(Tr) /\ i = 0 /\ s = Init0 /\ bad = {}
TNext == /\ bad = {} /\ i <= Len(Tr[tid].ev) /\ i' = i + 1 /\ UNCHANGED tid
         /\ IF i < Len(Tr[tid].ev)
            THEN LET e == Tr[tid].ev[i + 1] IN
                 IF e.op = "crash" THEN bad' = {<<p, "the run did not end normally">> : p \in Active} /\ s' = s
                 ELSE bad' = Fails(s, e) /\ s' = Step(s, e)
            ELSE bad' = Final(s, Tr[tid].fin) /\ s' = s
TSpec == TInit /\ [][TNext]_vars
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, i, bad>>)
View == <<tid, i, bad>>
===============================================================================
