------------------------------- MODULE LifeGen --------------------------------
(* Short lives of a program that records something of every kind before it ends. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANT MaxLen
VARIABLES f, st, w, r, fn, stk, cl, hist, steps
vars == <<f, st, w, r, fn, stk, cl, hist, steps>>
(* f input open, st stream open, w output open, r registers with labels, fn functions, stk numbered functions entered,
   cl standard streams the program has closed *)
Init == f = FALSE /\ st = FALSE /\ w = FALSE /\ r = {} /\ fn = 0 /\ stk = <<>> /\ cl = {} /\ hist = <<>> /\ steps = 0
Say(x) == hist' = Append(hist, x)
Same(S) == UNCHANGED S
Work ==
  \/ ~f /\ Say("open open 1 {D}/p rw 0|read read 1 0 0 4") /\ f' = TRUE /\ r' = r \cup {1, 2} /\ Same(<<st, w, fn, stk>>)
  \/ ~st /\ Say("fopen fopen 11 {D}/q r") /\ st' = TRUE /\ Same(<<f, w, r, fn, stk>>)
  \/ ~w /\ Say("open open 2 {D}/n rwc 0600") /\ w' = TRUE /\ Same(<<f, st, r, fn, stk>>)
  \/ f /\ Same(<<f, st, w, r, fn, stk>>) /\ Say("read read 1 0 5 3")
  \/ f /\ Same(<<f, st, w, r, fn, stk>>) /\ Say("lseek 1 2 0|write write 1 0 0 5")
  \/ w /\ Same(<<f, st, w, r, fn, stk>>) /\ Say("write write 2 0 0 12")
  \/ st /\ Same(<<f, st, w, r, fn, stk>>) /\ Say("fread fread 11 0 8 1 3")
  \/ st /\ Same(<<f, st, w, r, fn, stk>>) /\ Say("getc fgetc 11 3")
  \/ 1 \in r /\ Say("lb 0 0 1|lb 0 1 2|un 1 2 4") /\ r' = r \cup {4} /\ Same(<<f, st, w, fn, stk>>)
  \/ 4 \in r /\ Say("un 4 3 5") /\ r' = r \cup {5} /\ Same(<<f, st, w, fn, stk>>)
  \/ \E x \in r : Say("br " \o ToString(x)) /\ Same(<<f, st, w, r, fn, stk>>)
  \/ fn < 4 /\ Say("fent 61" \o ToString(10 + fn)) /\ fn' = fn + 1 /\ Same(<<f, st, w, r, stk>>)
  \/ fn > 0 /\ Say("fent 6110") /\ Same(<<f, st, w, r, fn, stk>>)
  \/ fn > 0 /\ Say("fex " \o ToString(fn - 1)) /\ Same(<<f, st, w, r, fn, stk>>)
  \/ Len(stk) < 3 /\ \E x \in {"5", "300", "70000"} : Say("ent " \o x) /\ stk' = Append(stk, x) /\ Same(<<f, st, w, r, fn>>)
  \/ stk # <<>> /\ Say("lev " \o stk[Len(stk)]) /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ Same(<<f, st, w, r, fn>>)
  \/ stk # <<>> /\ r # {} /\ Say("tcf 1 " \o stk[Len(stk)] \o " 1") /\ Same(<<f, st, w, r, fn, stk>>)
Handle(x) == CASE x = "stdin" -> "13" [] x = "stdout" -> "14" [] x = "stderr" -> "15"
(* Many programs close their standard streams before they end, to notice write errors; others replace them. *)
Shut == \E x \in {"stdin", "stdout", "stderr"} \ cl : \E how \in {"fclose", "close"} :
          /\ Say("std " \o Handle(x) \o " " \o x \o "|" \o how \o " " \o Handle(x))
          /\ cl' = cl \cup {x} /\ Same(<<f, st, w, r, fn, stk>>)
Act == (Work /\ cl' = cl) \/ Shut
Next == Len(hist) < MaxLen /\ Act /\ UNCHANGED steps
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("@S " \o ToJson(hist))
SimNext == IF steps < MaxLen THEN Act /\ steps' = steps + 1
           ELSE steps = MaxLen /\ PrintT("@S " \o ToJson(hist)) /\ steps' = steps + 1 /\ Same(<<f, st, w, r, fn, stk, cl, hist>>)
SimSpec == Init /\ [][SimNext]_vars
Sane == Len(stk) <= 3 /\ fn <= 4 /\ (4 \in r => 1 \in r)
===============================================================================
