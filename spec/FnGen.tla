-------------------------------- MODULE FnGen ---------------------------------
(* Callbacks of instrumented code around initialisation: function entries and    *)
(* exits (named and numbered), tainted branches.  stk is the call stack the      *)
(* program really has; an exit may be missing (unwinding), so that callbacks of  *)
(* an outer function can follow directly.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Ops, MaxLen, Names, Fids, Labs, MayInit
VARIABLES on, stk, known, hist, steps
vars == <<on, stk, known, hist, steps>>
S(x) == ToString(x)
Init == /\ on = ~MayInit
        /\ stk = <<>>
        /\ known = {}
        /\ hist = (IF MayInit THEN <<>> ELSE <<"init">>)
        /\ steps = 0

OnStack == {stk[i] : i \in 1 .. Len(stk)}
(* unwinding to the innermost occurrence of f *)
To(f) == LET i == CHOOSE i \in 1 .. Len(stk) : stk[i] = f /\ \A j \in i + 1 .. Len(stk) : stk[j] # f
         IN SubSeq(stk, 1, i)
Pop(q) == SubSeq(q, 1, Len(q) - 1)
Step(line, o, k) == hist' = Append(hist, line) /\ on' = o /\ stk' = k

Start == ~on /\ Step("init", TRUE, <<>>) /\ UNCHANGED known
Enter(f) == Len(stk) < 12 /\ Step("ent " \o f, on, Append(stk, f)) /\ UNCHANGED known
Leave(f) == f \in OnStack /\ Step("lev " \o f, on, Pop(To(f))) /\ UNCHANGED known
(* inside the innermost function, or in an outer one after an unwinding *)
Branch(f, l, c) == f \in OnStack /\ Step("tcf #" \o l \o " " \o f \o " " \o c, on, To(f)) /\ UNCHANGED known
Cond(r) == Step("br " \o r, on, stk) /\ UNCHANGED known
NameIn(n, k) == Step("fent " \o n \o k, on, stk) /\ known' = IF on THEN known \cup {n} ELSE known
NameOut(i) == i < Cardinality(known) /\ Step("fex " \o S(i), on, stk) /\ UNCHANGED known
EarlyOut == ~on /\ Step("fex 0", on, stk) /\ UNCHANGED known

Conds == {"0", "1", "0xffffffffffffffff", "4294967296"}
Next0(Fs, Ls, Cs, Ns) ==
  \/ "init" \in Ops /\ Start
  \/ "ent" \in Ops /\ \E f \in Fs : Enter(f)
  \/ "lev" \in Ops /\ \E f \in OnStack : Leave(f)
  \/ "tcf" \in Ops /\ \E f \in OnStack, l \in Ls, c \in Cs : Branch(f, l, c)
  \/ "fent" \in Ops /\ \E n \in Ns, k \in {"", " keep"} : NameIn(n, k)
  \/ "fex" \in Ops /\ (EarlyOut \/ \E i \in 0 .. 5 : NameOut(i))
  \/ "br" \in Ops /\ \E r \in {"0", "1"} : Cond(r)
Next == Len(hist) < MaxLen /\ Next0(Fids, Labs, {"0", "1"}, Names) /\ UNCHANGED steps
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("@S " \o ToJson(hist))
SimNext == IF steps < MaxLen
           THEN /\ steps' = steps + 1
                /\ \/ Next0(RandomSubset(1, Fids), RandomSubset(1, Labs), RandomSubset(1, Conds), RandomSubset(1, Names))
                   \/ UNCHANGED <<on, stk, known, hist>>
           ELSE /\ steps = MaxLen
                /\ PrintT("@S " \o ToJson(hist))
                /\ steps' = steps + 1 /\ UNCHANGED <<on, stk, known, hist>>
SimSpec == Init /\ [][SimNext]_vars
Sane == Len(stk) <= 12
===============================================================================
