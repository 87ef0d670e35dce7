---------------------------------- MODULE Conc ----------------------------------
(* Several threads recording at once, at the granularity of single memory accesses *)
(* and lock operations.  Every operation is a list of micro-steps.  A section is    *)
(* an array mem with a write position it, guarded by a lock; size() takes the lock. *)
(*   L label table   S string table   F function entries   E function events        *)
(*   C control-flow log (records of two bytes)   K output log   R sources           *)
(*   M mapping of function names (lock only)   pos: read position of a shared pipe   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Ops, MaxOps, Locked, Emit
Secs == {"L", "S", "F", "E", "C", "K", "R"}
Cap == 16
Hole == <<"hole">>
VARIABLES prog, todo, base, cnt, it, mem, lk, bits, map, res, pos
vars == <<prog, todo, base, cnt, it, mem, lk, bits, map, res, pos>>
Progs == UNION {[1 .. k -> Ops] : k \in 1 .. MaxOps}
App(s, vals) == <<<<"acq", s>>, <<"rd", s>>, <<"bump", s, Len(vals)>>>> \o [j \in 1 .. Len(vals) |-> <<"wr", s, j, vals[j]>>] \o <<<<"rel", s>>>>
(* label 1, 2: two bytes of the input, label 3: their range, label 4: a third byte, made beforehand *)
Code(t, k, op) ==
  (CASE op = "src" -> App("L", <<<<"s", t, k, 0>>, <<"s", t, k, 1>>>>) \o <<<<"ret">>, <<"bits", 2>>>>
     [] op = "sr"  -> <<<<"fetch", 2>>>> \o App("L", <<<<"q", 0>>, <<"q", 1>>>>) \o <<<<"ret">>, <<"bits", 2>>>>
     [] op = "op"  -> App("S", <<<<"str", t, k>>>>) \o <<<<"name">>>> \o App("R", <<<<"ent">>>>) \o <<<<"ret">>>> \o
                      App("L", <<<<"s", t, k, 0>>, <<"s", t, k, 1>>>>) \o <<<<"bits", 2>>>>
     [] op = "un"  -> <<<<"count">>, <<"scan", <<"u", 3, 4, 0>>>>>> \o App("L", <<<<"u", 3, 4, 0>>>>) \o <<<<"ret">>>>
     [] op = "un2" -> <<<<"count">>, <<"scan", <<"u", 1, 4, 0>>>>>> \o App("L", <<<<"u", 1, 4, 0>>>>) \o <<<<"ret">>>>
     [] op = "br"  -> <<<<"chk", 3>>>>
     [] op = "fn"  -> <<<<"acq", "M">>, <<"find", "f">>>> \o App("S", <<<<"str", "f">>>>) \o <<<<"name">>>> \o App("F", <<<<"fun">>>>) \o
                      <<<<"ins", "f">>, <<"rel", "M">>, <<"entry">>>>
     [] op = "own" -> <<<<"acq", "M">>, <<"find", t>>>> \o App("S", <<<<"str", t>>>>) \o <<<<"name">>>> \o App("F", <<<<"fun">>>>) \o
                      <<<<"ins", t>>, <<"rel", "M">>, <<"entry">>>>
     [] op = "cf"  -> App("C", <<<<t, k, 1>>, <<t, k, 2>>>>)
     [] op = "wr"  -> App("K", <<<<t, k, 1>>>>) \o App("K", <<<<t, k, 2>>>>))
  \o <<<<"end">>>>
RECURSIVE Compile(_, _, _)
Compile(t, p, k) == IF k > Len(p) THEN <<>> ELSE Code(t, k, p[k]) \o Compile(t, p, k + 1)
InitL == [i \in 1 .. Cap |-> IF i = 1 THEN <<"s", "in", 0, 0>> ELSE IF i = 2 THEN <<"s", "in", 1, 0>> ELSE IF i = 3 THEN <<"r", 1, 2, 0>>
                             ELSE IF i = 4 THEN <<"s", "in", 9, 0>> ELSE Hole]
Init == /\ prog \in [Threads -> Progs]
        /\ todo = [t \in Threads |-> Compile(t, prog[t], 1)]
        /\ base = [t \in Threads |-> 0] /\ cnt = [t \in Threads |-> 0]
        /\ it = [s \in Secs |-> IF s = "L" THEN 4 ELSE 0]
        /\ mem = [s \in Secs |-> IF s = "L" THEN InitL ELSE [i \in 1 .. Cap |-> Hole]]
        /\ lk = [s \in Secs \cup {"M"} |-> ""]
        /\ bits = {1, 2, 4} /\ map = <<>> /\ res = [t \in Threads |-> <<>>] /\ pos = 0
        /\ (Emit => PrintT("@S " \o ToJson([t \in Threads |-> prog[t]])))
RECURSIVE Skip(_)
Skip(q) == IF q[1][1] = "end" THEN q ELSE Skip(Tail(q))
Go(t, q) == todo' = [todo EXCEPT ![t] = q]
Same(e, f) == e[1] = f[1] /\ e[2] = f[2] /\ e[3] = f[3]
Flagged(e) == e[4] = 1
(* sources carry their flag in bits of their own model variable: entry kind s keeps the flag in field 4 as well *)
Step(t) ==
  /\ todo[t] # <<>>
  /\ LET m == todo[t][1]  rest == Tail(todo[t]) IN
     CASE m[1] = "end" -> Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map, res>>
       [] m[1] = "acq" -> /\ (~Locked \/ lk[m[2]] = "")
                          /\ lk' = [lk EXCEPT ![m[2]] = t] /\ Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, bits, map, res>>
       [] m[1] = "rel" -> lk' = [lk EXCEPT ![m[2]] = ""] /\ Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, bits, map, res>>
       [] m[1] = "rd" -> base' = [base EXCEPT ![t] = it[m[2]]] /\ Go(t, rest) /\ UNCHANGED <<cnt, it, mem, lk, bits, map, res>>
       [] m[1] = "bump" -> it' = [it EXCEPT ![m[2]] = base[t] + m[3]] /\ Go(t, rest) /\ UNCHANGED <<base, cnt, mem, lk, bits, map, res>>
       [] m[1] = "wr" -> /\ mem' = [mem EXCEPT ![m[2]][base[t] + m[3]] = 
                               CASE m[4][1] \in {"fun", "ent"} -> <<m[4][1], cnt[t]>>
                                 [] m[4][1] = "q" -> <<"q", cnt[t] + m[4][2], 0, 0>>
                                 [] OTHER -> m[4]]
                         /\ Go(t, rest) /\ UNCHANGED <<base, cnt, it, lk, bits, map, res>>
       [] m[1] = "ret" -> res' = [res EXCEPT ![t] = Append(@, base[t] + 1)] /\ Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map>>
       [] m[1] = "bits" -> bits' = bits \cup (base[t] + 1 .. base[t] + m[2]) /\ Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, lk, map, res>>
       [] m[1] = "count" -> /\ (~Locked \/ lk["L"] = "")
                            /\ cnt' = [cnt EXCEPT ![t] = it["L"]] /\ Go(t, rest) /\ UNCHANGED <<base, it, mem, lk, bits, map, res>>
       [] m[1] = "scan" -> LET D == {i \in 1 .. cnt[t] : mem["L"][i] # Hole /\ Same(mem["L"][i], m[2])} IN
                           IF D = {} THEN Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map, res>>
                           ELSE \E d \in D : res' = [res EXCEPT ![t] = Append(@, d)] /\ Go(t, Skip(rest)) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map>>
       (* marking: check the flag; load; store; then the parts *)
       [] m[1] = "chk" -> /\ Go(t, IF Flagged(mem["L"][m[2]]) THEN rest ELSE <<<<"ld", m[2]>>>> \o rest)
                          /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map, res>>
       [] m[1] = "ld" -> Go(t, <<<<"st", m[2], [mem["L"][m[2]] EXCEPT ![4] = 1]>>>> \o rest) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map, res>>
       [] m[1] = "st" -> /\ mem' = [mem EXCEPT !["L"][m[2]] = m[3]]
                         /\ Go(t, (IF m[3][1] = "r" THEN <<<<"chk", m[3][2]>>, <<"chk", m[3][3]>>>> ELSE <<>>) \o rest)
                         /\ UNCHANGED <<base, cnt, it, lk, bits, map, res>>
       [] m[1] = "find" -> IF \E i \in 1 .. Len(map) : map[i][1] = m[2]
                           THEN /\ base' = [base EXCEPT ![t] = (CHOOSE p \in {map[i] : i \in 1 .. Len(map)} : p[1] = m[2])[2]]
                                /\ Go(t, <<<<"rel", "M">>, <<"entry">>, <<"end">>>> \o Tail(Skip(rest))) /\ UNCHANGED <<cnt, it, mem, lk, bits, map, res>>
                           ELSE Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map, res>>
       [] m[1] = "name" -> cnt' = [cnt EXCEPT ![t] = base[t] + 1] /\ Go(t, rest) /\ UNCHANGED <<base, it, mem, lk, bits, map, res>>
       [] m[1] = "ins" -> map' = Append(map, <<m[2], base[t]>>) /\ Go(t, rest) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, res>>
       [] m[1] = "entry" -> /\ res' = [res EXCEPT ![t] = Append(@, base[t] + 1)]
                            /\ Go(t, App("E", <<<<t, base[t] + 1>>>>) \o rest) /\ UNCHANGED <<base, cnt, it, mem, lk, bits, map>>
       [] m[1] = "fetch" -> /\ cnt' = [cnt EXCEPT ![t] = pos] /\ Go(t, rest) /\ UNCHANGED <<base, it, mem, lk, bits, map, res>>
  /\ pos' = IF todo[t][1][1] = "fetch" THEN pos + todo[t][1][2] ELSE pos
  /\ UNCHANGED prog
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
(* ---- what has to hold ------------------------------------------------------------ *)
Done == \A t \in Threads : todo[t] = <<>>
(* what the locks are for: whoever sees the count sees complete records *)
Complete == \A s \in Secs : lk[s] = "" => \A i \in 1 .. Cap : (mem[s][i] # Hole) = (i <= it[s])
RECURSIVE Count(_, _)
Count(p, o) == IF p = <<>> THEN 0 ELSE (IF p[1] \in o THEN 1 ELSE 0) + Count(Tail(p), o)
RECURSIVE Sum(_, _)
Sum(S, o) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Count(prog[t], o) + Sum(S \ {t}, o)
Total(o) == Sum(Threads, o)
(* the position of the k-th operation's result in res[t] *)
ResAt(t, k) == Count(SubSeq(prog[t], 1, k), {"src", "sr", "op", "un", "un2", "fn", "own"})
UnlikeFlags(e, f) == Same(e, f)
Seen(s, f(_)) == SelectSeq([i \in 1 .. it[s] |-> mem[s][i]], f)
Final ==
  Done =>
  /\ \A t \in Threads : \A k \in 1 .. Len(prog[t]) :
       LET o == prog[t][k]  r == IF ResAt(t, k) > 0 THEN res[t][ResAt(t, k)] ELSE 0 IN
       CASE o = "src" -> mem["L"][r] = <<"s", t, k, 0>> /\ mem["L"][r + 1] = <<"s", t, k, 1>> /\ {r, r + 1} \subseteq bits
         [] o = "sr" -> mem["L"][r][1] = "q" /\ mem["L"][r + 1] = <<"q", mem["L"][r][2] + 1, 0, 0>> /\ {r, r + 1} \subseteq bits
         [] o = "op" -> mem["R"][r][1] = "ent" /\ mem["S"][mem["R"][r][2]] = <<"str", t, k>>
         [] o = "un" -> Same(mem["L"][r], <<"u", 3, 4, 0>>)
         [] o = "un2" -> Same(mem["L"][r], <<"u", 1, 4, 0>>)
         [] o = "br" -> \A x \in {1, 2, 3} : Flagged(mem["L"][x])
         [] o \in {"fn", "own"} -> /\ mem["F"][r][1] = "fun" /\ mem["S"][mem["F"][r][2]] = <<"str", IF o = "fn" THEN "f" ELSE t>>
                                   /\ \E i \in 1 .. it["E"] : mem["E"][i] = <<t, r>>
         [] OTHER -> TRUE
  (* nothing beyond what was asked for, every record once *)
  /\ Cardinality({i \in 1 .. it["L"] : mem["L"][i][1] = "s"}) = 3 + 2 * Total({"src", "op"})
  /\ {mem["L"][i][2] : i \in {j \in 1 .. it["L"] : mem["L"][j][1] = "q"}} = 0 .. 2 * Total({"sr"}) - 1
  /\ Cardinality({i \in 1 .. it["L"] : mem["L"][i][1] = "q"}) = 2 * Total({"sr"})
  /\ bits = {i \in 1 .. it["L"] : mem["L"][i][1] \in {"s", "q"}}
  /\ (Total({"br"}) = 0 => \A x \in 1 .. 4 : ~Flagged(mem["L"][x]))
  /\ it["C"] = 2 * Total({"cf"}) /\ it["K"] = 2 * Total({"wr"}) /\ it["E"] = Total({"fn", "own"}) /\ it["R"] = Total({"op"})
  (* one number per name *)
  /\ \A i, j \in 1 .. it["F"] : i # j => mem["S"][mem["F"][i][2]] # mem["S"][mem["F"][j][2]]
  (* whole records, each thread's in order *)
  /\ \A i \in 1 .. it["C"] : mem["C"][i][3] = 2 - (i % 2) /\ (i % 2 = 1 => mem["C"][i + 1] = <<mem["C"][i][1], mem["C"][i][2], 2>>)
  /\ \A s \in {"C", "K"} : \A i, j \in 1 .. it[s] : i < j /\ mem[s][i][1] = mem[s][j][1] =>
        mem[s][i][2] < mem[s][j][2] \/ (mem[s][i][2] = mem[s][j][2] /\ mem[s][i][3] < mem[s][j][3])
(* no schedule gets stuck: threads that are not finished can go on *)
Live == Done \/ \E t \in Threads : todo[t] # <<>> /\ (todo[t][1][1] = "acq" => ~Locked \/ lk[todo[t][1][2]] = "")
                                    /\ (todo[t][1][1] = "count" => ~Locked \/ lk["L"] = "")
===============================================================================
