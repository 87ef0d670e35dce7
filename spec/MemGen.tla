-------------------------------- MODULE MemGen --------------------------------
(* Memory, string and heap operations an instrumented program can perform, with  *)
(* every length, position and overlap within small buffers.  Generates scripts;  *)
(* what the operations have to do is specified in PT.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Ops, MaxLen, W      \* W: bytes of a buffer the operations work on
VARIABLES st, hist, steps
vars == <<st, hist, steps>>
S(x) == ToString(x)
J(q) == LET RECURSIVE go(_)
            go(i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o q[i] \o go(i + 1)
        IN go(1)
HB == 20 .. 23                                   \* heap blocks
Init == /\ st = [h \in HB |-> -1] /\ hist = <<>> /\ steps = 0     \* size of each block, -1: none

B2 == {0, 1}
P == 0 .. W
Regs == {0, 1, 2, 3}
Fits(o, n) == o + n <= W
Disjoint(b, o, s, so, n) == b # s \/ o + n <= so \/ so + n <= o
Copy(fn, ov) == UNION {{<<J(<<"mem", fn, S(b), S(o), S(s), S(so), S(n)>>), st>> :
                  n \in {k \in P : Fits(o, k) /\ Fits(so, k) /\ (ov \/ Disjoint(b, o, s, so, k))}} :
                  b \in B2, s \in B2, o \in P, so \in P}
SetC == UNION {{<<J(<<"mem memset", S(b), S(o), S(b), S(c), S(n), "0", S(g)>>), st>> : n \in {k \in P : Fits(o, k)}} :
          b \in B2, o \in P, c \in {0, 65, 300}, g \in Regs}
(* strings: a terminator is placed first; source and destination differ *)
StrcatC == UNION {{<<J(<<"put 1", S(z), "00|put 0", S(y), "00|mem strcat 0", S(o), "1", S(so), "0">>), st>> :
             z \in {k \in P : k >= so /\ k < W /\ k - so + y < W}} :
             o \in {0, 2}, so \in {0, 1, 3}, y \in {2, 3, 5}}
StrncpyC == UNION {{<<J(<<"put 1", S(z), "00|mem strncpy 0", S(o), "1", S(so), S(n)>>), st>> :
              n \in {k \in P : Fits(o, k)}} : o \in {0, 1, 3}, so \in {0, 2}, z \in {k \in P : k >= 2 /\ k < W}}
StrcpyX == UNION {{<<J(<<"put 1", S(z), "00|mem strcpy 0", S(o), "1", S(so), "0">>), st>> :
              z \in {k \in P : k >= so /\ o + k - so < W}} : o \in {0, 1, 3}, so \in {0, 1, 2}}
StrdupX == {<<J(<<"put 1", S(z), "00|mem strdup 0 0 1", S(so), "0">>), st>> : so \in {0, 1, 2}, z \in {k \in P : k >= 2 /\ k < W}}
LabelC(fn) == UNION {{<<J(<<fn, S(b), S(o), S(n), S(g)>>), st>> : n \in {k \in P : Fits(o, k)}} :
                b \in B2, o \in P, g \in Regs}
LoadC == UNION {{<<J(<<"ldn", S(b), S(o), S(n), S(g)>>), st>> : n \in {k \in P : k >= 1 /\ Fits(o, k)}} :
           b \in B2, o \in P, g \in {1, 2, 3}}
UnC == {<<J(<<"un", S(a), S(b), S(c)>>), st>> : a \in Regs, b \in Regs, c \in {1, 2, 3}}
LbC == {<<J(<<"lb", S(b), S(o), S(c)>>), st>> : b \in B2, o \in P \ {W}, c \in {1, 2, 3}}
FillC == {<<J(<<"fill", S(b), S(o), "5152">>), st>> : b \in B2, o \in {k \in P : k <= W - 2}}

(* heap *)
Sizes == {1, 7, 8, 24, 25, 100, 1000, 3000}
Live == {h \in HB : st[h] >= 0}
MallocC == {<<J(<<f, S(h), S(n)>>), [st EXCEPT ![h] = n]>> : f \in {"malloc", "calloc"}, h \in HB \ Live, n \in Sizes}
HsetC == UNION {{<<J(<<"hset", S(h), S(i), S(g), S(c)>>), st>> :
            i \in {k \in {0, 1, 6, 7, 23, 24, 99, 999, 2999} : k < st[h]}} : h \in Live, g \in Regs, c \in {66, 7}}
ReallocC == {<<J(<<"realloc", S(h), S(n)>>), [st EXCEPT ![h] = n]>> : h \in Live, n \in Sizes}
RefailC == {<<J(<<"realloc", S(h), "1 fail">>), st>> : h \in Live}
FreeC == {<<J(<<"free", S(h)>>), [st EXCEPT ![h] = -1]>> : h \in Live}

Class(o) ==
  CASE o = "memcpy" -> Copy("memcpy", FALSE) [] o = "memmove" -> Copy("memmove", TRUE) [] o = "memset" -> SetC
    [] o = "strcpy" -> StrcpyX [] o = "strcat" -> StrcatC [] o = "strncpy" -> StrncpyC [] o = "strdup" -> StrdupX
    [] o = "setl" -> LabelC("setl") [] o = "addl" -> LabelC("addl") [] o = "ldn" -> LoadC
    [] o = "un" -> UnC [] o = "lb" -> LbC [] o = "fill" -> FillC
    [] o = "malloc" -> MallocC [] o = "hset" -> HsetC [] o = "realloc" -> ReallocC [] o = "refail" -> RefailC [] o = "free" -> FreeC

Do(c) == st' = c[2] /\ hist' = Append(hist, c[1])
Closers == [i \in 1 .. 4 |-> IF st[19 + i] >= 0 THEN "free " \o S(19 + i) ELSE "%"]
Next == /\ Len(hist) < MaxLen /\ UNCHANGED steps
        /\ \E o \in Ops : \E c \in Class(o) : Do(c)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("@S " \o ToJson(hist \o Closers))
SimNext == IF steps < MaxLen
           THEN /\ steps' = steps + 1
                /\ \E o \in RandomSubset(1, Ops) : LET C == Class(o) IN
                     IF C = {} THEN UNCHANGED <<st, hist>> ELSE \E c \in RandomSubset(1, C) : Do(c)
           ELSE /\ steps = MaxLen
                /\ PrintT("@S " \o ToJson(hist \o Closers))
                /\ steps' = steps + 1 /\ UNCHANGED <<st, hist>>
SimSpec == Init /\ [][SimNext]_vars
TypeOK == \A h \in HB : st[h] >= -1
===============================================================================
