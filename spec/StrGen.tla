-------------------------------- MODULE StrGen --------------------------------
(* String, conversion, formatting and system-information calls of an            *)
(* instrumented program: every pair of short texts over an alphabet with         *)
(* letters of both cases and bytes above 0x7f, every bound; every directive with *)
(* its flags, widths and precisions, every output size.  Generates scripts; what *)
(* the calls have to do is specified in PT.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Ops, MaxLen
VARIABLES hist, steps
vars == <<hist, steps>>
S(x) == ToString(x)
J(q) == LET RECURSIVE go(_)
            go(i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o q[i] \o go(i + 1)
        IN go(1)
Init == hist = <<>> /\ steps = 0
Regs == {0, 1, 2, 3}

(* ---- comparisons: buffers 2 and 3, three characters and what follows --------- *)
Sym == {"00", "41", "61", "5b", "80", "ff"}
W3 == {x \o y \o "61" : x \in Sym, y \in {"00", "61", "41", "ff"}}
CmpC == {<<J(<<"fill 2 0", a, "|fill 3 1", b, "|cmp", f, "2 0 3 1", S(n)>>)>> :
           a \in W3, b \in W3, f \in {"memcmp", "bcmp", "strncmp", "strncasecmp"}, n \in {0, 1, 2, 3}}
StrcmpC == {<<J(<<"fill 2 0", a \o "00", "|fill 3 0", b \o "00", "|cmp", f, "2 0 3 0 0", S(g), S(2 * g)>>)>> :
           a \in W3, b \in W3, f \in {"strcmp", "strcasecmp"}, g \in {0, 1}}
(* ---- searches ----------------------------------------------------------------- *)
H4 == {x \o y \o z \o w : x \in {"61", "80"}, y \in {"61", "62", "ff"}, z \in {"61", "62", "80", "00"}, w \in {"62", "ff"}}
FindC == {<<J(<<"fill 2 0", a \o "00", "|fill 3 0 0000|find", f, "2 0", c, "3 0", S(n), S(g)>>)>> :
           a \in H4, f \in {"strlen", "strchr", "strrchr", "memchr"}, n \in {0, 3},
           c \in {"0", "98", "128", "255", "-128", "353", "256"}, g \in {0, 1}}
N2 == {"00", "6100", "6200", "8000", "ff00", "616200", "626100", "62ff00", "ff8000", "61616100"}
SubC == {<<J(<<"fill 2 0", a \o "00", "|fill 3 0", b, "|find", f, "2 0 0 3 0 0", S(g)>>)>> :
           a \in H4, b \in N2, f \in {"strstr", "strpbrk"}, g \in {0, 1}}
(* ---- conversions (text in hexadecimal) ------------------------------------------ *)
Texts == {"3132", "2d3778", "202b30783146", "303737", "7a7a", "", "2d", "3939393939393939393939393939393939393939", "3078", "316533",
          "6e616e", "696e66", "2d302e35652d33", "0920313233313233", "306231", "2d39323233333732303336383534373735383039",
          "31383434363734343037333730393535313631", "37", "312e352e32", "3078312e3870", "3965333939"}
Taint == {"setl 2 0 24 0", "setl 2 0 24 1", "setl 2 0 24 0|setl 2 0 1 2", "setl 2 0 24 0|setl 2 1 1 1|setl 2 2 1 2",
          "setl 2 0 24 3|setl 2 1 1 0", "setl 2 0 1 1|setl 2 1 22 2"}
ConvC == {<<J(<<"fill 2 0", t \o "00", "|", l, "|conv", f, "2 0", S(b), S(g), "5">>) \o (IF b = 8 \/ g = 3 THEN " null" ELSE "")>> :
           t \in Texts, l \in Taint, f \in {"strtol", "strtoll", "strtoul", "strtoull"},
           b \in {0, 8, 10, 16, 36}, g \in {0, 3}}
ConvdC == {<<J(<<"fill 2 0", t \o "00", "|", l, "|conv strtod 2 0 0 0 5">>) \o z>> : t \in Texts, l \in Taint, z \in {"", " null"}}
(* ---- formatted output: strings lie in buffer 0 (characters 1..6) and 3 ----------- *)
Lits == {"t:", "t:61", "t:414243", "%", "m"}
Nums == {J(<<"">>) \o "d:" \o f \o ":" \o w \o ":" \o p \o ":" \o v \o ":" \o S(g) :
           f \in {"-", "0", "_", "+"}, w \in {"-", "1", "4", "*3", "*-5"}, p \in {"-", "2", "*1"},
           v \in {"d:42", "x:-1", "u:7", "ld:-123456", "zu:9", "hhd:300", "llx:255", "c:65", "o:8", "jd:5", "hd:-3"}, g \in {1, 3}}
Flts == {"f:" \o f \o ":" \o w \o ":" \o p \o ":" \o v \o ":" \o S(g) :
           f \in {"-", "0", "_"}, w \in {"-", "6", "*7"}, p \in {"-", "0", "1", "*2"}, v \in {"f:2.5", "g:1e10", "e:-0.125", "a:1"}, g \in {1, 3}}
Strs == {"s:" \o f \o ":" \o w \o ":" \o p \o ":" \o a :
           f \in {"-", "_"}, w \in {"-", "1", "5", "9", "*6", "*-7", "*0"}, p \in {"-", "0", "2", "4", "*1", "*3", "*-1"},
           a \in {"0:0", "0:3", "3:0", "3:2", "3:5"}}
Ns == {"n:1:4"}
Pieces == Lits \cup Nums \cup Flts \cup Strs \cup Ns
Sizes == {"-1", "0", "1", "2", "3", "4", "5", "6", "7", "9", "12", "17", "40"}
(* one directive alone or between literal text *)
FmtC == {<<J(<<"fmt", z, "2 1", a, b, c>>)>> : z \in Sizes, a \in {"", "t:5b"}, b \in Lits \cup Strs \cup Ns, c \in {"", "t:5d"}}
FmtN == {<<J(<<"fmt", z, "2 0", b>>)>> : z \in {"-1", "1", "3", "30"}, b \in Nums \cup Flts}

(* ---- system information ------------------------------------------------------------ *)
SysC == {<<J(<<"sys", f, S(v), "99", S(g), S(h)>>)>> :
          f \in {"stat", "fstat", "getcwd", "gethostname", "getrlimit", "getrusage", "time", "gettimeofday", "clock_gettime", "localtime_r",
                 "ctime_r", "socketpair", "poll", "epoll_wait", "sched_getaffinity", "sigaltstack"}, v \in {0, 1}, g \in Regs, h \in {0, 2}}
        \cup {<<J(<<"sys", f, S(v), "98", S(g), S(h)>>)>> : f \in {"inet_pton", "getsockname", "getpeername", "select", "epoll_wait"}, v \in {0, 1, 2}, g \in Regs, h \in {0, 3}}
        \cup {<<J(<<"sys", f, S(v), "98", S(g), S(h)>>)>> : f \in {"getsockopt", "poll", "sigemptyset"}, v \in {0, 1}, g \in Regs, h \in {0, 3}}
EdgeC == {<<J(<<"edge", f, S(n)>>)>> : f \in {"strncpy", "memcpy", "strncmp", "memcmp", "snprintf"}, n \in 1 .. 20}
         \cup {<<J(<<"callocfail", a, b>>)>> : a \in {"1", "3", "4294967296"}, b \in {"1152921504606846976", "9223372036854775807", "18446744073709551615"}}

Class(o) ==
  CASE o = "cmp" -> CmpC [] o = "strcmp" -> StrcmpC [] o = "find" -> FindC [] o = "sub" -> SubC
    [] o = "conv" -> ConvC [] o = "convd" -> ConvdC [] o = "fmt" -> FmtC [] o = "fmtn" -> FmtN [] o = "sys" -> SysC [] o = "edge" -> EdgeC

(* one call of each form *)
Next == /\ Len(hist) < MaxLen /\ UNCHANGED steps
        /\ \E o \in Ops : \E c \in Class(o) : hist' = Append(hist, c[1])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("@S " \o ToJson(hist))
(* a format of several pieces, built step by step *)
SimNext == IF steps < MaxLen
           THEN /\ steps' = steps + 1
                /\ \E k \in RandomSubset(1, 1 .. 5) : \E p \in RandomSubset(1, CASE k = 1 -> Lits [] k = 2 -> Nums [] k = 3 -> Flts [] OTHER -> Strs) :
                     hist' = Append(hist, p)
           ELSE /\ steps = MaxLen
                /\ \E z \in RandomSubset(1, Sizes) : \E n \in RandomSubset(1, 1 .. 6) :
                     LET h == IF n <= Len(hist) THEN SubSeq(hist, 1, n - 1) \o <<"n:1:4">> \o SubSeq(hist, n, Len(hist)) ELSE hist
                     IN PrintT("@S " \o ToJson(<<J(<<"fmt", z, "2 1", J(h)>>)>>))
                /\ steps' = steps + 1 /\ UNCHANGED hist
SimSpec == Init /\ [][SimNext]_vars
TypeOK == Len(hist) <= MaxLen
===============================================================================
