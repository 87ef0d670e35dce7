------------------------------- MODULE TraceGen --------------------------------
(* Well-formed traces, as a reader may meet them: sources (name, descriptor,      *)
(* size; the same name or descriptor may come back), labels over them, marks       *)
(* closed under the labels they came from, output records, functions and events.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Sources,   \* sequence of <<name, descriptor, size or -1>>
          Offsets,   \* offsets of input bytes
          OutOffs,   \* offsets of output bytes
          MaxLab, MaxMarks, MaxSinks, MaxFns, MaxEvents, Steps
VARIABLES lab, sinks, fns, events, marks, phase, n
vars == <<lab, sinks, fns, events, marks, phase, n>>
Sx == 1 .. Len(Sources)
Init == lab = <<>> /\ sinks = <<>> /\ fns = 0 /\ events = <<>> /\ marks = 0 /\ phase = 0 /\ n = 0
Parents(l) == LET e == lab[l] IN CASE e[1] = 1 -> {} [] e[1] = 2 -> {e[2], e[3]} [] OTHER -> e[2] .. e[3]
RECURSIVE Closure(_)
Closure(S) == LET N == S \cup UNION {Parents(l) : l \in S} IN IF N = S THEN S ELSE Closure(N)
Add(e) == Len(lab) < MaxLab /\ lab' = Append(lab, e) /\ UNCHANGED <<sinks, fns, events, marks>>
Input(s, o) == Add(<<1, s - 1, o, 0>>)
Union(a, b) == a > b /\ Add(<<2, a, b, 0>>)
Range(a, b) == a < b /\ Add(<<3, a, b, 0>>)
Mark(l) == /\ marks < MaxMarks /\ marks' = marks + 1
           /\ LET C == Closure({l}) IN lab' = [i \in 1 .. Len(lab) |-> IF i \in C THEN [lab[i] EXCEPT ![4] = 1] ELSE lab[i]]
           /\ UNCHANGED <<sinks, fns, events>>
Sink(o, l, s) == /\ Len(sinks) < MaxSinks /\ sinks' = Append(sinks, <<o, l, s - 1>>) /\ UNCHANGED <<lab, fns, events, marks>>
Fn == fns < MaxFns /\ fns' = fns + 1 /\ UNCHANGED <<lab, sinks, events, marks>>
Event(k, f) == Len(events) < MaxEvents /\ events' = Append(events, <<k, f>>) /\ UNCHANGED <<lab, sinks, fns, marks>>
L == 1 .. Len(lab)
(* exhaustive: labels first, then marks, then outputs *)
Next == /\ UNCHANGED n
        /\ \/ phase = 0 /\ UNCHANGED phase /\ (\/ \E s \in Sx, o \in Offsets : Input(s, o)
                                               \/ \E a, b \in L : Union(a, b) \/ Range(a, b))
           \/ Len(lab) = MaxLab /\ phase <= 1 /\ phase' = 1 /\ \E l \in L : lab[l][4] = 0 /\ Mark(l)
           \/ Len(lab) = MaxLab /\ phase' = 2 /\ \E o \in OutOffs, l \in L, s \in Sx : Sink(o, l, s)
Spec == Init /\ [][Next]_vars
Out == ToJson(<<lab, sinks, fns, events>>)
Emit == Len(lab) < MaxLab \/ PrintT("@S " \o Out)
One(S) == RandomSubset(1, S)
SimNext ==
  IF n < Steps
  THEN /\ n' = n + 1 /\ UNCHANGED phase
       /\ \/ \E s \in One(Sx), o \in One(Offsets) : Input(s, o)
          \/ \E s \in One(Sx), o \in One(Offsets) : Input(s, o)
          \/ \E a \in One(L), b \in One(L) : L # {} /\ (Union(a, b) \/ Range(a, b))
          \/ \E a \in One(L), b \in One(L) : L # {} /\ (Union(a, b) \/ Range(a, b))
          \/ L # {} /\ RandomElement(1 .. 4) = 1 /\ \E l \in One(L) : Mark(l)
          \/ L # {} /\ \E o \in One(OutOffs), l \in One({0} \cup L), s \in One(Sx) : Sink(o, l, s)
          \/ Fn
          \/ fns > 0 /\ \E k \in One({0, 1}), f \in One(0 .. fns - 1) : Event(k, f)
          \/ UNCHANGED <<lab, sinks, fns, events, marks>>
  ELSE n = Steps /\ PrintT("@S " \o Out) /\ n' = n + 1 /\ UNCHANGED <<lab, sinks, fns, events, marks, phase>>
SimSpec == Init /\ [][SimNext]_vars
WellFormed == \A l \in L : /\ Parents(l) \subseteq 1 .. l - 1
                           /\ lab[l][4] = 1 => \A p \in Parents(l) : lab[p][4] = 1
===============================================================================
