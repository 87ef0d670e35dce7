--------------------------------- MODULE Cache ----------------------------------
(* The bounded cache, the ordered set and the memoised function, as functions     *)
(* from a state and an operation to the next state and the answer.                 *)
(* Cache state: sequence of <<key, value>>, least recently used first.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Keys(q) == {q[i][1] : i \in 1 .. Len(q)}
At(q, k) == CHOOSE i \in 1 .. Len(q) : q[i][1] = k
Val(q, k) == q[At(q, k)][2]
Drop(q, k) == SelectSeq(q, LAMBDA x : x[1] # k)
Touch(q, k) == Append(Drop(q, k), <<k, Val(q, k)>>)
(* max = -1: no limit *)
Trim(q, max) == IF max >= 0 /\ Len(q) > max THEN SubSeq(q, Len(q) - max + 1, Len(q)) ELSE q
Put(q, max, k, v) == Trim(Append(Drop(q, k), <<k, v>>), max)
Firsts(q) == [i \in 1 .. Len(q) |-> q[i][1]]
None == <<"none">>
Fail == <<"KeyError">>
Got(v) == <<"v", v>>
Res(q, r) == [q |-> q, r |-> r]
(* iterating uses the keys it passes, least recently used first; n = how many are taken *)
RECURSIVE Walk(_, _, _)
Walk(q, n, out) == IF n = 0 \/ Len(out) = Len(q) THEN Res(q, out)
                   ELSE LET k == Firsts(SelectSeq(q, LAMBDA x : x[1] \notin {out[i] : i \in 1 .. Len(out)}))[1]
                        IN Walk(Touch(q, k), n - 1, Append(out, k))
LRU(q, max, op) ==
  LET k == op[2] IN
  CASE op[1] = "set" -> Res(Put(q, max, k, op[3]), None)
    [] op[1] = "get" -> IF k \in Keys(q) THEN Res(Touch(q, k), Got(Val(q, k))) ELSE Res(q, Fail)
    [] op[1] = "getd" -> IF k \in Keys(q) THEN Res(Touch(q, k), Got(Val(q, k))) ELSE Res(q, Got(op[3]))
    [] op[1] = "has" -> IF k \in Keys(q) THEN Res(Touch(q, k), Got(1)) ELSE Res(q, Got(0))
    [] op[1] = "del" -> IF k \in Keys(q) THEN Res(Drop(q, k), None) ELSE Res(q, Fail)
    [] op[1] = "pop" -> IF k \in Keys(q) THEN Res(Drop(q, k), Got(Val(q, k))) ELSE Res(q, Fail)
    [] op[1] = "sdef" -> IF k \in Keys(q) THEN Res(Touch(q, k), Got(Val(q, k))) ELSE Res(Put(q, max, k, op[3]), Got(op[3]))
    [] op[1] = "len" -> Res(q, Got(Len(q)))
    [] op[1] = "iter" -> LET w == Walk(q, k, <<>>) IN Res(w.q, w.r)
    [] op[1] = "items" -> Res(q, q)
    [] op[1] = "clear" -> Res(<<>>, None)

(* ordered set: sequence of members in the order they came *)
In(s, x) == \E i \in 1 .. Len(s) : s[i] = x
Plus(s, x) == IF In(s, x) THEN s ELSE Append(s, x)
Minus(s, x) == SelectSeq(s, LAMBDA y : y # x)
Both(s, t) == SelectSeq(s, LAMBDA y : In(t, y))
Less(s, t) == SelectSeq(s, LAMBDA y : ~In(t, y))
Join(s, t) == FoldLeft(Plus, s, t)
Bool(b) == Got(IF b THEN 1 ELSE 0)
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
OSet(s, op) ==
  LET x == op[2] IN
  CASE op[1] = "add" -> Res(Plus(s, x), None)
    [] op[1] = "discard" -> Res(Minus(s, x), None)
    [] op[1] = "remove" -> IF In(s, x) THEN Res(Minus(s, x), None) ELSE Res(s, Fail)
    [] op[1] = "in" -> Res(s, Bool(In(s, x)))
    [] op[1] = "olen" -> Res(s, Got(Len(s)))
    [] op[1] = "list" -> Res(s, s)
    [] op[1] = "or" -> Res(s, Join(s, x))
    [] op[1] = "sub" -> Res(s, Less(s, x))
    [] op[1] = "xor" -> Res(s, Less(s, x) \o Less(FoldLeft(Plus, <<>>, x), s))
    [] op[1] = "and" -> Res(s, Both(s, x))
    [] op[1] = "ior" -> Res(Join(s, x), None)
    [] op[1] = "isub" -> Res(Less(s, x), None)
    [] op[1] = "iand" -> Res(Both(s, x), None)
    [] op[1] = "le" -> Res(s, Bool(SetOf(s) \subseteq SetOf(x)))
    [] op[1] = "eq" -> Res(s, Bool(SetOf(s) = SetOf(x)))
    [] op[1] = "disj" -> Res(s, Bool(SetOf(s) \cap SetOf(x) = {}))
    [] op[1] = "oclear" -> Res(<<>>, None)

(* memoised function: <<known, result, evaluations>>; the operation says what an  *)
(* evaluation would do: <<"ret", v>> or <<"raise", 0>>; the answer ends with the    *)
(* number of evaluations so far                                                    *)
Memo(m, op) ==
  IF m[1] = 1 THEN Res(m, <<"v", m[2], m[3]>>)
  ELSE IF op[1] = "ret" THEN Res(<<1, op[2], m[3] + 1>>, <<"v", op[2], m[3] + 1>>)
  ELSE Res(<<0, 0, m[3] + 1>>, <<"raised", 0, m[3] + 1>>)
===============================================================================
