------------------------------- MODULE ConcTrace -------------------------------
(* The finished trace of a multi-threaded run against what its threads were told. *)
(* t.th[i]: the operations of thread i in its order, with their results; the last  *)
(* one is the main thread, which acts while the others are idle.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS TraceFile, Active
Tr == JsonDeserialize(TraceFile)
F(name, cond) == IF ~cond THEN {<<"C15", name>>} ELSE {}
Of(q, ops) == SelectSeq(q, LAMBDA e : e.op \in ops)
All(t, ops) == LET m(a, q) == a \o Of(q, ops) IN FoldLeft(m, <<>>, t.th)
Ran(q) == {q[i] : i \in 1 .. Len(q)}
(* label l is entry l + 1 of the table: <<kind, a, b, affects control flow>> *)
E(f, l) == f.labels[l + 1]
Known(f, l) == l \in 0 .. Len(f.labels) - 1
RECURSIVE Den(_, _)
Den(f, l) == IF l = 0 THEN {}
             ELSE LET e == E(f, l) IN
               CASE e[1] = "s" -> {<<e[2], e[3]>>}
                 [] e[1] = "r" -> UNION {Den(f, x) : x \in e[2] .. e[3]}
                 [] e[1] = "u" -> Den(f, e[2]) \cup Den(f, e[3])
(* parts of a label, itself included *)
RECURSIVE Down(_, _)
Down(f, l) == IF l = 0 THEN {}
              ELSE LET e == E(f, l) IN
                {l} \cup CASE e[1] = "s" -> {}
                           [] e[1] = "r" -> UNION {Down(f, x) : x \in e[2] .. e[3]}
                           [] e[1] = "u" -> Down(f, e[2]) \cup Down(f, e[3])
WellFormed(f) == /\ Len(f.labels) > 0
                 /\ \A i \in 2 .. Len(f.labels) :
                      LET e == f.labels[i] IN
                      CASE e[1] = "s" -> e[2] \in 0 .. Len(f.sources) - 1
                        [] e[1] = "r" -> e[2] > 0 /\ e[2] < e[3] /\ e[3] < i - 1
                        [] e[1] = "u" -> e[3] > 0 /\ e[3] < e[2] /\ e[2] < i - 1
                        [] OTHER -> FALSE
Labs(e) == SubSeq(e.v, 5, Len(e.v))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
IdxOf(f, name) == {i \in 1 .. Len(f.sources) : f.sources[i][1] = name}
SinksOf(f, name) == LET I == IdxOf(f, name) IN SelectSeq(f.sinks, LAMBDA s : s[1] + 1 \in I)

Reads(t) ==
  LET f == t.fin
      rd == All(t, {"rd"})  op == All(t, {"op"})
      both == rd \o op
      n == Len(both)
      tot == FoldLeft(LAMBDA a, e : a + Len(Labs(e)), 0, both)
      ls == UNION {Ran(Labs(both[i])) : i \in 1 .. n}
      src == {l \in 1 .. Len(f.labels) - 1 : E(f, l)[1] = "s"}
      strm == SelectSeq(rd, LAMBDA e : e.v[1] = 1)
      offs == UNION {{E(f, l)[3] : l \in Ran(Labs(strm[i]))} : i \in 1 .. Len(strm)}
  IN F("a read labels its bytes with labels outside of the table", ls \subseteq 1 .. Len(f.labels) - 1)
     \cup (IF ~(ls \subseteq 1 .. Len(f.labels) - 1) THEN {} ELSE
       F("a label was handed out twice", Cardinality(ls) = tot)
       \cup F("every input label belongs to a read", ls = src)
       \cup F("a read returned less than there is", \A i \in 1 .. Len(rd) : rd[i].v[3] = Len(Labs(rd[i])) /\ rd[i].v[3] > 0 /\ rd[i].v[4] = 0)
       \cup F("labels of one read are not consecutive", \A i \in 1 .. n : \A j \in 2 .. Len(Labs(both[i])) : Labs(both[i])[j] = Labs(both[i])[1] + j - 1)
       \cup F("a read byte is attributed to the wrong place", \A i \in 1 .. Len(rd) : LET e == rd[i] IN
            \A j \in 1 .. Len(Labs(e)) : LET x == E(f, Labs(e)[j]) IN
              /\ x[1] = "s" /\ f.sources[x[2] + 1][1] = (IF e.v[1] = 0 THEN "in" ELSE "p")
              /\ x[3] = (IF e.v[1] = 0 THEN e.v[2] + j - 1 ELSE E(f, Labs(e)[1])[3] + j - 1))
       \cup F("positions of a shared stream", offs = 0 .. FoldLeft(LAMBDA a, e : a + Len(Labs(e)), 0, strm) - 1)
       \cup F("a file opened by a thread", \A i \in 1 .. Len(op) : LET e == op[i]  ix == IdxOf(f, e.name) IN
              /\ Cardinality(ix) = 1 /\ e.v[4] = 2
              /\ \A x \in ix : f.sources[x] = <<e.name, e.v[2], 2 + e.t>>
              /\ \A j \in 1 .. 2 : Len(Labs(e)) = 2 /\ LET y == E(f, Labs(e)[j]) IN y[1] = "s" /\ y[2] + 1 \in ix /\ y[3] = j - 1)
       \cup F("sources nobody opened", Len(f.sources) = 6 + Len(op))
       \cup F("bytes of an untracked descriptor", \A e \in Ran(All(t, {"zr"})) : e.v = <<2, 0, 0, 0>>)
       \cup F("the index of input labels", Ran(f.bits) = src))
Unions(t) ==
  LET f == t.fin
      un == All(t, {"un"})
      R == {un[i].v[3] : i \in 1 .. Len(un)}
  IN F("a combination does not denote the union of its parts",
       \A i \in 1 .. Len(un) : /\ Known(f, un[i].v[3])
                               /\ Den(f, un[i].v[3]) = Den(f, un[i].v[1]) \cup Den(f, un[i].v[2]))
     \cup F("a label that no operation made", \A l \in 1 .. Len(f.labels) - 1 : E(f, l)[1] # "s" => l \in R)
Branches(t) ==
  LET f == t.fin
      br == All(t, {"br"})
      B == {br[i].v[1] : i \in 1 .. Len(br)}
  IN F("marks of branch conditions", {l \in 1 .. Len(f.labels) - 1 : E(f, l)[4] = 1} = UNION {Down(f, l) : l \in B})
Logs(t) ==
  LET f == t.fin
      N == Len(t.th)
      cf(i) == SelectSeq(f.cflog, LAMBDA c : c[2] \div 400000 = i - 1)
      fn == All(t, {"fn"})
      fx == All(t, {"fx"})
      name(x) == IF x + 1 \in 1 .. Len(f.functions) THEN f.functions[x + 1] ELSE "?"
      used == {fn[i].v[1] : i \in 1 .. Len(fn)}
      own(i) == LET O == {t.th[i][k].v[1] : k \in {k \in 1 .. Len(t.th[i]) : t.th[i][k].op = "fn" /\ t.th[i][k].own = 1}} IN
                <<SelectSeq(f.events, LAMBDA e : e[2] \in O), SelectSeq(Of(t.th[i], {"fn", "fx"}), LAMBDA e : e.v[1] \in O)>>
      cnt(q, x) == Len(SelectSeq(q, LAMBDA e : e.v[1] = x))
      shared == {fn[i].v[1] : i \in {k \in 1 .. Len(fn) : fn[k].own = 0}}
  IN F("control-flow records of a thread",
       \A i \in 1 .. N : LET c == cf(i)  w == Of(t.th[i], {"cf"}) IN
         Len(c) = Len(w) /\ \A k \in 1 .. Len(w) : c[k] = <<w[k].v[1], w[k].v[2], w[k].v[3]>>)
     \cup F("number of control-flow records", Len(f.cflog) = Len(All(t, {"cf"})))
     \cup F("the name of a function", \A i \in 1 .. Len(fn) : name(fn[i].v[1]) = fn[i].name)
     \cup F("one number per function name", Len(f.functions) = Cardinality({fn[i].name : i \in 1 .. Len(fn)})
              /\ Cardinality(Ran(f.functions)) = Len(f.functions))
     \cup F("number of function events", Len(f.events) = Len(fn) + Len(fx))
     \cup F("function events of a thread", \A i \in 1 .. N : LET o == own(i) IN
              Len(o[1]) = Len(o[2]) /\ \A k \in 1 .. Len(o[1]) : o[1][k] = <<IF o[2][k].op = "fn" THEN 0 ELSE 1, o[2][k].v[1]>>)
     \cup F("function events of a shared function", \A x \in shared :
              /\ Len(SelectSeq(f.events, LAMBDA e : e = <<0, x>>)) = cnt(fn, x)
              /\ Len(SelectSeq(f.events, LAMBDA e : e = <<1, x>>)) = cnt(fx, x))
Outputs(t) ==
  LET f == t.fin
      N == Len(t.th)
      own(i) == SinksOf(f, "o" \o ToString(i - 1))
      flat(q) == FoldLeft(LAMBDA a, e : a \o <<e.v[2], e.v[3]>>, <<>>, q)
      ok(i) == LET s == own(i)  w == flat(Of(t.th[i], {"wr"})) IN
               s = [k \in 1 .. Len(w) |-> <<IF s = <<>> THEN 0 ELSE s[1][1], k - 1, w[k]>>]
      sw == All(t, {"sw"})
      q == SinksOf(f, "q")
      at(k) == {i \in 1 .. Len(q) : q[i][2] = k}
      (* the pipe: position k holds exactly one record; records 2j, 2j+1 are one write *)
      pairs == {<<q[i][3], q[j][3]>> : <<i, j>> \in {<<i, j>> \in UNION {at(2 * k) \X at(2 * k + 1) : k \in 0 .. Len(sw) - 1} : TRUE}}
  IN F("output records of a thread's file", \A i \in 1 .. N - 1 : ok(i))
     \cup F("a write was cut short", \A e \in Ran(All(t, {"wr", "sw"})) : e.v[1] = 2)
     \cup F("output records of a shared pipe",
            /\ Len(q) = 2 * Len(sw)
            /\ \A k \in 0 .. 2 * Len(sw) - 1 : Cardinality(at(k)) = 1
            /\ pairs = {<<sw[i].v[2], sw[i].v[3]>> : i \in 1 .. Len(sw)})
     \cup F("records of outputs nobody wrote", Len(f.sinks) = 2 * Len(All(t, {"wr", "sw"})))
Check(t) == IF t.error # "" THEN {<<"C15", t.error>>}
            ELSE LET a == F("malformed label table", WellFormed(t.fin)) IN
                 IF a # {} THEN a ELSE Reads(t) \cup Unions(t) \cup Branches(t) \cup Logs(t) \cup Outputs(t)
VARIABLES tid, done, bad
TInit == tid \in 1 .. Len(Tr) /\ done = FALSE /\ bad = {}
TNext == ~done /\ done' = TRUE /\ UNCHANGED tid /\ bad' = Check(Tr[tid])
TSpec == TInit /\ [][TNext]_<<tid, done, bad>>
Report == bad = {} \/ PrintT(<<"@REJECT", Tr[tid].name, 1, bad>>)
View == <<tid, done, bad>>
===============================================================================
