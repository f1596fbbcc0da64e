------------------------------- MODULE Arena -------------------------------
(* The arrays of an array arena: independent growable sequences.            *)
(* State: [arrs: Seq(Seq(Int)), refs: Seq(<<a, i>>)] where refs are the     *)
(* elements to which a reference was handed out by an append operation and  *)
(* which is still valid (nothing but clear and shrink may invalidate one).  *)
EXTENDS Integers, Sequences, SequencesExt

Empty == [arrs |-> <<>>, refs |-> <<>>]
OkV(v) == [t |-> "ok", v |-> v]
Fail == [t |-> "out_of_range", v |-> <<>>]

Put(s, a, v) == [s EXCEPT !.arrs[a] = Append(@, v)]

(* Outcome of one operation: the state after it, the result *)
Apply(s, op) ==
  CASE op.op = "new"  -> [s |-> [s EXCEPT !.arrs = Append(@, <<>>)], out |-> OkV(<<Len(s.arrs)>>)]
    [] op.op \in {"push", "emplace"} ->
         LET t == Put(s, op.a + 1, op.v)
         IN  [s |-> [t EXCEPT !.refs = Append(@, <<op.a + 1, Len(t.arrs[op.a + 1])>>)], out |-> OkV(<<op.v>>)]
    [] op.op = "fill" -> [s |-> [s EXCEPT !.arrs[op.a + 1] = @ \o [j \in 1..op.n |-> op.v + j - 1]], out |-> OkV(<<>>)]
    [] op.op \in {"at", "cat"} ->
         [s |-> s, out |-> IF op.i < Len(s.arrs[op.a + 1]) THEN OkV(<<s.arrs[op.a + 1][op.i + 1]>>) ELSE Fail]
    [] op.op = "set" -> IF op.i < Len(s.arrs[op.a + 1]) THEN [s |-> [s EXCEPT !.arrs[op.a + 1][op.i + 1] = op.v], out |-> OkV(<<>>)]
                        ELSE [s |-> s, out |-> Fail]
    [] op.op = "size"  -> [s |-> s, out |-> OkV(<<Len(s.arrs[op.a + 1])>>)]
    [] op.op = "count" -> [s |-> s, out |-> OkV(<<Len(s.arrs)>>)]
    [] op.op = "iter"  -> LET xs == s.arrs[op.a + 1]     \* the callback returns false at its stop-th call
                          IN  [s |-> s, out |-> OkV(IF op.stop >= Len(xs) THEN xs ELSE SubSeq(xs, 1, op.stop))]
    [] op.op = "refs"  -> [s |-> s, out |-> OkV([j \in 1..Len(s.refs) |-> s.arrs[s.refs[j][1]][s.refs[j][2]]])]
    [] op.op = "clear" -> [s |-> Empty, out |-> OkV(<<>>)]
    [] op.op = "shrink" -> [s |-> [s EXCEPT !.refs = <<>>], out |-> OkV(<<>>)]
    [] op.op = "dump"  -> [s |-> s, out |-> OkV(<<>>)]

(* Everything that can be read from the arena, in each of its forms *)
DumpOk(s, d) ==
  /\ d.count = Len(s.arrs)
  /\ Len(d.arrays) = Len(s.arrs)
  /\ \A a \in 1..Len(s.arrs) :
       LET xs == s.arrs[a]   x == d.arrays[a]
       IN  /\ x.size = Len(xs)
           /\ x.at = xs /\ x.cat = xs /\ x.it = xs /\ x.itb = xs /\ x.be = xs /\ x.rg = xs /\ x.rx = xs
           /\ x.itx = [j \in 1..Len(xs) |-> <<j - 1, xs[j]>>]
  /\ d.all = s.arrs
============================================================================
