------------------------------- MODULE MCDebug ------------------------------
(* A callback-style evaluator of small expressions, with callers that stop  *)
(* after any number of values, tells the hook what Debug.tla allows; and    *)
(* the machine refutes evaluators that leave out ends, report ends early,   *)
(* skip operands or name the wrong expression.                              *)
EXTENDS Debug, TLC, FiniteSetsExt
CONSTANT Deep

(* leaf(n): yields n values; two(l, r): evaluates r for every value of l, on the same value ("bin") or on that value ("path") *)
Leaf(n) == [k |-> "leaf", n |-> n, s |-> <<n>>]
Two(k, l, r) == [k |-> k, l |-> l, r |-> r, s |-> <<IF k = "bin" THEN 10 ELSE 20>> \o l.s \o r.s \o <<99>>]
T0 == {Leaf(n) : n \in 1..2}
T1 == T0 \cup {Two(k, l, r) : k \in {"bin", "path"}, l \in T0, r \in T0}
T2 == T1 \cup {Two(k, l, r) : k \in {"bin", "path"}, l \in T1, r \in IF Deep THEN T1 ELSE T0}

RECURSIVE Number(_, _, _, _), Events(_, _)
Number(acc, e, up, same) ==
  LET me == Len(acc) + 1
      a == Append(acc, [s |-> e.s, up |-> up, same |-> same, must |-> TRUE])
  IN  IF e.k = "leaf" THEN a ELSE Number(Number(a, e.l, me, TRUE), e.r, me, e.k = "bin")
Nodes(e) == Number(<<>>, e, 0, TRUE)

Ev(k, s, v) == [k |-> k, s |-> s, v |-> v, ph |-> "e"]
(* the values are numbers that tell apart what they were made from *)
Events(e, v) ==
  LET sub == IF e.k = "leaf" THEN [j \in 1..e.n |-> Ev("v", <<>>, 10 * v + j)]
             ELSE FoldLeft(LAMBDA acc, ev : IF ev.k # "v" THEN Append(acc, ev) ELSE acc \o Events(e.r, IF e.k = "bin" THEN v ELSE ev.v), <<>>, Events(e.l, v))
  IN  <<Ev("b", e.s, v)>> \o sub \o <<Ev("e", e.s, 0)>>
(* the caller stops at its max-th value: only the evaluations that are open end *)
CutAt(evs, i) ==
  LET open == FoldLeft(LAMBDA st, ev : CASE ev.k = "b" -> Append(st, ev.s) [] ev.k = "e" -> SubSeq(st, 1, Len(st) - 1) [] OTHER -> st, <<>>, SubSeq(evs, 1, i))
  IN  SubSeq(evs, 1, i) \o [j \in 1..Len(open) |-> Ev("e", open[Len(open) + 1 - j], 0)]
Stopped(evs, max) ==
  LET at == {i \in 1..Len(evs) : evs[i].k = "v" /\ Len(SelectSeq(SubSeq(evs, 1, i), LAMBDA ev : ev.k = "v")) = max}
  IN  IF at = {} THEN evs ELSE CutAt(evs, CHOOSE i \in at : TRUE)

NoProbe(s) == FALSE
Accepts(e, evs, all) == Complete(FoldLeft(LAMBDA m, ev : StepD(m, Nodes(e), ev, ev.v = 1, NoProbe), Start, evs), Nodes(e), all)

Drop(evs, i) == SubSeq(evs, 1, i - 1) \o SubSeq(evs, i + 1, Len(evs))
Swapped(evs, i) == [evs EXCEPT ![i] = evs[i + 1], ![i + 1] = evs[i]]
(* a hook that is not told of an operand at all *)
Without(evs, s) == SelectSeq(evs, LAMBDA ev : ev.k = "v" \/ ev.s # s)

VARIABLES tree, max, done
vars == <<tree, max, done>>
Init == tree \in T2 /\ max \in 0..3 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<tree, max>>
Evs == Stopped(Events(tree, 1), max)
Allowed == done => Accepts(tree, Evs, max = 0)
Refuted == done =>
  /\ \A i \in 1..Len(Evs) : Evs[i].k # "v" => ~Accepts(tree, Drop(Evs, i), max = 0)
  /\ \A i \in 1..Len(Evs) - 1 : (Evs[i].k = "e" /\ Evs[i + 1].k = "e" /\ Evs[i].s # Evs[i + 1].s) => ~Accepts(tree, Swapped(Evs, i), max = 0)
  /\ \A i \in 1..Len(Evs) : Evs[i].k = "e" => ~Accepts(tree, [Evs EXCEPT ![i].s = <<0>>], max = 0)
  /\ \A i \in 1..Len(Evs) : (Evs[i].k = "b" /\ i = 1) => ~Accepts(tree, [Evs EXCEPT ![i].v = 7], max = 0)
  /\ max = 0 => \A n \in 1..Len(Nodes(tree)) : ~Accepts(tree, Without(Evs, Nodes(tree)[n].s), TRUE)
=============================================================================
