------------------------------- MODULE Debug --------------------------------
(* What a debug hook is told during the evaluation of an expression.        *)
(*                                                                          *)
(* The machine has a stack of the evaluations that have begun and have not  *)
(* ended. An expression passes each of its values on before it ends, so     *)
(* that evaluations of other operands begin in between: an operand          *)
(* may begin while any evaluation of its parent is open, and what began     *)
(* last ends first.                                                         *)
(*                                                                          *)
(* Expressions are numbered: nodes[n] = [s |-> text, up |-> number of the   *)
(* parent (0: none), same |-> is it evaluated on the same value as its      *)
(* parent?, must |-> is it evaluated whenever the root is?]                 *)
(* Events: [k |-> "b", s, v, ph] begin of text s on value v in phase ph,     *)
(* "e" end of text s, "v" a value reaches the caller, "p" the function probe *)
(* is entered, "x" error, "m" further events that have not been recorded.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Start == [st |-> "run", stack |-> <<>>, roots |-> 0, seen |-> {}]
Wrong(m) == [m EXCEPT !.st = "bad"]

(* the expressions that may begin now with text s on value v; isRoot: v is the value given to the caller's evaluation *)
Beginning(m, nodes, s, v, isRoot) ==
  IF m.stack = <<>> THEN {n \in {1} : nodes[1].s = s /\ m.roots = 0 /\ isRoot}
  ELSE {n \in 2..Len(nodes) : /\ nodes[n].s = s
                              /\ \E j \in 1..Len(m.stack) : nodes[n].up \in m.stack[j].ns /\ (nodes[n].same => m.stack[j].v = v)}

BeginD(m, nodes, ev, isRoot) ==
  LET ns == Beginning(m, nodes, ev.s, ev.v, isRoot)
  IN  IF ns = {} \/ ev.ph # "e" THEN Wrong(m)
      ELSE [m EXCEPT !.stack = Append(@, [ns |-> ns, s |-> ev.s, v |-> ev.v]), !.roots = IF m.stack = <<>> THEN @ + 1 ELSE @, !.seen = @ \cup {ev.s}]
EndD(m, ev) == IF m.stack = <<>> THEN Wrong(m)
               ELSE IF m.stack[Len(m.stack)].s # ev.s THEN Wrong(m)
               ELSE [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
(* isProbe(s): is s the text of a call of probe? *)
StepD(m, nodes, ev, isRoot, isProbe(_)) ==
  IF m.st = "bad" THEN m
  ELSE IF m.st # "run" THEN Wrong(m)
  ELSE CASE ev.k = "b" -> BeginD(m, nodes, ev, isRoot)
         [] ev.k = "e" -> EndD(m, ev)
         [] ev.k = "v" -> IF m.stack = <<>> THEN Wrong(m) ELSE m
         [] ev.k = "p" -> IF m.stack = <<>> THEN Wrong(m) ELSE IF isProbe(m.stack[Len(m.stack)].s) THEN m ELSE Wrong(m)
         [] ev.k = "x" -> [m EXCEPT !.st = "error"]
         [] OTHER -> [m EXCEPT !.st = "more"]
(* The evaluation is over; all: the caller has taken every value *)
Complete(m, nodes, all) ==
  \/ m.st \in {"error", "more"}
  \/ /\ m.st = "run" /\ m.stack = <<>> /\ m.roots = 1
     /\ all => \A n \in 1..Len(nodes) : nodes[n].must => nodes[n].s \in m.seen

(* During compilation, parts are evaluated for themselves *)
StepC(m, ev) ==
  IF m.st = "bad" THEN m
  ELSE IF m.st # "run" THEN Wrong(m)
  ELSE CASE ev.k = "b" -> IF ev.ph # "c" THEN Wrong(m) ELSE [m EXCEPT !.stack = Append(@, [ns |-> {}, s |-> ev.s, v |-> ev.v])]
         [] ev.k = "e" -> EndD(m, ev)
         [] ev.k = "m" -> [m EXCEPT !.st = "more"]
         [] OTHER -> Wrong(m)
CompleteC(m) == m.st = "more" \/ (m.st = "run" /\ m.stack = <<>>)
=============================================================================
