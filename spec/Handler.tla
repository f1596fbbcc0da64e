------------------------------ MODULE Handler ------------------------------
(* The process-wide throw handler.                                          *)
(* State: the handler that was installed last. A handler is one of          *)
(*   "none"            no handler                                           *)
(*   "rec1", "rec2"    records the call and returns                         *)
(*   "throw"           records the call and throws its own exception        *)
(*   "nest"            records the call; when called for the first time     *)
(*                     within an operation it raises (and catches) another  *)
(*                     error by itself                                      *)
(* An operation is "set", "get" or "run". A run carries the errors that it  *)
(* raises: the inner ones are caught inside of the library, the last one    *)
(* reaches the caller unless the handler replaces it.                       *)
EXTENDS Integers, Sequences, SequencesExt

(* Messages are hexadecimal, so that any byte can be written down *)
Handlers == {"none", "rec1", "rec2", "throw", "nest"}

Foreign == [t |-> "HandlerError", m |-> "7468726f776e206279207468652068616e646c6572"]   \* what "throw" throws
Nested  == [t |-> "logic_error", m |-> "726169736564206279207468652068616e646c6572"]     \* what "nest" raises
NoError == [t |-> "", m |-> ""]

Call(h, e) == [h |-> h, t |-> e.t, m |-> e.m, before |-> TRUE]

(* Raising the errors es one after the other, each but the last one caught  *)
(* by the library if it comes out unchanged.                                *)
RECURSIVE Raise(_, _, _, _)
Raise(h, es, calls, nested) ==
  IF es = <<>> THEN [calls |-> calls, out |-> NoError]
  ELSE LET e == Head(es)
           last == Len(es) = 1
           c1 == IF h = "none" THEN calls ELSE Append(calls, Call(h, e))
           c2 == IF h = "nest" /\ ~nested THEN Append(c1, Call(h, Nested)) ELSE c1
       IN  IF h = "throw" THEN [calls |-> c2, out |-> Foreign]    \* the error of the handler replaces it
           ELSE IF last THEN [calls |-> c2, out |-> e]
           ELSE Raise(h, Tail(es), c2, nested \/ h = "nest")

(* The outcome of one operation: state after it and what can be observed *)
Apply(h, op) ==
  CASE op.op = "set" -> [s |-> op.h, calls |-> <<>>, out |-> NoError, got |-> FALSE]
    [] op.op = "get" -> [s |-> h, calls |-> <<>>, out |-> NoError, got |-> h # "none"]
    [] op.op = "run" -> LET r == Raise(h, op.errors, <<>>, FALSE)
                        IN  [s |-> h, calls |-> r.calls, out |-> r.out, got |-> FALSE]
============================================================================
