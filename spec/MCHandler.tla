----------------------------- MODULE MCHandler -----------------------------
(* All histories of handler operations up to a length; each one is written  *)
(* out to be executed by the real code.                                     *)
EXTENDS Handler, Json, CSV, IOUtils, TLC
CONSTANT MaxLen

\* name of an operation of the harness and the errors that it raises
Sources == << [n |-> "ok", k |-> 0], [n |-> "raise:runtime_error", k |-> 1], [n |-> "raise:Silent", k |-> 1],
              [n |-> "lib:operands", k |-> 2] >>
Errors(k) == [j \in 1..k |-> [t |-> "e" \o ToString(j), m |-> ""]]

Ops == [op : {"set"}, h : Handlers] \cup {[op |-> "get"]}
       \cup {[op |-> "run", n |-> Sources[j].n, errors |-> Errors(Sources[j].k)] : j \in 1..Len(Sources)}

VARIABLES h, hist, last
Init == h = "none" /\ hist = <<>> /\ last = [calls |-> <<>>, out |-> NoError, before |-> "none", op |-> [op |-> "get"]]
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops :
             LET r == Apply(h, op)
             IN  /\ h' = r.s
                 /\ hist' = Append(hist, op)
                 /\ last' = [calls |-> r.calls, out |-> r.out, before |-> h, op |-> op]

TypeOK == h \in Handlers
(* The error that reaches the caller has been seen exactly once by the handler *)
SeenOnce == LET own == SelectSeq(last.calls, LAMBDA c : c.t = last.out.t /\ c.m = last.out.m)
            IN  (last.out.t # "" /\ last.before \notin {"none", "throw"}) => Len(own) = 1 /\ last.calls[Len(last.calls)].h = last.before
SilentWithout == last.before = "none" => last.calls = <<>>
Transparent == (last.op.op = "run" /\ last.before # "throw")
                 => last.out = (IF last.op.errors = <<>> THEN NoError ELSE last.op.errors[Len(last.op.errors)])
LastWins == \A j \in 1..Len(hist) : (hist[j].op = "set" /\ \A k \in j+1..Len(hist) : hist[k].op # "set") => h = hist[j].h

Emit == (Len(hist) = MaxLen /\ "VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.VT_EMIT)
============================================================================
