--------------------------- MODULE TransientTrace --------------------------
(* Validates recorded histories of variables that own objects.              *)
EXTENDS Transient, Json, IOUtils
VARIABLES ci, pos, w, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
vars == <<ci, pos, w, bad>>

Step(ss, o) ==
  CASE o.op.op = "end"  -> [w |-> ss, ok |-> o.alive = 0 /\ o.errors = 0]
    [] o.op.op = "expr" -> [w |-> ss, ok |-> o.alive = 0 /\ o.errors = 0 /\ \A k \in 1..Len(o.runs) : o.runs[k] = Results(o.e)]
    [] OTHER -> LET f == o.see[o.op.s]
                    s2 == Apply(ss, o.op, IF f \in Failures(ss, o.op) THEN f ELSE Empty)
                IN  [w |-> s2, ok |-> /\ Enabled(ss, o.op)
                                      /\ o.see = s2
                                      /\ o.alive = Alive(s2)
                                      /\ o.errors = 0
                                      /\ o.threw = (o.op.op \in {"xcopy", "xacopy"})]
TInit == ci \in 1..Len(Cases) /\ pos = 1 /\ w = [s \in Slots |-> Gone] /\ bad = FALSE
TNext == /\ pos <= Len(Cases[ci].steps)
         /\ LET r == Step(w, Cases[ci].steps[pos]) IN w' = r.w /\ bad' = ~r.ok
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == ~bad /\ Cases[ci].r = "ok"
============================================================================
