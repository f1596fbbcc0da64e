---------------------------- MODULE HandlerTrace ----------------------------
(* Validates recorded histories of the real throw handler.                  *)
EXTENDS Handler, Json, IOUtils, TLC
VARIABLES ci, pos, h, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
vars == <<ci, pos, h, bad>>

(* A recorded step: [op, calls, out, got]. "lib" runs say how many errors   *)
(* of which type they raise; the messages are the library's own business    *)
(* except that handler and caller have to see the same one.                 *)
SameError(s, o) == o.t = s.t /\ (IF s.m = "*" THEN TRUE ELSE o.m = s.m)

Ok(r, st) ==
  /\ Len(r.calls) = Len(st.calls)
  /\ \A k \in 1..Len(r.calls) : /\ st.calls[k].h = r.calls[k].h
                                /\ st.calls[k].before
                                /\ SameError(r.calls[k], st.calls[k])
  /\ SameError(r.out, st.out)
  \* the message that the caller sees is the one the handler has been given
  /\ (st.op.op = "run" /\ h \in {"rec1", "rec2"} /\ st.calls # <<>>)
        => st.calls[Len(st.calls)].m = st.out.m /\ st.calls[Len(st.calls)].t = st.out.t
  /\ st.op.op = "get" => st.got = r.got

TInit == ci \in 1..Len(Cases) /\ pos = 1 /\ h = "none" /\ bad = FALSE
TNext == /\ pos <= Len(Cases[ci].steps)
         /\ LET st == Cases[ci].steps[pos]
                r == Apply(h, st.op)
            IN  h' = r.s /\ bad' = ~Ok(r, st)
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == ~bad /\ Cases[ci].r = "ok"
============================================================================
