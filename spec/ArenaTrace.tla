----------------------------- MODULE ArenaTrace -----------------------------
(* Validates recorded histories of a real array arena.                      *)
EXTENDS Arena, Json, IOUtils, TLC
VARIABLES ci, pos, s, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)

TInit == ci \in 1..Len(Cases) /\ pos = 1 /\ s = Empty /\ bad = FALSE
TNext == /\ pos <= Len(Cases[ci].steps)
         /\ LET st == Cases[ci].steps[pos]
                r == Apply(s, st.op)
            IN  /\ s' = r.s
                /\ bad' = ~ (/\ st.out.t = r.out.t
                             /\ st.out.v = r.out.v
                             /\ (st.op.op = "dump" => DumpOk(s, st.out.dump)))
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == ~bad /\ Cases[ci].r = "ok"
============================================================================
