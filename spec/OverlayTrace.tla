---------------------------- MODULE OverlayTrace ---------------------------
(* Validates what overlays and procedural objects were seen to show.        *)
EXTENDS Overlay, Json, IOUtils
VARIABLES ci, pos, w, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
vars == <<ci, pos, w, bad>>
Step(c, o) ==
  LET op == o.op
  IN  CASE op.op = "look" -> o.view = View(w, Follow(w, Ov(w.hs[op.h]), op.path), c.keys)
        [] op.op = "node" -> o.view = View(w, Follow(w, Doc(op.n), op.path), c.keys)
        [] op.op = "json" -> Unique(w, Doc(op.n)) => o.text = Text(w, Doc(op.n), c.keys)
        [] op.op = "eval" -> LET r == Query(w, IF op.h = 0 THEN Doc(op.n) ELSE Ov(w.hs[op.h]), op.steps)
                             IN  /\ o.r = "ok"
                                 /\ IF op.fn = "keys" THEN o.keys = QueryKeys(w, r)
                                    ELSE o.got = [i \in 1..Len(r) |-> Brief(w, r[i])]
        [] OTHER -> TRUE
TInit == /\ ci \in 1..Len(Cases) /\ pos = 1 /\ bad = FALSE
         /\ w = [doc |-> Cases[ci].doc, ov |-> <<>>, hs |-> <<>>]
TNext == /\ pos <= Len(Cases[ci].steps)
         /\ LET o == Cases[ci].steps[pos] IN IF Enabled(w, o.op) THEN w' = Apply(w, o.op) /\ bad' = ~Step(Cases[ci], o) ELSE w' = w /\ bad' = TRUE
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == ~bad /\ Cases[ci].r = "ok"
============================================================================
