------------------------------ MODULE OwnTrace ------------------------------
(* Validates recorded histories of handles, results and what stays alive.   *)
EXTENDS EvalSame, Own, Json, IOUtils
VARIABLES ci, pos, w, verdict
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
Docs == ndJsonDeserialize(IOEnv.VT_DOCS)

\* w: [s, texts: what root, vals and copy read like]
Begin == [s |-> Start, tx |-> [h \in {"root", "vals", "copy"} |-> ""]]
Alives(s, o) == o.model = ModelAlive(s) /\ o.pool = PoolAlive(s)
Step(c, x, o) ==
  LET ok == o.ok
      s2 == Apply(x.s, o.op, ok, o.vn, o.tn)
      tx2 == CASE o.op.op = "start" -> [x.tx EXCEPT !["root"] = o.tx]
               [] o.op.op = "eval" /\ ok -> [x.tx EXCEPT !["vals"] = o.tx]
               [] o.op.op \in {"copy", "move"} -> [x.tx EXCEPT !["copy"] = x.tx["vals"]]
               [] OTHER -> x.tx
      cc == Compile(c.src, FALSE, FALSE, Consts, [ph |-> "e", doc |-> Docs[c.d]])
      run == Run(cc.a, 0, [ph |-> "e", doc |-> Docs[c.d]])
      open == cc.st = "unspec" \/ (cc.st = "ok" /\ run # <<>> /\ run[Len(run)].k = "u")
      same == CASE o.op.op = "compile" -> ok = (cc.st = "ok") \/ cc.st = "unspec"
                [] o.op.op = "eval" -> open \/ (ok = ~Errored(run) /\ ((ok /\ \E j \in 1..Len(o.vs) : o.vs[j].n = -1 \/ o.vs[j].n > 0) => o.vn) /\ (ok => SameVs([j \in 1..Len(SelectSeq(run, LAMBDA it : it.k = "v")) |-> SelectSeq(run, LAMBDA it : it.k = "v")[j].v], o.vs)))
                [] o.op.op = "read" -> o.tx = x.tx[o.op.h]
                [] OTHER -> TRUE
  IN  IF o.op.op = "start" THEN [w |-> [x EXCEPT !.tx = tx2], v |-> IF Alives(x.s, o) THEN "ok" ELSE "bad"]
      ELSE [w |-> [s |-> s2, tx |-> tx2],
            v |-> IF Enabled(x.s, o.op) /\ same /\ Alives(s2, o) THEN "ok" ELSE "bad"]
TInit == ci \in 1..Len(Cases) /\ pos = 1 /\ w = Begin /\ verdict = IF Cases[ci].r = "ok" THEN "ok" ELSE "bad"
TNext == /\ verdict = "ok"
         /\ pos <= Len(Cases[ci].steps)
         /\ LET r == Step(Cases[ci], w, Cases[ci].steps[pos]) IN w' = r.w /\ verdict' = r.v
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == verdict # "bad"
=============================================================================
