------------------------------- MODULE MCOwn --------------------------------
(* Reference counts as the implementation keeps them refine Own; values are *)
(* nodes (with a reference to the model, text inside of it), own texts, or  *)
(* names. If names are only looked at where the pool stores them, they are  *)
(* read after their release (KeyViews).                                     *)
EXTENDS Own, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS MaxLen, KeyViews
VARIABLES s, hist, rc, vals, copy, traced, bad
vars == <<s, hist, rc, vals, copy, traced, bad>>
\* the user's handles of model and pool, the environment's and the model's of the pool
Init == s = Start /\ hist = <<>> /\ rc = [model |-> 2, pool |-> 3] /\ vals = {} /\ copy = {} /\ traced = FALSE /\ bad = FALSE

M(n) == [model |-> n, pool |-> 0]
P(n) == [model |-> 0, pool |-> n]
Plus(r, d) == [model |-> r.model + d.model, pool |-> r.pool + d.pool]
\* a model that is released releases its pool
Minus(r, d) == LET n == [model |-> r.model - d.model, pool |-> r.pool - d.pool]
               IN  IF r.model > 0 /\ n.model = 0 /\ ~s.swapped THEN [n EXCEPT !.pool = @ - 1] ELSE n
Refs(vs) == IF "node" \in vs THEN M(1) ELSE M(0)
T(b) == IF b THEN M(1) ELSE M(0)
Dangles(vs) == ("node" \in vs /\ rc.model = 0) \/ ("key" \in vs /\ KeyViews /\ rc.pool = 0)

Do(op, vs, tn) ==
  CASE op.op = "eval" -> /\ vals' = vs /\ traced' = tn /\ UNCHANGED copy
                         /\ rc' = Minus(Plus(rc, Plus(Refs(vs), T(tn))), Plus(Refs(vals), T(traced)))
    [] op.op = "copy" -> copy' = vals /\ rc' = Minus(Plus(rc, Refs(vals)), Refs(copy)) /\ UNCHANGED <<vals, traced>>
    [] op.op = "move" -> copy' = vals /\ vals' = {} /\ rc' = Minus(rc, Refs(copy)) /\ UNCHANGED traced
    [] op.op = "reroot" -> (rc' = IF "root" \in s.held THEN rc ELSE Plus(rc, M(1))) /\ UNCHANGED <<vals, copy, traced>>
    [] op.op = "swap" -> rc' = Minus(rc, P(1)) /\ UNCHANGED <<vals, copy, traced>>
    [] op.op = "drop" -> /\ rc' = Minus(rc, CASE op.h \in {"model", "root"} -> M(1)
                                              [] op.h = "pool" -> P(1)
                                              [] op.h = "env" -> Plus(P(1), T(traced))
                                              [] op.h = "vals" -> Refs(vals)
                                              [] op.h = "copy" -> Refs(copy)
                                              [] OTHER -> M(0))
                         /\ vals' = (IF op.h = "vals" THEN {} ELSE vals)
                         /\ copy' = (IF op.h = "copy" THEN {} ELSE copy)
                         /\ traced' = (traced /\ op.h # "env")
    [] OTHER -> UNCHANGED <<rc, vals, copy, traced>>
Next == /\ Len(hist) < MaxLen /\ ~bad
        /\ \E op \in {o \in Ops : Enabled(s, o)} :
           \E vs \in (IF op.op = "eval" THEN SUBSET {"node", "own", "key"} ELSE {{}}) : \E tn \in (IF op.op = "eval" THEN BOOLEAN ELSE {FALSE}) :
             /\ s' = Apply(s, op, TRUE, "node" \in vs, tn)
             /\ Do(op, vs, tn)
             /\ hist' = Append(hist, op)
             /\ bad' = (op.op = "read" /\ Dangles(CASE op.h = "vals" -> vals [] op.h = "copy" -> copy [] OTHER -> {"node"}))
Spec == Init /\ [][Next]_vars
Refines == (rc.model > 0) = ModelAlive(s) /\ (rc.pool > 0) = PoolAlive(s) /\ rc.model >= 0 /\ rc.pool >= 0
Readable == ~bad
NothingLeft == s.held = {} => rc.model = 0 /\ rc.pool = 0
View == <<s, rc, vals, copy, traced, bad, IF "VT_EMIT" \in DOMAIN IOEnv THEN hist ELSE Len(hist)>>
Useful == \E j \in 1..Len(hist) : hist[j].op = "eval"
Emit == (Len(hist) = MaxLen /\ "VT_EMIT" \in DOMAIN IOEnv /\ Useful) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.VT_EMIT)
=============================================================================
