------------------------------ MODULE NamesLin ------------------------------
(* Concurrent operations on string pools: what the threads have seen has to *)
(* be explained by some order of the operations that respects real time     *)
(* (before: the operations that had returned when this one was called).     *)
EXTENDS Names, Json, IOUtils, TLC
VARIABLES ci, stage, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
Pools == 1..4

Snapshot(p, off) == {<<e.id, e.s>> : e \in {x \in ToSet(p.tab) : x.id >= off}}
Pairs(v) == {<<v[j].id, v[j].s>> : j \in 1..Len(v)}

(* May operation x be answered like that in state ps? *)
Allowed(ps, x) ==
  LET p == ps[x.op.p + 1]   op == x.op
  IN  x.t = "ok" /\
      CASE op.op = "emplace" -> EmplaceOk(p, op.s, x.v)
        [] op.op = "get"     -> x.v = Get(p, op.s)
        [] op.op = "resolve" -> IF Used(p, op.id) THEN x.v = Spelling(p, op.id) ELSE x.v = <<-1>>
        [] op.op = "size"    -> x.v = Size(p)
        [] op.op = "bytes"   -> x.v = Bytes(p)
        [] op.op = "highest" -> IF p.high >= FirstDynamic THEN x.v = p.high ELSE x.v < FirstDynamic
        [] op.op = "eq"      -> EqOk(p, ps[op.q + 1], x.v)
        [] op.op = "copy"    -> Pairs(x.v) = Snapshot(p, 0)
        [] op.op = "write"   -> Pairs(x.v) = Snapshot(p, op.off)
After(ps, x) == IF x.op.op = "emplace" THEN [ps EXCEPT ![x.op.p + 1] = Emplace(@, x.op.s, x.v)] ELSE ps

Final(ps, pools) == \A j \in Pools :
   /\ Pairs(pools[j].dump) = Snapshot(ps[j], 0)
   /\ \A k \in 1..Len(pools[j].dump) : pools[j].dump[k].get = pools[j].dump[k].id
   /\ pools[j].stats.size = Size(ps[j])
   /\ pools[j].stats.bytes = Bytes(ps[j])
   /\ (ps[j].high >= FirstDynamic => pools[j].stats.highest = ps[j].high)

RECURSIVE Lin(_, _, _)
Lin(ps, left, o) ==
  IF left = {} THEN Final(ps, o.pools)
  ELSE \E k \in left : /\ ToSet(o.ops[k].before) \cap left = {}
                       /\ Allowed(ps, o.ops[k])
                       /\ Lin(After(ps, o.ops[k]), left \ {k}, o)

(* The operations that come before the threads; ids are assigned in order *)
Start(init) == FoldLeft(LAMBDA ps, op : [ps EXCEPT ![op.p + 1] = Emplace(@, op.s, IF Has(@, op.s) THEN 0 ELSE @.high + 1)],
                        [j \in Pools |-> NewPool], init)
(* The ids that the names of the start really have are read off the final state *)
Renumber(ps, pools) == [j \in Pools |->
   [ps[j] EXCEPT !.tab = [k \in 1..Len(@) |->
        LET e == @[k]
            real == {pools[j].dump[i].id : i \in {n \in 1..Len(pools[j].dump) : Low(pools[j].dump[n].s) = e.k}}
        IN  IF real = {} THEN e ELSE [e EXCEPT !.id = CHOOSE x \in real : TRUE]]]]
High(p) == [p EXCEPT !.high = IF Len(p.tab) = 4 THEN FirstDynamic - 1
                              ELSE CHOOSE h \in {e.id : e \in ToSet(p.tab)} : \A e \in ToSet(p.tab) : e.id <= h]

OkOutcome(c, o) == /\ "deadlock" \notin DOMAIN o
                   /\ LET ps == Renumber(Start(c.init), o.pools)
                      IN  Lin([j \in Pools |-> High(ps[j])], 1..Len(o.ops), o)

TInit == ci \in 1..Len(Cases) /\ stage = 0 /\ bad = FALSE
TNext == /\ stage = 0 /\ stage' = 1 /\ UNCHANGED ci
         /\ bad' = IF Cases[ci].r = "ok" THEN \E k \in 1..Len(Cases[ci].outcomes) : ~OkOutcome(Cases[ci], Cases[ci].outcomes[k]) ELSE TRUE
Verdict == ~bad
============================================================================
