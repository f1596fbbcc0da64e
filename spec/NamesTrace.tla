----------------------------- MODULE NamesTrace -----------------------------
(* Validates recorded histories of real string pools. The pools live in     *)
(* numbered slots, streams as well; "dead" pools are those whose state is   *)
(* not specified (after a refused read).                                    *)
EXTENDS Names, Json, IOUtils, TLC
VARIABLES ci, pos, pools, streams, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
vars == <<ci, pos, pools, streams, bad>>
Dead == [dead |-> TRUE]
Alive(p) == "tab" \in DOMAIN p
Slots == 0..3

DumpOk(p, v) == /\ Len(v) = Len(p.tab)
                /\ \A j \in 1..Len(v) : /\ Used(p, v[j].id)
                                        /\ v[j].s = Spelling(p, v[j].id)
                                        /\ v[j].get = v[j].id
                                        /\ v[j].upper = v[j].id

(* The state after a step and whether its observed outcome is allowed *)
Step(ps, ss, st) ==
  LET op == st.op   o == st.out
      p == ps[op.p + 1]
      R(q, ok) == [ps |-> [ps EXCEPT ![op.p + 1] = q], ss |-> ss, ok |-> ok]
      Same1(ok) == [ps |-> ps, ss |-> ss, ok |-> ok]
      okv(v) == o.t = "ok" /\ o.v = v
  IN CASE ~Alive(p) /\ op.op = "write" -> [ps |-> ps, ss |-> [ss EXCEPT ![op.to + 1].dead = TRUE], ok |-> TRUE]
       [] ~Alive(p) /\ op.op \notin {"new", "copy", "write"} -> Same1(TRUE)
       [] op.op = "read" /\ ss[op.from + 1].dead -> R(Dead, TRUE)
       [] op.op = "new"     -> R(NewPool, o.t = "ok")
       [] op.op = "emplace" -> IF o.t = "ok" THEN LET ok == EmplaceOk(p, op.s, o.v)
                                                  IN  R(IF ok THEN Emplace(p, op.s, o.v) ELSE p, ok)
                               ELSE Same1(~Has(p, op.s) /\ Full(p))
       [] op.op = "get"     -> Same1(okv(Get(p, op.s)))
       [] op.op = "static"  -> R(AddStatic(p, op.id, op.s), o.t = "ok")
       [] op.op = "copy"    -> IF Alive(ps[op.from + 1]) THEN R(ps[op.from + 1], o.t = "ok") ELSE R(Dead, TRUE)
       [] op.op = "eq"      -> IF Alive(ps[op.q + 1]) THEN Same1(o.t = "ok" /\ EqOk(p, ps[op.q + 1], o.v)) ELSE Same1(TRUE)
       [] op.op = "write"   -> [ps |-> ps, ss |-> [ss EXCEPT ![op.to + 1] = [dead |-> FALSE, es |-> Stream(p, o.v)]], ok |-> o.t = "ok"]
       [] op.op = "read"    -> LET r == Read(p, ss[op.from + 1].es)
                               IN  IF r.clash THEN R(Dead, o.t # "ok") ELSE R(r.p, o.t = "ok")
       [] op.op = "cut"     -> \* every strict prefix of the stream, read into a fresh pool: the lengths that were accepted
                               Same1(ss[op.from + 1].dead \/ (o.t = "ok" /\ o.v = <<>>))
       [] op.op = "stats"   -> Same1(/\ o.v.size = Size(p)
                                     /\ o.v.bytes = Bytes(p)
                                     /\ IF p.high >= FirstDynamic THEN o.v.highest = p.high ELSE o.v.highest < FirstDynamic)
       [] op.op = "fill"    -> \* many new names at once, perhaps more than there are ids; ends the history of the pool
                               R(Dead, /\ o.t = "ok"
                                       /\ \A j \in 1..Len(o.v.ids) : o.v.ids[j] > (IF j = 1 THEN p.high ELSE o.v.ids[j - 1]) /\ o.v.ids[j] <= MaxId /\ o.v.ids[j] >= FirstDynamic
                                       /\ o.v.kept = Len(o.v.ids)
                                       /\ IF o.v.error
                                          THEN /\ \A j \in 1..Len(o.v.again) : o.v.again[j] # "none"
                                               /\ (IF o.v.ids = <<>> THEN p.high ELSE Last(o.v.ids)) >= MaxId - 1
                                          ELSE Len(o.v.ids) = op.n
                                       /\ o.v.stats.size = Size(p) + Len(o.v.ids)
                                       /\ (o.v.ids # <<>> => o.v.stats.highest = Last(o.v.ids))
                                       /\ DumpOk(p, o.v.old))
       [] op.op = "dump"    -> Same1(DumpOk(p, o.v))

TInit == ci \in 1..Len(Cases) /\ pos = 1 /\ pools = [j \in 1..4 |-> NewPool] /\ streams = [j \in 1..4 |-> [dead |-> FALSE, es |-> <<>>]] /\ bad = FALSE
TNext == /\ pos <= Len(Cases[ci].steps)
         /\ LET r == Step(pools, streams, Cases[ci].steps[pos])
            IN  pools' = r.ps /\ streams' = r.ss /\ bad' = ~r.ok
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == ~bad /\ Cases[ci].r = "ok"
Consistent == \A j \in 1..4 : Alive(pools[j]) => OneToOne(pools[j]) /\ HighOk(pools[j])
============================================================================
