----------------------------- MODULE StoreTrace -----------------------------
(* Validates recorded histories of real model pools.                        *)
EXTENDS Store, Json, IOUtils, TLC
VARIABLES ci, pos, w, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
vars == <<ci, pos, w, bad>>

Pure(v) == N(v.t, v.n, v.p)
Typed(v) == "f" \in DOMAIN v /\ v.f \in {"t", "tu16", "ti16"}
PoolOf(v) == FoldLeft(LAMBDA p, e : Add(p, e.s, e.id, TRUE), [tab |-> <<>>, high |-> FirstDynamic - 1], v)
PoolOk(p, v) == Len(v) = Len(p.tab) /\ \A j \in 1..Len(v) : Used(p, v[j].id) /\ v[j].s = Spelling(p, v[j].id)

StopsOk(xs, ss) == \A j \in 1..Len(ss) : /\ ~ss[j].threw
                                         /\ ss[j].s = SubSeq(xs, 1, IF ss[j].k < Len(xs) THEN ss[j].k ELSE Len(xs))
                                         /\ ss[j].r = (IF ss[j].k <= Len(xs) THEN 0 ELSE 1)
Whole(m, xs) == \A j \in 1..Len(xs) : ~Dangling(m, xs[j])
ContOk(m, xs, d, t) ==
  /\ d.types = <<t>>
  /\ d.size = <<Len(xs)>>
  /\ Len(d.kids) > 0
  /\ \A k \in 1..Len(d.kids) : NodesOk(m, xs, d.kids[k])
  /\ d.outside = <<NoneNode>> /\ d.outkeys = <<0>>
  /\ (Whole(m, xs) => StopsOk(xs, d.stops))
ObjOk(m, p, fs, d) ==
  /\ ContOk(m, Kids(fs), d, "obj")
  /\ d.ids = <<Ids(fs)>>
  /\ d.names = << [j \in 1..Len(fs) |-> Name(p, fs[j].id)] >>
  /\ \A g \in 1..Len(d.gets) : LET x == First(fs, d.gets[g].id) IN Len(d.gets[g].v) > 0 /\ \A k \in 1..Len(d.gets[g].v) : NodeOk(m, x, d.gets[g].v[k])
  /\ (d.gets # <<>> => {d.gets[g].id : g \in 1..Len(d.gets)} = ToSet(Ids(fs)) \cup {MaxId})
  /\ \A g \in 1..Len(d.queries) : LET x == First(fs, d.queries[g].id) IN Dangling(m, x) \/ d.queries[g].v = << <<x>> >>
DumpOk(m, p, v) ==
  /\ NodesOk(m, m.roots, v.roots)
  /\ Len(v.objs) = Len(m.objs) /\ \A o \in 1..Len(m.objs) : ObjOk(m, p, m.objs[o], v.objs[o])
  /\ Len(v.arrs) = Len(m.arrs) /\ \A a \in 1..Len(m.arrs) : ContOk(m, m.arrs[a], v.arrs[a], "arr")
  /\ v.held = m.held

\* bulk values as the bytes of 64 bit integers; doubles and strings come from the recording
Bytes8(i) == << i % 256, (i \div 256) % 256, (i \div 65536) % 256, i \div 16777216, 0, 0, 0, 0 >>
RECURSIVE Digits(_)
Digits(i) == IF i < 10 THEN <<48 + i>> ELSE Append(Digits(i \div 10), 48 + (i % 10))
\* the double of a whole number i >= 0: 52 bits of fraction, exponent, as 8 bytes
Log2(i) == CHOOSE e \in 0..30 : 2^e <= i /\ (i < 2^e * 2)
Dbl8(i) == IF i = 0 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
           ELSE LET e == Log2(i)
                    ex == 1023 + e
                    f == i - 2^e                                      \* e bits
                    top == IF e >= 20 THEN f \div 2^(e - 20) ELSE f * 2^(20 - e)     \* the upper 20 bits of the fraction
                    low == IF e > 20 THEN (f % 2^(e - 20)) * 2^(28 - e) ELSE 0        \* the next 8 bits
                IN  <<0, 0, 0, low, top % 256, (top \div 256) % 256, ((ex % 16) * 16) + (top \div 65536), ex \div 16>>
BulkNode(kind, i) == IF kind = "int" THEN N("int", 0, Bytes8(i)) ELSE IF kind = "dbl" THEN N("dbl", 0, Dbl8(i)) ELSE N("str", 0, Digits(i))

Step(x, st) ==
  LET op == st.op   o == st.out
      ok == o.t = "ok"
      hasM == "m" \in DOMAIN op
      m == x.models[op.m + 1]
      p == IF hasM THEN x.pools[m.pool] ELSE x.pools[op.p + 1]
      R(xx, good) == [w |-> xx, ok |-> good]
      M(mm, good) == [w |-> [x EXCEPT !.models[op.m + 1] = mm], ok |-> good]
      Keep(good) == [w |-> x, ok |-> good]
      xv == Pure(op.v)
  IN CASE op.op = "newpool"  -> R([x EXCEPT !.pools = Append(@, NewPool)], ok)
       [] op.op = "newmodel" -> R([x EXCEPT !.models = Append(@, NewModel(op.p + 1))], ok)
       \* string pools
       [] op.op = "emplace"  -> IF ~Alive(p) THEN Keep(TRUE)
                                ELSE IF ~ok THEN Keep(~Has(p, op.s) /\ Full(p))
                                ELSE LET good == EmplaceOk(p, op.s, o.v)
                                     IN  R([x EXCEPT !.pools[op.p + 1] = IF good THEN Emplace(p, op.s, o.v) ELSE p], good)
       [] op.op = "jump"     -> IF ~Alive(p) THEN Keep(TRUE)
                                ELSE IF ~ok \/ Has(p, op.s) \/ o.v <= p.high \/ o.v > MaxId THEN Keep(FALSE)
                                ELSE R([x EXCEPT !.pools[op.p + 1] = Add(p, op.s, o.v, TRUE)], TRUE)
       [] op.op = "pwrite"   -> R([x EXCEPT !.pstreams[op.to + 1] = IF Alive(p) THEN [dead |-> FALSE, es |-> Stream(p, o.v)] ELSE [dead |-> TRUE]], ok \/ ~Alive(p))
       [] op.op = "pread"    -> LET s == x.pstreams[op.from + 1]
                                IN  IF ~Alive(p) \/ s.dead THEN R([x EXCEPT !.pools[op.p + 1] = DeadPool], TRUE)
                                    ELSE LET r == Read(p, s.es)
                                         IN  IF r.clash THEN R([x EXCEPT !.pools[op.p + 1] = DeadPool], ~ok)
                                             ELSE R([x EXCEPT !.pools[op.p + 1] = r.p], ok /\ PoolOk(r.p, o.v))
       [] op.op = "pcut"     -> Keep(~Alive(p) \/ x.pstreams[op.from + 1].dead \/ (ok /\ o.v = <<>>))
       [] op.op = "pdump"    -> Keep(~Alive(p) \/ (ok /\ PoolOk(p, o.v)))
       [] op.op = "cut"      -> Keep(x.mstreams[op.from + 1].dead \/ (ok /\ o.v = <<>>))
       \* streams of models (that of a model nobody knows is unknown, too)
       [] op.op = "write"    -> R([x EXCEPT !.mstreams[op.to + 1] = IF m.dead THEN [dead |-> TRUE] ELSE Written(m)], ok \/ m.dead)
       [] op.op = "read"     -> IF x.mstreams[op.from + 1].dead THEN M(DeadModel(m), TRUE) ELSE M(ReadInto(m, x.mstreams[op.from + 1]), ok)
       [] op.op = "clear"    -> M(Cleared(m), ok /\ o.v.roots = 0 /\ o.v.fresh = 1 /\ o.v.json = 1)
       [] op.op = "setnull"  -> Keep(~ok)
       [] op.op = "setStrings" ->
            LET q == x.pools[op.p + 1]
            IN  IF m.pool = op.p + 1 THEN Keep(ok)
                ELSE IF m.dead \/ ~Alive(p) \/ ~Alive(q) \/ ~Resolvable(m, p)
                THEN R([x EXCEPT !.models[op.m + 1] = [DeadModel(m) EXCEPT !.pool = op.p + 1], !.pools[op.p + 1] = DeadPool], TRUE)
                ELSE IF ~ok THEN Keep(FALSE)
                ELSE LET qq == PoolOf(o.v.dump)
                         good == IF o.v.failed THEN SomeOk(m, p, q, qq) /\ q.high + Cardinality(Missing(m, p, q)) >= MaxId
                                 ELSE RelabelOk(m, p, q, qq)
                         new == SetToSortSeq({ e \in ToSet(qq.tab) : ~Used(q, e.id) }, LAMBDA a, b : a.id < b.id)
                         q2 == FoldLeft(LAMBDA a, e : Add(a, e.s, e.id, TRUE), q, new)
                     IN  IF ~good THEN Keep(FALSE)
                         ELSE IF o.v.failed THEN R([x EXCEPT !.pools[op.p + 1] = q2], TRUE)     \* the model stays as it was
                         ELSE R([x EXCEPT !.models[op.m + 1] = Relabelled(m, p, op.p + 1, q2), !.pools[op.p + 1] = q2], TRUE)
       [] op.op = "strings"  -> Keep(ok /\ o.v = (IF m.pool = op.p + 1 THEN 1 ELSE 0))
       \* a model nobody knows; it still puts the names of its fields in its pool
       [] m.dead \/ ~Alive(p) ->
            LET named == op.op \in {"field", "bulk"} /\ "s" \in DOMAIN op /\ Alive(p)
                known == IF ok THEN EmplaceOk(p, op.s, o.v) ELSE FALSE
            IN  IF op.op \in {"dump", "validate", "rootat", "resolve", "touch"} THEN Keep(TRUE)
                ELSE R([x EXCEPT !.models[op.m + 1] = DeadModel(m),
                                 !.pools[m.pool] = IF ~named THEN @ ELSE IF known THEN Emplace(p, op.s, o.v) ELSE DeadPool], TRUE)
       \* building
       [] op.op = "obj"      -> M(NewObj(m), ok)
       [] op.op = "arr"      -> M(NewArr(m), ok)
       [] op.op = "field"    -> IF xv.t = "nil" THEN Keep(~ok)
                                ELSE IF ~ok THEN M(Hold(m, xv, ~Typed(op.v)), ~Has(p, op.s) /\ Full(p))
                                ELSE LET good == EmplaceOk(p, op.s, o.v)
                                     IN  IF ~good THEN Keep(FALSE)
                                         ELSE R([x EXCEPT !.pools[m.pool] = Emplace(p, op.s, o.v),
                                                          !.models[op.m + 1] = Hold(Field(m, op.o, o.v, xv), xv, ~Typed(op.v))], TRUE)
       [] op.op = "append"   -> IF xv.t = "nil" THEN Keep(~ok) ELSE M(Hold(Elem(m, op.a, xv), xv, ~Typed(op.v)), ok)
       [] op.op = "bulk"     -> LET xs == [j \in 1..op.n |-> BulkNode(op.kind, op.from + j - 1)]
                                IN  IF "a" \in DOMAIN op THEN M(Elems(m, op.a, xs), ok)
                                    ELSE LET good == ok /\ EmplaceOk(p, op.s, o.v)
                                         IN  IF ~good THEN Keep(FALSE)
                                             ELSE R([x EXCEPT !.pools[m.pool] = Emplace(p, op.s, o.v), !.models[op.m + 1] = Fields(m, op.o, o.v, xs)], TRUE)
       [] op.op = "extend"   -> M(IF "a" \in DOMAIN op THEN ExtendArr(m, op.a, op.from) ELSE ExtendObj(m, op.o, op.from), ok)
       [] op.op = "root"     -> IF xv.t = "nil" THEN Keep(~ok) ELSE M(Hold(Root(m, xv), xv, TRUE), ok)
       \* looking
       [] op.op = "rootat"   -> Keep(IF op.i >= 0 /\ op.i < Len(m.roots) THEN ok /\ NodeOk(m, m.roots[op.i + 1], o.v) ELSE ~ok)
       [] op.op = "resolve"  -> M(Hold(m, xv, TRUE), IF xv.t = op.as /\ ~Dangling(m, xv) THEN ok /\ o.v = xv ELSE ~ok)
       [] op.op = "touch"    -> M(Hold(m, xv, TRUE), ok /\ o.v = <<IF Dangling(m, xv) THEN "error" ELSE "ok">>)
       [] op.op = "validate" -> Keep(ok /\ LET v == Valid(m, p) IN o.v = [list |-> IF v THEN 1 ELSE 0, thrown |-> IF v THEN 0 ELSE 1])
       [] op.op = "dump"     -> Keep(ok /\ DumpOk(m, p, o.v))

World == [pools |-> <<>>, models |-> <<>>, mstreams |-> [j \in 1..5 |-> [dead |-> TRUE]], pstreams |-> [j \in 1..4 |-> [dead |-> TRUE]]]
TInit == ci \in 1..Len(Cases) /\ pos = 1 /\ w = World /\ bad = FALSE
TNext == /\ pos <= Len(Cases[ci].steps)
         /\ LET r == Step(w, Cases[ci].steps[pos]) IN w' = r.w /\ bad' = ~r.ok
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == ~bad /\ Cases[ci].r = "ok"
============================================================================
