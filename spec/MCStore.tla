------------------------------ MODULE MCStore ------------------------------
(* All histories of operations on two models and two string pools, up to a  *)
(* length, for several selections of operations.                            *)
EXTENDS Store, Json, CSV, IOUtils, TLC
CONSTANTS MaxLen, Focus
VARIABLES w, hist
vars == <<w, hist>>

a == <<97>>      A == <<65>>      b == <<98>>
I(x) == N("int", 0, x)
Small == I(<<7, 0, 0, 0, 0, 0, 0, 0>>)
Wide == I(<<0, 0, 1, 0, 0, 0, 0, 0>>)
Str == N("str", 0, <<120>>)
Flt == N("dbl", 0, <<0, 0, 0, 0, 0, 0, 240, 63>>)
Nodes(m) == {Small, Wide, Str} \cup (IF Focus = "build" THEN {Flt} ELSE {})
            \cup { N("obj", n, <<>>) : n \in 0..(Len(m.objs) - 1) } \cup { N("arr", n, <<>>) : n \in 0..(Len(m.arrs) - 1) }

\* two pools of which the second knows other names, and a model with a field
Prefix == << [op |-> "newpool"], [op |-> "newpool"], [op |-> "newmodel", p |-> 0], [op |-> "emplace", p |-> 1, s |-> b],
             [op |-> "obj", m |-> 0, cap |-> 1], [op |-> "field", m |-> 0, o |-> 0, s |-> a, v |-> Small], [op |-> "arr", m |-> 0, cap |-> 1] >>
W0 == LET p1 == Emplace(NewPool, a, 128)
          p2 == Emplace(NewPool, b, 128)
          m == NewArr(Hold(Field(NewObj(NewModel(1)), 0, 128, Small), Small, TRUE))
      IN  [pools |-> <<p1, p2>>, models |-> <<m>>, ms |-> [dead |-> TRUE], mp |-> 0, ps |-> [dead |-> TRUE]]
Init == w = W0 /\ hist = Prefix

Small2(mi) == Len(w.models[mi + 1].objs) + Len(w.models[mi + 1].arrs) < 4
Build(mi) ==
  LET m == w.models[mi + 1]
      os == 0..(Len(m.objs) - 1)
      as == 0..(Len(m.arrs) - 1)
  IN  (IF Small2(mi) THEN {[op |-> "obj", m |-> mi, cap |-> 0], [op |-> "arr", m |-> mi, cap |-> 2]} ELSE {})
      \cup { [op |-> "field", m |-> mi, o |-> o, s |-> s, v |-> v] : o \in os, s \in {a, A, b}, v \in Nodes(m) }
      \cup { [op |-> "append", m |-> mi, a |-> x, v |-> v] : x \in as, v \in Nodes(m) }
      \cup { [op |-> "extend", m |-> mi, o |-> o, from |-> f] : o \in os, f \in os }
      \cup { [op |-> "extend", m |-> mi, a |-> x, from |-> f] : x \in as, f \in as }
      \cup { [op |-> "root", m |-> mi, v |-> v] : v \in Nodes(m) \ {Small, Str, Flt} }
\* a few building operations, for the selections that look at something else
Some(mi) == { op \in Build(mi) : \/ op.op = "obj" \/ (op.op = "field" /\ op.v \in {Wide} \cup (Nodes(w.models[mi + 1]) \ {Small, Str}))
                                 \/ (op.op = "append" /\ op.v \in {Str, N("obj", 0, <<>>)}) \/ (op.op = "root" /\ op.v.t = "obj") }
Models == 0..(Len(w.models) - 1)
Strings == { [op |-> "setStrings", m |-> m, p |-> p] : m \in Models, p \in {0, 1} } \cup { [op |-> "emplace", p |-> p, s |-> s] : p \in {0, 1}, s \in {A, b} }
           \cup (IF Len(w.models) < 2 THEN {[op |-> "newmodel", p |-> 1]} ELSE {})
Streams == { [op |-> "write", m |-> m, to |-> 0] : m \in Models } \cup (IF w.ms.dead THEN {} ELSE { [op |-> "read", m |-> m, from |-> 0] : m \in Models })
           \cup (IF Len(w.models) < 3 THEN { [op |-> "newmodel", p |-> p] : p \in {0, 1} } ELSE {})
           \cup { [op |-> "emplace", p |-> 0, s |-> s] : s \in {b} }
           \cup { [op |-> "pwrite", p |-> 0, to |-> 0, off |-> x, back |-> -1] : x \in {0, 128} } \cup { [op |-> "pwrite", p |-> 0, to |-> 0, off |-> 0, back |-> 0] }
           \cup (IF w.ps.dead THEN {} ELSE { [op |-> "pread", p |-> 1, from |-> 0] })
Clears == { [op |-> "clear", m |-> m] : m \in Models } \cup { [op |-> "validate", m |-> m] : m \in Models }
          \cup { [op |-> "rootat", m |-> 0, i |-> i] : i \in {Len(w.models[1].roots), Len(w.models[1].roots) - 1} }
Ops == CASE Focus = "build" -> Build(0)
         [] Focus = "strings" -> Strings \cup UNION {Some(m) : m \in Models}
         [] Focus = "streams" -> Streams \cup UNION {Some(m) : m \in Models}
         [] Focus = "clear" -> Clears \cup Build(0)
         [] Focus = "all" -> Strings \cup Streams \cup Clears \cup UNION {Build(m) : m \in Models}

Acyclic(m, x, t, n) == ~Reaches(m, x, t, n)
Enabled1(op) ==
  LET m == w.models[op.m + 1]
  IN  CASE op.op = "field" -> Acyclic(m, op.v, "obj", op.o) /\ (Focus # "all" \/ Len(m.objs[op.o + 1]) < 8) /\ Alive(w.pools[m.pool])
        [] op.op = "append" -> Acyclic(m, op.v, "arr", op.a) /\ (Focus # "all" \/ Len(m.arrs[op.a + 1]) < 8)
        [] op.op = "extend" /\ "o" \in DOMAIN op -> (\A j \in 1..Len(m.objs[op.from + 1]) : Acyclic(m, m.objs[op.from + 1][j].v, "obj", op.o)) /\ Len(m.objs[op.o + 1]) < 5 /\ Len(m.objs[op.from + 1]) > 0
        [] op.op = "extend" /\ "a" \in DOMAIN op -> (\A j \in 1..Len(m.arrs[op.from + 1]) : Acyclic(m, m.arrs[op.from + 1][j], "arr", op.a)) /\ Len(m.arrs[op.a + 1]) < 5 /\ Len(m.arrs[op.from + 1]) > 0
        [] op.op = "setStrings" -> Resolvable(m, w.pools[m.pool])
        [] op.op = "pread" -> ~Read(w.pools[op.p + 1], w.ps.es).clash
        [] OTHER -> TRUE

\* new names get the ids from the highest one on
SetPool(op) == LET m == w.models[op.m + 1]   p == w.pools[m.pool]   q == w.pools[op.p + 1]
                   names == SetToSortSeq({ id \in AllIds(m) : ~Has(q, Spelling(p, id)) }, LAMBDA x, y : x < y)
                   q2 == FoldLeft(LAMBDA acc, id : Emplace(acc, Spelling(p, id), acc.high + 1), q, names)
               IN  IF m.pool = op.p + 1 THEN w ELSE [w EXCEPT !.pools[op.p + 1] = q2, !.models[op.m + 1] = Relabelled(m, p, op.p + 1, q2)]
Apply(op) ==
  LET m == w.models[op.m + 1]
      M(mm) == [w EXCEPT !.models[op.m + 1] = mm]
      new(p, s) == IF Has(p, s) THEN IdOf(p, s) ELSE p.high + 1
  IN  CASE op.op = "obj" -> M(NewObj(m))
        [] op.op = "arr" -> M(NewArr(m))
        [] op.op = "field" -> LET p == w.pools[m.pool]   id == new(p, op.s)
                              IN  [w EXCEPT !.pools[m.pool] = Emplace(p, op.s, id), !.models[op.m + 1] = Hold(Field(m, op.o, id, op.v), op.v, TRUE)]
        [] op.op = "append" -> M(Hold(Elem(m, op.a, op.v), op.v, TRUE))
        [] op.op = "extend" -> M(IF "a" \in DOMAIN op THEN ExtendArr(m, op.a, op.from) ELSE ExtendObj(m, op.o, op.from))
        [] op.op = "root" -> M(Hold(Root(m, op.v), op.v, TRUE))
        [] op.op = "setStrings" -> SetPool(op)
        [] op.op = "emplace" -> LET p == w.pools[op.p + 1] IN [w EXCEPT !.pools[op.p + 1] = Emplace(p, op.s, new(p, op.s))]
        [] op.op = "newmodel" -> [w EXCEPT !.models = Append(@, NewModel(op.p + 1))]
        [] op.op = "write" -> [w EXCEPT !.ms = Written(m)]
        [] op.op = "read" -> M(ReadInto(m, w.ms))
        [] op.op = "clear" -> M(Cleared(m))
        [] op.op = "pwrite" -> LET p == w.pools[op.p + 1]   off == IF op.back < 0 THEN op.off ELSE p.high - op.back
                               IN  [w EXCEPT !.ps = [dead |-> FALSE, es |-> Stream(p, off)]]
        [] op.op = "pread" -> [w EXCEPT !.pools[op.p + 1] = Read(@, w.ps.es).p]
        [] OTHER -> w
Next == /\ Len(hist) < Len(Prefix) + MaxLen
        /\ \E op \in Ops : Enabled1(op) /\ w' = Apply(op) /\ hist' = Append(hist, op)

Pools1 == \A p \in 1..2 : OneToOne(w.pools[p]) /\ HighOk(w.pools[p])
NoDangling(m) == /\ \A o \in 1..Len(m.objs) : \A j \in 1..Len(m.objs[o]) : ~Dangling(m, m.objs[o][j].v)
                 /\ \A x \in 1..Len(m.arrs) : \A j \in 1..Len(m.arrs[x]) : ~Dangling(m, m.arrs[x][j])
                 /\ \A j \in 1..Len(m.roots) : ~Dangling(m, m.roots[j])
Sound == \A i \in 1..Len(w.models) : /\ NoDangling(w.models[i])
                                     /\ (~(\E j \in 1..Len(hist) : hist[j].op = "read") => Valid(w.models[i], w.pools[w.models[i].pool]))
                                     /\ \A o \in 0..(Len(w.models[i].objs) - 1) : \A j \in 1..Len(w.models[i].objs[o + 1]) : ~Reaches(w.models[i], w.models[i].objs[o + 1][j].v, "obj", o)
RoundTrip == \A i \in 1..Len(w.models) : LET m == w.models[i]   q == ReadInto(NewModel(m.pool), Written(m)) IN q.objs = m.objs /\ q.arrs = m.arrs /\ q.roots = m.roots
(* A pool that got all of another one names everything as that one does *)
Carried == LET r == Read(NewPool, Stream(w.pools[1], 0)) IN ~r.clash /\ \A i \in 1..Len(w.models) : w.models[i].pool = 1 => \A id \in AllIds(w.models[i]) : Name(r.p, id) = Name(w.pools[1], id)
Emit == (Len(hist) = Len(Prefix) + MaxLen /\ "VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(SubSeq(hist, Len(Prefix) + 1, Len(hist)))>>, IOEnv.VT_EMIT)

Named(m, p) == [o \in 1..Len(m.objs) |-> [j \in 1..Len(m.objs[o]) |-> <<Low(Name(p, m.objs[o][j].id)), m.objs[o][j].v>>]]
(* Another string pool changes neither names nor values; other operations than clear and read only add *)
Kept == [][LET op == hist'[Len(hist')]
           IN  \A i \in 1..Len(w.models) :
                 LET m == w.models[i]   mm == w'.models[i]
                 IN  IF op.op \in {"clear", "read"} /\ op.m = i - 1 THEN (op.op = "clear" => mm = NewModel(m.pool))
                     ELSE /\ \A o \in 1..Len(m.objs) : LET x == Named(m, w.pools[m.pool])[o]   y == Named(mm, w'.pools[mm.pool])[o]
                                                       IN  Len(x) <= Len(y) /\ \A j \in 1..Len(x) : (x[j] = y[j] \/ (op.op = "pread" /\ x[j][1] = <<-1>>))
                          /\ \A o \in 1..Len(m.arrs) : SubSeq(mm.arrs[o], 1, Len(m.arrs[o])) = m.arrs[o]
                          /\ SubSeq(mm.roots, 1, Len(m.roots)) = m.roots]_vars
============================================================================
