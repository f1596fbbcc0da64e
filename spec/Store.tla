------------------------------- MODULE Store -------------------------------
(* Model pools: containers, scalars and roots, the string pools that name   *)
(* their fields, and the streams that both are written to.                  *)
(*                                                                          *)
(* A node is [t, n, p]: t "null" "bool" "int" "dbl" "str" with the bytes p  *)
(* of the value, "obj" and "arr" with the number n of the container (from   *)
(* 0), "bad" for a reference to a node that does not exist. A reference to  *)
(* a container that has not been created yet is dangling as well.           *)
(* A model is [dead, pool, objs, arrs, roots, held]: objs is a sequence of  *)
(* sequences of fields [id, v], arrs one of sequences of nodes, held are    *)
(* the scalars that have been handed out. What is dead is unspecified.      *)
EXTENDS Names

N(t, n, p) == [t |-> t, n |-> n, p |-> p]
NoneNode == N("none", 0, <<>>)
NewModel(pool) == [dead |-> FALSE, pool |-> pool, objs |-> <<>>, arrs |-> <<>>, roots |-> <<>>, held |-> <<>>]
DeadModel(m) == [NewModel(m.pool) EXCEPT !.dead = TRUE]
DeadPool == [dead |-> TRUE]
Alive(p) == "tab" \in DOMAIN p

Scalar(x) == x.t \in {"null", "bool", "int", "dbl", "str"}
Dangling(m, x) == \/ x.t = "bad"
                  \/ x.t = "obj" /\ x.n >= Len(m.objs)
                  \/ x.t = "arr" /\ x.n >= Len(m.arrs)
Kids(fs) == [j \in 1..Len(fs) |-> fs[j].v]
Ids(fs) == [j \in 1..Len(fs) |-> fs[j].id]

(* ------------------------------------------------------------ transitions *)
Hold(m, x, f) == IF Scalar(x) /\ x.t # "null" /\ f THEN [m EXCEPT !.held = Append(@, x)] ELSE m
NewObj(m) == [m EXCEPT !.objs = Append(@, <<>>)]
NewArr(m) == [m EXCEPT !.arrs = Append(@, <<>>)]
Field(m, o, id, x) == [m EXCEPT !.objs[o + 1] = Append(@, [id |-> id, v |-> x])]
Elem(m, a, x) == [m EXCEPT !.arrs[a + 1] = Append(@, x)]
Elems(m, a, xs) == [m EXCEPT !.arrs[a + 1] = @ \o xs]
Fields(m, o, id, xs) == [m EXCEPT !.objs[o + 1] = @ \o [j \in 1..Len(xs) |-> [id |-> id, v |-> xs[j]]]]
ExtendObj(m, o, from) == [m EXCEPT !.objs[o + 1] = @ \o m.objs[from + 1]]
ExtendArr(m, a, from) == [m EXCEPT !.arrs[a + 1] = @ \o m.arrs[from + 1]]
Root(m, x) == [m EXCEPT !.roots = Append(@, x)]
Cleared(m) == NewModel(m.pool)
Written(m) == [dead |-> FALSE, objs |-> m.objs, arrs |-> m.arrs, roots |-> m.roots]
ReadInto(m, s) == [NewModel(m.pool) EXCEPT !.objs = s.objs, !.arrs = s.arrs, !.roots = s.roots]

AllIds(m) == UNION { {m.objs[o][j].id : j \in 1..Len(m.objs[o])} : o \in 1..Len(m.objs) }
(* Another string pool q for a model whose fields are named by p: q learns  *)
(* the names that it misses, and the fields get the ids that q has for them *)
Resolvable(m, p) == \A id \in AllIds(m) : Used(p, id)
Missing(m, p, q) == { Low(Spelling(p, id)) : id \in {i \in AllIds(m) : ~Has(q, Spelling(p, i))} }
NewIn(q, qq) == { e \in ToSet(qq.tab) : ~Used(q, e.id) }
SomeOk(m, p, q, qq) == /\ \A j \in 1..Len(q.tab) : Used(qq, q.tab[j].id) /\ Spelling(qq, q.tab[j].id) = q.tab[j].s
                       /\ {e.k : e \in NewIn(q, qq)} \subseteq Missing(m, p, q)
                       /\ Cardinality(NewIn(q, qq)) = Cardinality({e.k : e \in NewIn(q, qq)})
                       /\ \A e \in NewIn(q, qq) : e.id > q.high /\ e.id >= FirstDynamic /\ e.s = Spelling(p, IdOf(p, e.s))
RelabelOk(m, p, q, qq) == SomeOk(m, p, q, qq) /\ {e.k : e \in NewIn(q, qq)} = Missing(m, p, q)
Relabelled(m, p, qi, qq) == [m EXCEPT !.pool = qi, !.objs = [o \in 1..Len(@) |-> [j \in 1..Len(@[o]) |-> [@[o][j] EXCEPT !.id = IdOf(qq, Spelling(p, @))]]]]

(* ------------------------------------------------------------ observations *)
Valid(m, p) == /\ \A o \in 1..Len(m.objs) : \A j \in 1..Len(m.objs[o]) : ~Dangling(m, m.objs[o][j].v) /\ Used(p, m.objs[o][j].id)
               /\ \A a \in 1..Len(m.arrs) : \A j \in 1..Len(m.arrs[a]) : ~Dangling(m, m.arrs[a][j])
               /\ \A j \in 1..Len(m.roots) : ~Dangling(m, m.roots[j])
NodeOk(m, x, y) == IF Dangling(m, x) THEN y.t = "error" ELSE y = x
NodesOk(m, xs, ys) == Len(xs) = Len(ys) /\ \A j \in 1..Len(xs) : NodeOk(m, xs[j], ys[j])
Name(p, id) == IF Used(p, id) THEN Spelling(p, id) ELSE <<-1>>
First(fs, id) == IF \E j \in 1..Len(fs) : fs[j].id = id THEN fs[CHOOSE j \in 1..Len(fs) : fs[j].id = id /\ \A i \in 1..(j - 1) : fs[i].id # id].v ELSE NoneNode

(* Which containers can be reached from a node (models shall have no cycles) *)
RECURSIVE Below(_, _)
Below(m, xs) == LET kids == UNION { IF x.t = "obj" /\ x.n < Len(m.objs) THEN ToSet(Kids(m.objs[x.n + 1]))
                                    ELSE IF x.t = "arr" /\ x.n < Len(m.arrs) THEN ToSet(m.arrs[x.n + 1]) ELSE {} : x \in xs }
                    cs == { x \in kids : x.t \in {"obj", "arr"} }
                IN  IF cs \subseteq xs THEN xs ELSE Below(m, xs \cup cs)
Reaches(m, x, t, n) == x.t \in {"obj", "arr"} /\ \E y \in Below(m, {x}) : y.t = t /\ y.n = n
============================================================================
