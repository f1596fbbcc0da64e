------------------------------- MODULE Overlay -----------------------------
(* Nodes that present another node: overlays (OverlayNode), which inject    *)
(* fields into a value, and objects with procedural fields                  *)
(* (ProceduralObject).                                                      *)
(*                                                                          *)
(* A world w has                                                            *)
(*   w.doc[i]  the nodes of a model: [t, v, ks, cs, fs] with t the type     *)
(*             ("proc": an object with procedural fields, "bare": one       *)
(*             without stored fields), v the text of a scalar, ks and cs    *)
(*             the names and nodes of the stored members, fs the procedural *)
(*             fields [k (name), f (what it computes), x, s]                *)
(*   w.ov[i]   the overlays: [w (the wrapped value), ks, vs (the injected   *)
(*             fields, one per name)]                                       *)
(*   w.hs[i]   handles: the overlay that the variable i refers to           *)
(* A value is [k |-> "doc"|"ov"|"sc"|"nil", n |-> index, t, v]: a node, an  *)
(* overlay, a scalar that is not part of a model, or no node at all.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Nil == [k |-> "nil", n |-> 0, t |-> "null", v |-> ""]
Doc(n) == [k |-> "doc", n |-> n, t |-> "", v |-> ""]
Ov(n) == [k |-> "ov", n |-> n, t |-> "", v |-> ""]
Sc(t, v) == [k |-> "sc", n |-> 0, t |-> t, v |-> v]

Pos(ks, key) == LET f == { i \in 1..Len(ks) : ks[i] = key } IN IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : i <= j
IsProc(d) == d.t \in {"proc", "bare"}

(* ---- what a node shows ------------------------------------------------- *)
RECURSIVE Typ(_, _), Val(_, _), Size(_, _), KeyAt(_, _, _), At(_, _, _), Get(_, _, _), Field(_, _, _)
Typ(w, x) == CASE x.k = "ov" -> "object"
               [] x.k = "doc" -> IF IsProc(w.doc[x.n]) THEN "object" ELSE w.doc[x.n].t
               [] OTHER -> x.t
Val(w, x) == CASE x.k = "ov" -> Val(w, w.ov[x.n].w)
               [] x.k = "doc" -> w.doc[x.n].v
               [] OTHER -> x.v
Size(w, x) == CASE x.k = "ov" -> Size(w, w.ov[x.n].w)
                [] x.k = "doc" -> Len(w.doc[x.n].fs) + Len(w.doc[x.n].cs)
                [] OTHER -> 0
\* positions count from 0; nothing is found outside of 0..Size-1
KeyAt(w, x, i) ==
  CASE x.k = "ov" -> KeyAt(w, w.ov[x.n].w, i)
    [] x.k = "doc" -> LET d == w.doc[x.n]  m == Len(d.fs)
                      IN  IF i < 0 \/ i >= m + Len(d.ks) THEN ""
                          ELSE IF i < m THEN d.fs[i + 1].k ELSE d.ks[i - m + 1]
    [] OTHER -> ""
At(w, x, i) ==
  CASE x.k = "ov" -> At(w, w.ov[x.n].w, i)
    [] x.k = "doc" -> LET d == w.doc[x.n]  m == Len(d.fs)
                      IN  IF i < 0 \/ i >= m + Len(d.cs) THEN Nil
                          ELSE IF i < m THEN Field(w, x, d.fs[i + 1]) ELSE Doc(d.cs[i - m + 1])
    [] OTHER -> Nil
Get(w, x, key) ==
  CASE x.k = "ov" -> LET o == w.ov[x.n]  p == Pos(o.ks, key)
                     IN  IF p # 0 THEN o.vs[p] ELSE Get(w, o.w, key)
    [] x.k = "doc" -> LET d == w.doc[x.n]  p == Pos([i \in 1..Len(d.fs) |-> d.fs[i].k], key)  q == IF d.t = "array" THEN 0 ELSE Pos(d.ks, key)
                      IN  IF p # 0 THEN Field(w, x, d.fs[p]) ELSE IF q # 0 THEN Doc(d.cs[q]) ELSE Nil
    [] OTHER -> Nil
\* what a procedural field computes from its object
Field(w, x, f) ==
  CASE f.f = "const" -> Sc("string", f.s)
    [] f.f = "node"  -> Doc(f.x)
    [] f.f = "count" -> Sc("int", ToString(Size(w, x)))
    [] f.f = "alias" -> Get(w, x, f.s)
Children(w, x) == [i \in 1..Size(w, x) |-> At(w, x, i - 1)]
Names(w, x) == [i \in 1..Size(w, x) |-> KeyAt(w, x, i - 1)]

(* The view of a node that the harness records *)
Brief(w, x) == IF x = Nil THEN [t |-> "none", v |-> "", n |-> -1, ks |-> <<>>]
               ELSE [t |-> Typ(w, x), v |-> Val(w, x), n |-> Size(w, x), ks |-> Names(w, x)]
View(w, x, keys) ==
  IF x = Nil THEN [me |-> Brief(w, x), ks |-> <<>>, at |-> <<>>, get |-> <<>>, it |-> <<>>, stop |-> <<>>, go |-> <<>>, errors |-> 0]
  ELSE LET n == Size(w, x)  cs == Children(w, x)
       IN  [ me |-> Brief(w, x),
             ks |-> [i \in 1..n + 4 |-> KeyAt(w, x, i - 3)],          \* keyAt(-2) ... keyAt(size + 1)
             at |-> [i \in 1..n + 4 |-> Brief(w, At(w, x, i - 3))],
             get |-> [i \in 1..Len(keys) |-> Brief(w, Get(w, x, keys[i]))],
             it |-> [i \in 1..n |-> Brief(w, cs[i])],
             stop |-> [i \in 1..n |-> i],                             \* an iteration that is stopped at its i-th node sees i nodes
             go |-> [i \in 1..n |-> FALSE],                           \* and says so
             errors |-> 0 ]                                           \* the ranges for loops show the same

(* Following a path of accesses *)
Access(w, x, a) == CASE x = Nil -> Nil
                     [] a.a = "get" -> Get(w, x, a.s)
                     [] a.a = "at"  -> At(w, x, a.i)
                     [] a.a = "it"  -> IF a.i + 1 \in DOMAIN Children(w, x) THEN Children(w, x)[a.i + 1] ELSE Nil
Follow(w, x, path) == FoldLeft(LAMBDA y, a : Access(w, y, a), x, path)

(* ---- paths of the query language on such nodes ------------------------- *)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Some(s) == IF s = <<>> THEN <<Nil>> ELSE s
NonNil(s) == SelectSeq(s, LAMBDA x : x # Nil)
RECURSIVE Deep(_, _)
Deep(w, x) == IF Typ(w, x) = "null" THEN <<>> ELSE <<x>> \o Concat([i \in 1..Size(w, x) |-> Deep(w, At(w, x, i - 1))])
StepFrom(w, x, s) == CASE s.a = "field" -> <<Get(w, x, s.s)>>
                       [] s.a = "any"   -> Children(w, x)
                       [] s.a = "deep"  -> Deep(w, x)
PathStep(w, xs, s) ==
  IF s.a = "at" THEN Some(Concat([i \in 1..Len(xs) |-> IF xs[i] = Nil THEN <<Nil>> ELSE NonNil(<<At(w, xs[i], s.i)>>)]))
  ELSE Some(Concat([i \in 1..Len(xs) |-> IF xs[i] = Nil THEN <<>> ELSE NonNil(StepFrom(w, xs[i], s))]))
Query(w, x, steps) == FoldLeft(LAMBDA xs, s : PathStep(w, xs, s), <<x>>, steps)
QueryKeys(w, xs) == LET ks == Concat([i \in 1..Len(xs) |-> IF xs[i] = Nil THEN <<>> ELSE Names(w, xs[i])])
                    IN  IF ks = <<>> THEN <<"null">> ELSE ks          \* every call has a result

(* ---- JSON of a document node (names must be different) ----------------- *)
RECURSIVE Text(_, _, _)
Join(ss) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ",") \o ss[i], "", [i \in 1..Len(ss) |-> i])
Text(w, x, keys) ==
  CASE Typ(w, x) = "object" -> LET here == SelectSeq(keys, LAMBDA k : \E i \in 0..Size(w, x) - 1 : KeyAt(w, x, i) = k)
                                   of(k) == CHOOSE i \in 0..Size(w, x) - 1 : KeyAt(w, x, i) = k
                               IN  "{" \o Join([i \in 1..Len(here) |-> "\"" \o here[i] \o "\":" \o Text(w, At(w, x, of(here[i])), keys)]) \o "}"
    [] Typ(w, x) = "array" -> "[" \o Join([i \in 1..Size(w, x) |-> Text(w, At(w, x, i - 1), keys)]) \o "]"
    [] Typ(w, x) = "string" -> "\"" \o Val(w, x) \o "\""
    [] Typ(w, x) = "null" -> "null"
    [] OTHER -> Val(w, x)
RECURSIVE Unique(_, _)
Unique(w, x) == /\ \A i, j \in 0..Size(w, x) - 1 : Typ(w, x) = "object" /\ i # j => KeyAt(w, x, i) # KeyAt(w, x, j)
                /\ \A i \in 0..Size(w, x) - 1 : Unique(w, At(w, x, i))

(* ---- operations --------------------------------------------------------- *)
\* wrap a value; another handle to an overlay (from its node, or a copy); inject a field; add a stored field or element
Apply(w, op) ==
  CASE op.op = "wrap" -> [w EXCEPT !.ov = Append(@, [w |-> op.v, ks |-> <<>>, vs |-> <<>>]), !.hs = Append(@, Len(w.ov) + 1)]
    [] op.op = "again" -> [w EXCEPT !.hs = Append(@, w.hs[op.h])]
    [] op.op = "set" -> LET o == w.hs[op.h]  p == Pos(w.ov[o].ks, op.key)
                        IN  IF p = 0 THEN [w EXCEPT !.ov[o].ks = Append(@, op.key), !.ov[o].vs = Append(@, op.v)]
                            ELSE [w EXCEPT !.ov[o].vs[p] = op.v]
    [] op.op = "add" -> LET d == w.doc[op.n]
                        IN  [w EXCEPT !.doc = Append([@ EXCEPT ![op.n].cs = Append(@, Len(w.doc) + 1),
                                                               ![op.n].ks = IF d.t = "array" THEN Append(@, "") ELSE Append(@, op.key)],
                                                     [t |-> "int", v |-> op.s, ks |-> <<>>, cs |-> <<>>, fs |-> <<>>])]
    [] OTHER -> w

\* the order of overlays is a hierarchy: each one refers to older ones only
Older(w, o, x) == x.k = "ov" => x.n < o
Enabled(w, op) ==
  CASE op.op = "wrap" -> (op.v.k = "ov" => op.v.n \in DOMAIN w.ov) /\ op.v # Nil
    [] op.op \in {"again", "look"} -> op.h \in DOMAIN w.hs
    [] op.op = "eval" -> op.h \in DOMAIN w.hs \/ (op.h = 0 /\ op.n \in DOMAIN w.doc)
    [] op.op = "set" -> op.h \in DOMAIN w.hs /\ op.v # Nil /\ Older(w, w.hs[op.h], op.v)
    [] op.op = "add" -> op.n \in DOMAIN w.doc /\ w.doc[op.n].t \in {"object", "array", "proc"}
    [] OTHER -> TRUE
============================================================================
