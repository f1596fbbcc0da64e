-------------------------------- MODULE Eval -------------------------------
(* What an expression yields: a sequence of items that reach its consumer   *)
(* one after the other, as long as the consumer wants to continue:          *)
(*   [k |-> "v", v]      a value                                            *)
(*   [k |-> "p", s]      the user function probe(tag, ...) has been entered *)
(*   [k |-> "w", m, d]   a warning                                          *)
(*   [k |-> "to"|"tc", id, s, lim], [k |-> "tv", id, v]   trace: begin, end *)
(*                       (also when the consumer stops), value passed on    *)
(*   [k |-> "e"]         an error, ends the sequence                        *)
(*   [k |-> "u"]         nothing is specified from here on                  *)
(* x is the context: [ph |-> "c" (compiling) or "e", doc]                   *)
(* doc: sequence of nodes [t, p, c (children), ks (names)]                  *)
EXTENDS Parse

E1 == <<[k |-> "e"]>>
U1 == <<[k |-> "u"]>>
Yield(v) == IF v.t = "err" THEN E1 ELSE IF v.t = "unspec" THEN U1 ELSE <<[k |-> "v", v |-> v]>>
Dead(s) == s # <<>> /\ s[Len(s)].k \in {"e", "u"}
Values(s) == LET q == SelectSeq(s, LAMBDA it : it.k = "v") IN [j \in 1..Len(q) |-> q[j].v]
Quiet(s) == SelectSeq(s, LAMBDA it : it.k # "v")
HasValue(s) == \E j \in 1..Len(s) : s[j].k = "v"

(* Each value replaced by the items F yields for it *)
Bind(s, F(_)) ==
  FoldLeft(LAMBDA acc, it : IF Dead(acc) THEN acc ELSE IF it.k = "v" THEN acc \o F(it.v) ELSE Append(acc, it), <<>>, s)
(* An expression yields at least one value *)
NothingV(x) == IF x.ph = "c" THEN Undef ELSE NullV
Unknown(x) == IF x.ph = "c" THEN Yield(Undef) ELSE <<>>
OrNothing(s, x) == IF Dead(s) \/ HasValue(s) THEN s ELSE s \o Yield(NothingV(x))
OrNull(s) == IF Dead(s) \/ HasValue(s) THEN s ELSE s \o Yield(NullV)
(* The consumer stops with item j: traces that are open are closed, the inner ones first *)
Cut(s, j) ==
  LET open == FoldLeft(LAMBDA st, i : CASE s[i].k = "to" -> Append(st, s[i].id)
                                       [] s[i].k = "tc" -> SubSeq(st, 1, Len(st) - 1)
                                       [] OTHER -> st, <<>>, Ix(j))
      n == Len(open)
  IN  SubSeq(s, 1, j) \o [i \in 1..n |-> [k |-> "tc", id |-> open[n + 1 - i]]]
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j

--------------------------------------------------------------------------
(* Nodes *)
DocNode(i) == [k |-> "doc", id |-> i]
DocV(i, x) == V(x.doc[i].t, x.doc[i].p, DocNode(i))
Own == [k |-> "own"]                              \* a scalar that has become a node
ChildV(v) == IF HasNode(v) THEN v
             ELSE IF v.t = "undef" \/ Transient(v) THEN V("null", <<>>, Own) ELSE V(v.t, v.p, Own)
Overlay(base, sum, idx) == V("object", <<>>, [k |-> "ov", base |-> base, sum |-> sum, idx |-> idx])
SumName == B("$sum")
ValName == B("$val")
IdxName == B("$idx")
Absent == V("absent", <<>>, NoNode)

RECURSIVE Kids(_, _), GetIn(_, _, _), KeysOf(_, _)
Kids(n, x) ==
  CASE n.k = "doc" -> x.doc[n.id].c
    [] n.k = "ov" -> Kids(n.base.n, x)
    [] OTHER -> <<>>
KeysOf(n, x) ==
  CASE n.k = "doc" -> IF x.doc[n.id].t = "object" THEN x.doc[n.id].ks ELSE [j \in 1..Len(x.doc[n.id].c) |-> <<>>]
    [] n.k = "ov" -> KeysOf(n.base.n, x)
    [] OTHER -> <<>>
(* Names that differ in case only are stored with the first spelling *)
Spelling(name, x) ==
  LET i == MinOf({i \in 1..Len(x.doc) : \E j \in 1..Len(x.doc[i].ks) : SameName(x.doc[i].ks[j], name)})
      j == MinOf({j \in 1..Len(x.doc[i].ks) : SameName(x.doc[i].ks[j], name)})
  IN  x.doc[i].ks[j]
GetIn(n, name, x) ==
  CASE n.k = "doc" -> IF x.doc[n.id].t # "object" THEN Absent
                      ELSE LET m == {j \in 1..Len(x.doc[n.id].ks) : SameName(x.doc[n.id].ks[j], name)}
                           IN  IF m = {} THEN Absent ELSE DocV(x.doc[n.id].c[MinOf(m)], x)
    [] n.k = "ov" -> CASE SameName(name, SumName) -> ChildV(n.sum)
                       [] SameName(name, ValName) -> ChildV(n.base)
                       [] SameName(name, IdxName) -> ChildV(IntV(WInt(n.idx)))
                       [] OTHER -> GetIn(n.base.n, name, x)
    [] OTHER -> Absent
AtIn(n, w, x) == LET c == Kids(n, x)
                 IN  IF WSmall(w) /\ ~WIsNeg(w) /\ WToInt(w) < Len(c) THEN DocV(c[WToInt(w) + 1], x) ELSE Absent
RECURSIVE Descend(_, _)
Descend(v, x) ==
  IF v.t = "null" THEN <<>>
  ELSE LET c == Kids(v.n, x)
       IN  FoldLeft(LAMBDA s, i : s \o Descend(DocV(i, x), x), Yield(v), c)

--------------------------------------------------------------------------
(* Strings *)
RECURSIVE Split(_, _, _, _, _)
Split(s, sep, from, keep, acc) ==
  LET m == {j \in from..(Len(s) - Len(sep)) : StartsWith(s, j, sep)}
      j == MinOf(m)
      add(a, b) == IF a < b \/ keep THEN Append(acc, Slice(s, a, b)) ELSE acc
  IN  IF s = <<>> THEN <<>>
      ELSE IF sep = <<>> THEN <<s>>
      ELSE IF m = {} THEN add(from, Len(s))
      ELSE Split(s, sep, j + Len(sep), keep, add(from, j))
Steps(a, b) == IF a <= b THEN [j \in 1..(b - a + 1) |-> a + j - 1] ELSE [j \in 1..(a - b + 1) |-> a - j + 1]
(* The integers from a to b, upwards or downwards (a and b are 64 bit integers) *)
StepsW(a, b) == IF WSmall(a) /\ WSmall(b) THEN LET q == Steps(WToInt(a), WToInt(b)) IN [j \in 1..Len(q) |-> WInt(q[j])]
                ELSE LET up == WCmp(a, b) <= 0
                         n == WToInt(WSub(IF up THEN b ELSE a, IF up THEN a ELSE b).w)
                     IN  [j \in 1..(n + 1) |-> WAdd(a, WInt(IF up THEN j - 1 ELSE 1 - j)).w]
StepsCount(a, b) == LET d == WSub(a, b) IN IF ~d.ok \/ ~WSmall(d.w) THEN -1 ELSE LET n == WToInt(d.w) IN IF n < 0 THEN 1 - n ELSE 1 + n   \* -1: too many
Clamp(w) == IF WSmall(w) THEN WToInt(w) ELSE IF WIsNeg(w) THEN 0 - 16777216 ELSE 16777216    \* no document has as many values
MaxUnpack == 6000
HugeFirst == 60
(* Does the expression yield too many values to be replaced by them? *)
FoldLimit == 10000
TooMany(e) == /\ e.k = "unpack"
              /\ e.e.k = "const"
              /\ \E j \in 1..Len(e.e.vs) : /\ e.e.vs[j].t = "range"
                                          /\ LET c == StepsCount(e.e.vs[j].p[1], e.e.vs[j].p[2]) IN c < 0 \/ c > FoldLimit

FnNames == << <<B("any"), "any">>, <<B("each"), "each">>, <<B("all"), "each">>, <<B("count"), "count">>, <<B("trace"), "trace">>,
              <<B("range"), "range">>, <<B("re"), "re">>, <<B("arr"), "arr">>, <<B("split"), "split">>, <<B("select"), "select">>,
              <<B("sum"), "sum">>, <<B("keys"), "keys">>, <<B("probe"), "probe">> >>
FnOf(name) == LET m == {j \in 1..Len(FnNames) : SameName(FnNames[j][1], name)}
              IN  IF m = {} THEN "none" ELSE FnNames[CHOOSE j \in m : TRUE][2]
WarnIndex == B("Invalid subscript index type ")
WarnNull == B("Expression is alway null")
WarnAlways == B("Expression is always ")
Warning(m, d) == <<[k |-> "w", m |-> m, d |-> d]>>

StringS == B("string")

--------------------------------------------------------------------------
RECURSIVE Ev(_, _, _), BoolArgs(_, _, _, _, _), CountArgs(_, _, _, _, _), SumLoop(_, _, _, _, _, _, _), SumStep(_, _, _, _, _, _)

(* The single value of argument i: [pre |-> items, v |-> value]; dead if pre is *)
ArgV(a, i, t, v, x) ==
  LET s  == Ev(a[i], v, x)
      vs == {j \in 1..Len(s) : s[j].k = "v"}
      j1 == MinOf(vs)
      j2 == MinOf(vs \ {j1})
  IN  IF Len(a) < i THEN [pre |-> E1, v |-> Undef]
      ELSE IF vs = {} THEN [pre |-> s, v |-> Undef]
      ELSE IF s[j1].v.t \notin {t, "undef"} THEN [pre |-> Quiet(SubSeq(s, 1, j1)) \o E1, v |-> Undef]
      ELSE IF vs # {j1} THEN [pre |-> Quiet(SubSeq(s, 1, j2)) \o E1, v |-> Undef]
      ELSE [pre |-> Quiet(s), v |-> s[j1].v]
OptV(a, i, t, def, v, x) == IF Len(a) < i THEN [pre |-> <<>>, v |-> def] ELSE ArgV(a, i, t, v, x)
(* F is applied to the values of two arguments, after their items *)
Args2(p, q, F(_, _)) ==
  IF Dead(p.pre) THEN p.pre ELSE IF Dead(q.pre) THEN p.pre \o q.pre
  ELSE p.pre \o q.pre \o F(p.v, q.v)
IsUndef(v) == v.t = "undef"

BoolArgs(mode, a, i, v, x) ==
  LET s == Ev(a[i], v, x)
      stops == {j \in 1..Len(s) : s[j].k = "v" /\ \/ x.ph = "c" /\ IsUndef(s[j].v)
                                                  \/ Truthy(s[j].v) = (mode = "any")}
      j == MinOf(stops)
  IN  IF i > Len(a) THEN Yield(BoolV(mode = "each"))
      ELSE IF stops = {} THEN (IF Dead(s) THEN Quiet(s) ELSE Quiet(s) \o BoolArgs(mode, a, i + 1, v, x))
      ELSE Quiet(Cut(s, j)) \o Yield(IF x.ph = "c" /\ IsUndef(s[j].v) THEN Undef ELSE BoolV(mode = "any"))

CountArgs(a, i, n, v, x) ==
  LET s == Ev(a[i], v, x)
      stops == {j \in 1..Len(s) : s[j].k = "v" /\ x.ph = "c" /\ IsUndef(s[j].v)}
      more == Len(SelectSeq(s, LAMBDA it : it.k = "v" /\ Truthy(it.v)))
  IN  IF i > Len(a) THEN Yield(IntV(WInt(n)))
      ELSE IF stops # {} THEN Quiet(Cut(s, MinOf(stops))) \o Yield(Undef)
      ELSE IF Dead(s) THEN Quiet(s)
      ELSE Quiet(s) \o CountArgs(a, i + 1, n + more, v, x)

(* Does e not refer to $sum? *)
RECURSIVE Sumless(_)
Sumless(e) ==
  CASE e.k = "field" -> ~SameName(e.s, SumName)
    [] e.k \in {"const", "child", "wild"} -> TRUE
    [] e.k = "index" -> Sumless(e.l) /\ e.r.k = "const" /\ \A j \in 1..Len(e.r.vs) : e.r.vs[j].t # "string"
    [] e.k \in {"path", "sub", "and", "or", "bin", "bword"} -> Sumless(e.l) /\ Sumless(e.r)
    [] e.k = "un" -> IF e.o = "null" THEN TRUE ELSE Sumless(e.e)
    [] e.k \in {"unpack", "uword"} -> Sumless(e.e)
    [] e.k = "call" -> \A j \in 1..Len(e.a) : Sumless(e.a[j])
(* The step e for one value: each value it yields becomes $sum, also for the parts of e that are evaluated later. *)
(* (That is modelled for the arguments of arr; for other parts of an expression with several values it is open.)  *)
SumStep(e, base, sum, n, undef, x) ==
  LET t == Ev(e, Overlay(base, sum, n), x)
      tv == Values(t)
  IN  IF e.k = "call" /\ FnOf(e.s) = "arr" /\ e.a # <<>>
      THEN FoldLeft(LAMBDA acc, b : IF Dead(acc.q) THEN acc
                                    ELSE LET r == SumStep(b, base, acc.sum, n, acc.undef, x) IN [r EXCEPT !.q = acc.q \o r.q],
                    [q |-> <<>>, sum |-> sum, undef |-> undef], e.a)
      ELSE IF Dead(t) THEN [q |-> IF Len(tv) >= 1 /\ ~Sumless(e) THEN U1 ELSE Quiet(t), sum |-> sum, undef |-> undef]
      ELSE IF Len(tv) = 0 \/ (Len(tv) > 1 /\ ~Sumless(e)) \/ (\E j \in 1..Len(tv) : tv[j].n.k = "ov") THEN [q |-> U1, sum |-> sum, undef |-> undef]
      ELSE [q |-> Quiet(t), sum |-> tv[Len(tv)], undef |-> undef \/ \E j \in 1..Len(tv) : IsUndef(tv[j])]

(* Items of s from j on are added up; sub is the expression, if any *)
SumLoop(s, j, sum, n, undef, sub, x) ==
  LET it == s[j]
      un == undef \/ IsUndef(it.v)
      r == SumStep(sub, it.v, sum, n, FALSE, x)
      plain == IF sum.t = "null" THEN it.v ELSE BinOp("add", sum, it.v)
      rest == SubSeq(Cut(s, j), j + 1, Len(Cut(s, j)))
  IN  IF j > Len(s) THEN Yield(IF undef THEN Undef ELSE sum)
      ELSE IF it.k # "v" THEN <<it>> \o (IF it.k \in {"e", "u"} THEN <<>> ELSE SumLoop(s, j + 1, sum, n, undef, sub, x))
      ELSE IF un THEN rest \o Yield(Undef)
      ELSE IF sub.k = "none" THEN
        (IF IsErr(plain) THEN Yield(plain) ELSE SumLoop(s, j + 1, plain, n + 1, FALSE, sub, x))
      ELSE IF Dead(r.q) THEN r.q
      ELSE r.q \o SumLoop(s, j + 1, r.sum, n + 1, r.undef, sub, x)

Select(a, v, x) ==
  Args2(ArgV(a, 2, "int", v, x), OptV(a, 3, "int", IntV(WInt(1)), v, x), LAMBDA iv, cv :
    IF IsUndef(iv) \/ IsUndef(cv) THEN Yield(Undef)
    ELSE LET idx == Clamp(iv.p)
             bounded == ~WIsNeg(cv.p) /\ cv.p # WZero /\ WAdd(iv.p, cv.p).ok    \* else all up to the end
             last == Clamp(WAdd(iv.p, cv.p).w)
             s == Ev(a[1], v, x)
             pos(j) == Len(SelectSeq(SubSeq(s, 1, j), LAMBDA it : it.k = "v")) - 1
             pass(j) == x.ph = "c" /\ IsUndef(s[j].v)
             stops == {j \in 1..Len(s) : s[j].k = "v" /\ ~pass(j) /\ bounded /\ pos(j) >= last}
             q == IF stops = {} THEN s ELSE Cut(s, MinOf(stops))
             keep(j) == IF j > Len(s) \/ (stops # {} /\ j > MinOf(stops)) THEN TRUE    \* closing traces
                        ELSE s[j].k # "v" \/ pass(j) \/ (pos(j) >= idx /\ j \notin stops)
         IN  FoldLeft(LAMBDA acc, j : IF keep(j) THEN Append(acc, q[j]) ELSE acc, <<>>, Ix(Len(q))))

Call(e, v, x) ==
  LET f == FnOf(e.s)
      a == e.a
      n == Len(a)
  IN
  CASE f = "none" -> E1
    [] f \in {"any", "each"} -> IF n = 0 THEN E1 ELSE BoolArgs(f, a, 1, v, x)
    [] f = "count" -> IF n = 0 THEN E1 ELSE CountArgs(a, 1, 0, v, x)
    [] f = "arr" -> IF n = 0 THEN Yield(NullV)
                    ELSE FoldLeft(LAMBDA acc, b : IF Dead(acc) THEN acc ELSE acc \o Ev(b, v, x), <<>>, a)
    [] f = "probe" -> IF x.ph = "c" THEN Yield(Undef)
                      ELSE IF n = 0 \/ a[1].k # "const" \/ Len(a[1].vs) # 1 THEN U1
                      ELSE <<[k |-> "p", s |-> TextOf(a[1].vs[1])]>>
                           \o FoldLeft(LAMBDA acc, b : IF Dead(acc) THEN acc ELSE acc \o Ev(b, v, x), <<>>, Tail(a))
    [] f = "range" -> IF n # 2 THEN E1
                      ELSE Args2(ArgV(a, 1, "int", v, x), ArgV(a, 2, "int", v, x), LAMBDA p, q :
                             Yield(IF IsUndef(p) \/ IsUndef(q) THEN Undef ELSE RangeV(p.p, q.p)))
    [] f = "re" -> IF n # 1 THEN E1
                   ELSE Bind(Ev(a[1], v, x), LAMBDA w : Yield(CASE IsUndef(w) -> Undef
                                                              [] w.t = "string" -> IF ReOK(w.p) THEN ReV(w.p) ELSE Unspec
                                                              [] w.t = "re" -> w
                                                              [] OTHER -> Err))
    [] f = "split" ->
         LET k == OptV(a, 3, "bool", BoolV(TRUE), v, x)
         IN  Args2(ArgV(a, 1, "string", v, x), ArgV(a, 2, "string", v, x), LAMBDA p, q :
               IF Dead(k.pre) THEN k.pre
               ELSE IF IsUndef(p) \/ IsUndef(q) \/ IsUndef(k.v) THEN k.pre \o Yield(Undef)
               ELSE LET parts == Split(p.p, q.p, 0, k.v.p, <<>>)
                    IN  k.pre \o [j \in 1..Len(parts) |-> [k |-> "v", v |-> StrV(parts[j])]])
    [] f = "select" -> IF n < 1 THEN E1 ELSE Select(a, v, x)
    [] f = "sum" ->
         LET s0 == IF n = 3 THEN Ev(a[3], v, x) ELSE Yield(IntV(WZero))
             vs == Values(s0)
             undef == \E j \in 1..Len(vs) : IsUndef(vs[j])
         IN  IF n < 1 \/ n > 3 THEN E1
             ELSE IF Dead(s0) THEN Quiet(s0)
             ELSE Quiet(s0) \o SumLoop(Ev(a[1], v, x), 1, vs[Len(vs)], 0, undef, IF n >= 2 THEN a[2] ELSE [k |-> "none"], x)
    [] f = "keys" -> IF n # 1 THEN E1
                     ELSE Bind(Ev(a[1], v, x), LAMBDA w :
                            IF x.ph = "c" /\ IsUndef(w) THEN Yield(w)
                            ELSE LET ks == KeysOf(w.n, x) IN [j \in 1..Len(ks) |-> [k |-> "v", v |-> StrV(IF ks[j] = <<>> THEN <<>> ELSE Spelling(ks[j], x))]])
    [] f = "trace" ->
         IF n < 1 THEN E1
         ELSE Args2(OptV(a, 2, "int", IntV(WInt(-1)), v, x), OptV(a, 3, "string", StrV(Show(a[1])), v, x), LAMBDA l, nm :
                IF x.ph = "c" THEN Yield(Undef)
                ELSE LET s == Bind(Ev(a[1], v, x), LAMBDA w : <<[k |-> "tv", id |-> e.id, v |-> w], [k |-> "v", v |-> w]>>)
                     IN  <<[k |-> "to", id |-> e.id, s |-> nm.p, lim |-> IF WSmall(l.p) THEN WToInt(l.p) ELSE -1]>> \o s
                         \o (IF Dead(s) THEN <<>> ELSE <<[k |-> "tc", id |-> e.id]>>))

Ev(e, v, x) ==
  CASE e.k = "const" -> FoldLeft(LAMBDA acc, w : IF Dead(acc) THEN acc ELSE acc \o Yield(w), <<>>, e.vs)
    [] e.k = "field" ->
         Yield(IF IsUndef(v) THEN Undef
               ELSE IF e.s = SelfS THEN v
               ELSE IF ~HasNode(v) THEN NullV
               ELSE LET g == GetIn(v.n, e.s, x) IN IF g.t = "absent" THEN NothingV(x) ELSE g)
    [] e.k = "child" ->
         IF x.ph = "c" THEN Yield(Undef)
         ELSE LET c == Kids(v.n, x)
              IN  IF c = <<>> THEN Yield(NullV) ELSE [j \in 1..Len(c) |-> [k |-> "v", v |-> DocV(c[j], x)]]
    [] e.k = "wild" ->
         IF x.ph = "c" THEN Yield(Undef)
         ELSE IF ~HasNode(v) THEN Yield(v)
         ELSE OrNothing(Descend(v, x), x)
    [] e.k = "path" ->
         LET missing(w) == IsUndef(w) \/ (w.t = "null" /\ ~HasNode(w))
             miss(w) == IF IsUndef(w) THEN Unknown(x) ELSE <<>>
         IN  OrNothing(Bind(Ev(e.l, v, x), LAMBDA l : IF missing(l) THEN miss(l) ELSE
                         Bind(Ev(e.r, l, x), LAMBDA r : IF missing(r) THEN miss(r) ELSE Yield(r))), x)
    [] e.k = "sub" ->
         OrNothing(Bind(Ev(e.l, v, x), LAMBDA l :
                     Bind(Ev(e.r, l, x), LAMBDA r : IF IsUndef(r) THEN Unknown(x) ELSE IF Truthy(r) THEN Yield(l) ELSE <<>>)), x)
    [] e.k = "index" ->
         OrNothing(Bind(Ev(e.l, v, x), LAMBDA l :
                     Bind(Ev(e.r, v, x), LAMBDA i :
                       IF ~HasNode(l) THEN Yield(BinOp("index", l, i))
                       ELSE LET g == CASE i.t = "int" -> AtIn(l.n, i.p, x)
                                       [] i.t = "string" -> GetIn(l.n, i.p, x)
                                       [] OTHER -> Absent
                            IN  IF g.t = "absent" THEN Warning(WarnIndex \o VTypeName[i.t], Show(e)) ELSE Yield(g))), x)
    [] e.k = "un" -> IF e.o = "null" THEN Yield(NullV)
                     ELSE Bind(Ev(e.e, v, x), LAMBDA w : Yield(UnOp(e.o, w, Len(Kids(w.n, x)))))
    [] e.k = "bin" -> Bind(Ev(e.l, v, x), LAMBDA l : Bind(Ev(e.r, v, x), LAMBDA r : Yield(BinOp(e.o, l, r))))
    [] e.k = "uword" -> Bind(Ev(e.e, v, x), LAMBDA w :
                         IF IsUndef(w) THEN Yield(w) ELSE IF Transient(w) /\ e.s = StringS THEN U1 ELSE E1)
    [] e.k = "bword" -> Bind(Ev(e.l, v, x), LAMBDA l : Bind(Ev(e.r, v, x), LAMBDA r :
                          IF IsUndef(l) \/ IsUndef(r) THEN Yield(Undef)
                          ELSE IF l.t # "range" /\ (l.t = "re" \/ r.t = "re") /\ (l.t = "null" \/ r.t = "null") THEN Yield(NullV)
                          ELSE E1))
    [] e.k = "and" -> Bind(Ev(e.l, v, x), LAMBDA l : IF IsUndef(l) \/ ~Truthy(l) THEN Yield(l) ELSE Ev(e.r, v, x))
    [] e.k = "or" -> Bind(Ev(e.l, v, x), LAMBDA l : IF IsUndef(l) \/ Truthy(l) THEN Yield(l) ELSE Ev(e.r, v, x))
    [] e.k = "unpack" ->
         OrNull(Bind(Ev(e.e, v, x), LAMBDA w :
           CASE w.t = "range" -> LET c == StepsCount(w.p[1], w.p[2])
                                 IN  IF c < 0 \/ c > MaxUnpack
                                     THEN LET first(i) == WAdd(w.p[1], WInt(IF WCmp(w.p[1], w.p[2]) <= 0 THEN i - 1 ELSE 1 - i)).w
                                          IN  [i \in 1..HugeFirst |-> [k |-> "v", v |-> IntV(first(i))]] \o U1    \* open after these
                                     ELSE LET q == StepsW(w.p[1], w.p[2])
                                          IN  [j \in 1..Len(q) |-> [k |-> "v", v |-> IntV(q[j])]]
             [] w.t = "re" -> E1
             [] OTHER -> Yield(w)))
    [] e.k = "call" -> OrNull(Call(e, v, x))

--------------------------------------------------------------------------
(* Compilation: constant parts are replaced by their values *)
CtxC(x) == [x EXCEPT !.ph = "c"]
CtxE(x) == [x EXCEPT !.ph = "e"]
Folded(a, w) == [st |-> "ok", a |-> a, w |-> w]
FoldBad(st) == [st |-> st, a |-> [k |-> "none"], w |-> <<>>]
Warns(s) == SelectSeq(s, LAMBDA it : it.k = "w")

Simp(e, w, x) ==
  LET s == Ev(e, Undef, CtxC(x))
      ends == {j \in 1..Len(s) : s[j].k \in {"e", "u"} \/ (s[j].k = "v" /\ IsUndef(s[j].v) /\ ~HasNode(s[j].v))}
      j == MinOf(ends)
      vs == Values(s)
      n == Len(vs)
      null == IF \A i \in 1..n : vs[i].t = "null" THEN Warning(WarnNull, Show(e)) ELSE <<>>
      bool == IF \A i \in 1..n : vs[i].t = "bool" /\ vs[i].p = vs[1].p
              THEN Warning(WarnAlways \o TextOf(vs[1]), Show(e)) ELSE <<>>
  IN  IF ends # {} THEN CASE s[j].k = "e" -> FoldBad("err")
                          [] s[j].k = "u" -> IF TooMany(e) THEN Folded(e, w) ELSE FoldBad("unspec")
                          [] OTHER -> Folded(e, w \o Warns(SubSeq(s, 1, j)))
      ELSE IF n = 0 THEN Folded(e, w \o Warns(s))
      ELSE Folded([k |-> "const", vs |-> vs], w \o Warns(s) \o null \o bool)

RECURSIVE Fold(_, _)
Fold(e, x) ==
  LET one(F(_)) == LET l == Fold(e.e, x) IN IF l.st # "ok" THEN l ELSE Simp(F(l.a), l.w, x)
      both(F(_, _), simp) ==
        LET l == Fold(e.l, x)
            r == Fold(e.r, x)
        IN  IF l.st # "ok" THEN l ELSE IF r.st # "ok" THEN r
            ELSE IF simp THEN Simp(F(l.a, r.a), l.w \o r.w, x) ELSE Folded(F(l.a, r.a), l.w \o r.w)
  IN
  CASE e.k \in {"field", "child", "wild"} -> Folded(e, <<>>)
    [] e.k = "const" -> IF e.vs[1].t = "unspec" THEN FoldBad("unspec") ELSE Folded(e, <<>>)
    [] e.k = "path" -> both(LAMBDA l, r : [e EXCEPT !.l = l, !.r = r], FALSE)
    [] e.k \in {"sub", "index", "and", "or", "bin", "bword"} -> both(LAMBDA l, r : [e EXCEPT !.l = l, !.r = r], TRUE)
    [] e.k = "un" -> IF e.o = "null" THEN (LET l == Fold(e.e, x) IN IF l.st # "ok" THEN l ELSE Folded(Const(NullV), l.w))
                     ELSE one(LAMBDA a : [e EXCEPT !.e = a])
    [] e.k \in {"unpack", "uword"} -> one(LAMBDA a : [e EXCEPT !.e = a])
    [] e.k = "call" ->
         LET r == FoldLeft(LAMBDA acc, b : IF acc.st # "ok" THEN acc ELSE
                             LET f == Fold(b, x) IN IF f.st # "ok" THEN f ELSE [st |-> "ok", a |-> Append(acc.a, f.a), w |-> acc.w \o f.w],
                           [st |-> "ok", a |-> <<>>, w |-> <<>>], e.a)
         IN  IF r.st # "ok" THEN r ELSE Simp([e EXCEPT !.a = r.a], r.w, x)

AnyS == B("any")
CallAny(a) == [k |-> "call", s |-> AnyS, a |-> <<a>>, id |-> 0]
(* [st, raw |-> tree as parsed, a |-> tree as compiled, w |-> warnings] *)
CompileToks(ts, any, wild, cs, x) ==
  LET p == ParseAll(ts, cs)
      f == Fold(p.a, x)
      iswild == wild /\ f.a.k = "const"
      raw == IF iswild THEN Bin("eq", [k |-> "wild"], p.a) ELSE p.a
      mid == IF iswild THEN Bin("eq", [k |-> "wild"], f.a) ELSE f.a
      fin == IF any THEN Simp(CallAny(mid), f.w, x) ELSE Folded(mid, f.w)
      bad(st) == [st |-> st, raw |-> raw, a |-> p.a, w |-> <<>>]
  IN  IF ~p.ok THEN bad("err")
      ELSE IF f.st # "ok" THEN bad(f.st)
      ELSE IF fin.st # "ok" THEN bad(fin.st)
      ELSE [st |-> "ok", raw |-> IF any THEN CallAny(raw) ELSE raw, a |-> fin.a, w |-> fin.w]
Compile(src, any, wild, cs, x) ==
  LET l == LexAll(src)
  IN  IF ~l.ok THEN [st |-> "err", raw |-> [k |-> "none"], a |-> [k |-> "none"], w |-> <<>>]
      ELSE CompileToks(l.toks, any, wild, cs, x)

(* What a caller of the compiled tree a on root node 1 sees that stops after max values (0: never) *)
Run(a, max, x) ==
  LET s == Ev(a, DocV(1, x), CtxE(x))
      js == {j \in 1..Len(s) : s[j].k = "v" /\ Len(SelectSeq(SubSeq(s, 1, j), LAMBDA it : it.k = "v")) = max}
  IN  IF max = 0 \/ js = {} THEN s ELSE Cut(s, MinOf(js))

(* Traces of a run: per name the number of calls and the values kept *)
TraceClose(acc) ==     \* acc.open: stack of [id, s, lim, vs]
  LET open == acc.open
      tab == acc.tab
      o == open[Len(open)]
      m == {i \in 1..Len(tab) : tab[i].s = o.s}
      old == IF m = {} THEN [s |-> o.s, calls |-> 0, vs |-> <<>>] ELSE tab[CHOOSE i \in m : TRUE]
      vs == IF o.lim < 0 THEN old.vs \o o.vs
            ELSE IF Len(old.vs) >= o.lim THEN SubSeq(old.vs, 1, MinN(Len(old.vs), o.lim))
            ELSE SubSeq(old.vs \o o.vs, 1, MinN(Len(old.vs) + Len(o.vs), o.lim))
      new == [s |-> o.s, calls |-> old.calls + 1, vs |-> vs]
  IN  [open |-> SubSeq(open, 1, Len(open) - 1),
       tab |-> IF m = {} THEN Append(tab, new) ELSE [tab EXCEPT ![CHOOSE i \in m : TRUE] = new]]
TraceStep(acc, it) ==
  CASE it.k = "to" -> [acc EXCEPT !.open = Append(@, [id |-> it.id, s |-> it.s, lim |-> it.lim, vs |-> <<>>])]
    [] it.k = "tv" -> [acc EXCEPT !.open = [i \in 1..Len(@) |-> IF @[i].id = it.id THEN [@[i] EXCEPT !.vs = Append(@, it.v)] ELSE @[i]]]
    [] it.k = "tc" -> TraceClose(acc)
    [] OTHER -> acc
TraceFold(s) == FoldLeft(TraceStep, [open |-> <<>>, tab |-> <<>>], s).tab
============================================================================
