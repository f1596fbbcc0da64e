------------------------------- MODULE MCEval ------------------------------
(* Every tree up to a depth on a few small documents:                       *)
(*  - compiling does not change what is yielded, neither values nor calls   *)
(*  - an error at compile time is one of a part that fails on every node    *)
(*  - `**` is the pre-order, a path is null if it matches nothing, ...      *)
(*  - a compiled tree compiles to itself                                    *)
EXTENDS Eval, Print, TLC, CSV, IOUtils, Json
CONSTANTS Focus, Leaves, Depth, Small
VARIABLES base, e, verdict

Doc1 == << [t |-> "object", p |-> <<>>, c |-> <<2, 3>>, ks |-> <<B("a"), B("b")>>],
           [t |-> "int", p |-> WInt(2), c |-> <<>>, ks |-> <<>>],
           [t |-> "array", p |-> <<>>, c |-> <<4, 5, 7>>, ks |-> <<>>],
           [t |-> "null", p |-> <<>>, c |-> <<>>, ks |-> <<>>],
           [t |-> "object", p |-> <<>>, c |-> <<6>>, ks |-> <<B("a")>>],
           [t |-> "string", p |-> B("x"), c |-> <<>>, ks |-> <<>>],
           [t |-> "bool", p |-> FALSE, c |-> <<>>, ks |-> <<>>] >>
Doc2 == << [t |-> "int", p |-> WInt(3), c |-> <<>>, ks |-> <<>>] >>
Doc3 == << [t |-> "array", p |-> <<>>, c |-> <<>>, ks |-> <<>>] >>
MCDocs == <<Doc1, Doc2, Doc3>>

Call1(f, x) == [k |-> "call", s |-> B(f), a |-> <<x>>, id |-> 0]
Call2(f, x, y) == [k |-> "call", s |-> B(f), a |-> <<x, y>>, id |-> 0]
One == Const(IntV(WInt(1)))
Num(n) == Const(IntV(WInt(n)))
P7 == Call2("probe", Num(7), One)
P8 == [k |-> "call", s |-> B("probe"), a |-> <<Num(8), Field(B("a")), Const(NullV)>>, id |-> 0]
LeafTrees ==
  CASE Focus = "fold" -> << Field(B("a")), One, [k |-> "child"], Field(SelfS), Const(NullV), Const(BoolV(FALSE)), P7, [k |-> "wild"], Const(StrV(B("x"))), Field(B("b")) >>
    [] Focus = "path" -> << Field(B("a")), [k |-> "child"], [k |-> "wild"], Num(0), Field(B("b")), Field(SelfS), Const(StrV(B("a"))), Const(NullV), Num(2) >>
    [] Focus = "logic" -> << Field(B("a")), [k |-> "child"], Const(BoolV(FALSE)), One, Const(NullV), Field(SelfS), [k |-> "wild"], Field(B("b")), Const(StrV(<<>>)) >>
    [] Focus = "fn" -> << [k |-> "child"], One, Field(B("a")), Const(NullV), Const(StrV(B("x"))), [k |-> "wild"], Num(2), Const(BoolV(FALSE)), Field(B("b")) >>
    [] Focus = "stop" -> << P7, [k |-> "child"], P8, One, Const(NullV), Field(B("a")), [k |-> "wild"], Field(SelfS) >>
    [] Focus = "diag" -> << [k |-> "child"], One, Field(B("a")), Const(NullV), [k |-> "wild"], Const(StrV(B("x"))), Field(B("b")) >>
L0 == {LeafTrees[j] : j \in 1..Leaves}
Fns1(F, x) == {Call1(f, x) : f \in F}
Fns2(F, x, y) == {Call2(f, x, y) : f \in F}
Call3(f, x, y, z) == [k |-> "call", s |-> B(f), a |-> <<x, y, z>>, id |-> 0]
Two(K, x, y) == {Node2(k, x, y) : k \in K}
Un1(x) ==
  CASE Focus = "fold" -> {Un(o, x) : o \in IF Small THEN {"neg", "not", "len"} ELSE {"neg", "not", "len", "bool", "typeof", "int", "null"}}
                         \cup {[k |-> "unpack", e |-> x]} \cup Fns1({"any", "each", "count", "arr", "sum", "keys"}, x)
                         \cup (IF Small THEN {} ELSE {[k |-> "uword", s |-> B("foo"), e |-> x]} \cup Fns1({"re", "trace"}, x))
    [] Focus = "path" -> {[k |-> "unpack", e |-> x], Un("typeof", x)} \cup Fns1({"arr", "keys"}, x)
    [] Focus = "logic" -> {Un("not", x), Un("bool", x)} \cup Fns1({"any", "each", "count"}, x)
    [] Focus = "fn" -> Fns1({"any", "each", "count", "arr", "sum", "keys", "re", "range", "split", "select", "trace"}, x) \cup {[k |-> "unpack", e |-> x]}
    [] Focus = "stop" -> {Un("not", x), Un("string", x), [k |-> "unpack", e |-> x]} \cup Fns1({"any", "each", "count", "arr", "sum", "keys", "trace"}, x)
    [] Focus = "diag" -> Fns1({"trace", "any", "arr", "count"}, x) \cup {Un("not", x)}
Bin2(x, y) ==
  CASE Focus = "fold" -> {Bin(o, x, y) : o \in IF Small THEN {"add", "div"} ELSE {"add", "div", "eq"}}
                         \cup Two({"path", "sub", "index", "and", "or"}, x, y)
                         \cup Fns2({"any", "arr", "select", "sum", "range"} \cup (IF Small THEN {} ELSE {"each", "count", "split", "trace"}), x, y)
                         \cup {Call3("select", x, Num(0), y), Call3("sum", x, One, y)}
    [] Focus = "path" -> Two({"path", "sub", "index"}, x, y) \cup (IF Small THEN {} ELSE Fns2({"arr"}, x, y))
    [] Focus = "logic" -> Two({"and", "or", "sub"}, x, y) \cup {Bin("eq", x, y)} \cup (IF Small THEN {} ELSE {Bin("lt", x, y)} \cup Fns2({"arr", "any", "each"}, x, y))
    [] Focus = "fn" -> Fns2({"any", "each", "count", "arr", "sum", "range", "split", "select"} \cup (IF Small THEN {} ELSE {"keys", "re", "trace"}), x, y)
                       \cup {Call3("select", x, Num(0), y), Call3("select", x, y, Num(2)), Call3("sum", x, Bin("add", Field(SumName), y), Num(3)), Call3("split", x, y, Const(BoolV(FALSE)))}
    [] Focus = "stop" -> Two({"and", "or", "sub", "path"} \cup (IF Small THEN {} ELSE {"index"}), x, y) \cup {Bin("add", x, y)}
                         \cup Fns2({"any", "each", "arr"} \cup (IF Small THEN {} ELSE {"count", "sum", "probe"}), x, y) \cup {Call3("select", x, Num(0), Num(1)), Call3("select", y, Num(1), Num(2))}
    [] Focus = "diag" -> Fns2({"trace", "arr", "any"}, x, y) \cup Two({"and", "index", "path", "sub"}, x, y) \cup {Call3("trace", x, Num(1), Const(StrV(B("t")))), Bin("add", x, y)}
L1 == L0 \cup UNION {Un1(x) : x \in L0} \cup UNION {Bin2(x, y) : x \in L0, y \in L0}

Emit(t) == IF "VT_EMIT" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(Src(t, FALSE))>>, IOEnv.VT_EMIT) ELSE TRUE

--------------------------------------------------------------------------
Unspecd(s) == \E j \in 1..Len(s) : s[j].k = "u"
Observed(s) == SelectSeq(s, LAMBDA it : it.k \in {"v", "p", "e"})
RECURSIVE Parts(_)
Parts(t) ==
  {t} \cup (CASE t.k \in {"path", "sub", "index", "and", "or", "bin", "bword"} -> Parts(t.l) \cup Parts(t.r)
              [] t.k \in {"un", "unpack", "uword"} -> Parts(t.e)
              [] t.k = "call" -> UNION {Parts(t.a[j]) : j \in 1..Len(t.a)}
              [] OTHER -> {})
(* A part without anything that depends on the model *)
RECURSIVE Closed(_)
Closed(t) ==
  CASE t.k = "const" -> TRUE
    [] t.k \in {"field", "child", "wild"} -> FALSE
    [] t.k \in {"path", "sub", "index", "and", "or", "bin", "bword"} -> Closed(t.l) /\ Closed(t.r)
    [] t.k \in {"un", "unpack", "uword"} -> Closed(t.e)
    [] t.k = "call" -> FnOf(t.s) \notin {"probe", "trace"} /\ \A j \in 1..Len(t.a) : Closed(t.a[j])
NoItems == <<>>
FailsEverywhere(t) ==
  \A d \in 1..Len(MCDocs) : \A i \in 1..Len(MCDocs[d]) :
    LET x == [ph |-> "e", doc |-> MCDocs[d]]
        s == Ev(t, DocV(i, x), x)
    IN  Dead(s)

(* Laws of single constructs *)
Items(t, x) == Ev(t, DocV(1, x), x)
NullOnly(vs) == Len(vs) = 1 /\ vs[1].t = "null" /\ ~HasNode(vs[1])
Fine(s) == ~Dead(s)
LawsOf(t, raw, x) ==
  CASE Dead(raw) -> "ok"
    \* paths are associative
    [] t.k = "path" /\ t.l.k = "path" ->
         LET s == Items(Node2("path", t.l.l, Node2("path", t.l.r, t.r)), x)
         IN  IF Fine(s) /\ Values(s) # Values(raw) THEN "assoc" ELSE "ok"
    \* a sub-query yields its left values only, each as often as the condition holds for it
    [] t.k = "sub" ->
         LET l == Values(Items(t.l, x))
             vs == Values(raw)
             n(v) == Len(SelectSeq(Values(Ev(t.r, v, x)), LAMBDA w : Truthy(w)))
             all == FoldLeft(LAMBDA acc, v : acc \o [j \in 1..n(v) |-> v], <<>>, l)
         IN  IF vs = all \/ (all = <<>> /\ NullOnly(vs)) THEN "ok" ELSE "filter"
    \* x and y is false or y, x or y is x or y
    [] t.k \in {"and", "or"} ->
         LET l == Values(Items(t.l, x))
             r == Values(Items(t.r, x))
             all == FoldLeft(LAMBDA acc, v : acc \o (IF Truthy(v) = (t.k = "or") THEN <<v>> ELSE r), <<>>, l)
         IN  IF Values(raw) = all THEN "ok" ELSE "logic"
    \* quantifiers
    [] t.k = "call" /\ Len(t.a) = 1 /\ FnOf(t.s) \in {"any", "each", "count"} ->
         LET vs == Values(Items(t.a[1], x))
             n == Len(SelectSeq(vs, LAMBDA v : Truthy(v)))
             s == Items(t.a[1], x)
             want == CASE FnOf(t.s) = "any" -> BoolV(n > 0) [] FnOf(t.s) = "each" -> BoolV(n = Len(vs)) [] OTHER -> IntV(WInt(n))
         IN  IF Fine(s) /\ Values(raw) # <<want>> THEN "quantifier" ELSE "ok"
    [] t.k = "wild" ->
         LET want == SelectSeq([j \in 1..Len(x.doc) |-> DocV(j, x)], LAMBDA v : v.t # "null")
         IN  IF Values(raw) = want \/ (want = <<>> /\ Values(raw) = <<DocV(1, x)>>) THEN "ok" ELSE "preorder"
    [] OTHER -> "ok"

Laws(t, d) ==
  LET x == [ph |-> "e", doc |-> MCDocs[d]]
      v == DocV(1, x)
      c == Fold(t, x)
      raw == Ev(t, v, x)
      opt == Ev(c.a, v, x)
      again == Fold(c.a, x)
  IN
  CASE c.st = "unspec" -> "ok"
    [] c.st = "err" -> IF \E p \in Parts(t) : FailsEverywhere(p) THEN "ok" ELSE "err"
    [] Unspecd(raw) -> "ok"
    [] Observed(raw) # Observed(opt) -> "fold"
    [] again.st # "ok" \/ again.a # c.a -> "again"
    [] ~Dead(raw) /\ ~HasValue(raw) /\ t.k \in {"path", "sub", "index", "call", "unpack", "const", "field", "child", "wild"} -> "empty"
    \* constant parts are replaced, others never
    [] t.k = "const" -> "ok"
    [] c.a.k = "const" /\ t.k \notin {"path"} /\ \E d2 \in 1..Len(MCDocs) : \E i \in 1..Len(MCDocs[d2]) :
         LET x2 == [ph |-> "e", doc |-> MCDocs[d2]] s2 == Ev(t, DocV(i, x2), x2)
         IN  ~Unspecd(s2) /\ (Dead(s2) \/ Values(s2) # c.a.vs) -> "const"
    [] OTHER -> LawsOf(t, raw, x)

MInit == base \in L1 /\ e = One /\ verdict = "none"
Next1(t) == {t} \cup Un1(t) \cup (IF Depth > 1 THEN UNION {Bin2(t, y) \cup Bin2(y, t) : y \in L0} ELSE {})
MNext == /\ verdict = "none"
         /\ UNCHANGED base
         /\ e' \in Next1(base)
         /\ Emit(e')
         /\ verdict' = (LET bad == {d \in 1..Len(MCDocs) : Laws(e', d) # "ok"}
                        IN  IF bad = {} THEN "ok" ELSE Laws(e', CHOOSE d \in bad : TRUE))
Sound == verdict \in {"none", "ok"}
Text == IF Sound THEN <<>> ELSE Src(e, FALSE)
MAlias == [verdict |-> verdict, e |-> e, text |-> Text, fold |-> IF Sound THEN <<>> ELSE Fold(e, [ph |-> "e", doc |-> Doc1])]
============================================================================
