------------------------------- MODULE MCVal -------------------------------
(* Laws of the scalar operators and casts, for all pairs of a set of values *)
EXTENDS Val, TLC, Integers, FiniteSets
CONSTANT N
VARIABLES a, b, verdict

I(n) == IntV(WInt(n))
TwoTo(k) == IntV(WShl(WInt(1), k))
Node(t) == V(t, <<>>, [k |-> "doc", id |-> 1])
D(ds, x) == FloatV(FOfDecimal(0, ds, x))
Values == << I(0), I(1), I(-1), I(2), I(-7), NullV, BoolV(TRUE), BoolV(FALSE), StrV(<<>>), StrV(B("7")), D(<<5>>, 0), D(<<2>>, 1), Undef, Node("object"), RangeV(WInt(1), WInt(3)), ReV(B("a.*")),
             StrV(B("abc")), StrV(B("-12.5e1x")), FloatV(FNeg(D(<<1,5>>, 1).p)), Node("array"), FloatV(FZero), I(3), I(10), TwoTo(31), TwoTo(53),
             IntV(WAdd(WShl(WInt(1), 53), WInt(1)).w), IntV(WInv(WShl(WInt(1), 63))), IntV(WShl(WInt(1), 63)), D(<<1>>, 0), D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, 19),
             StrV(B(" 42")), StrV(B("true")), RangeV(WInt(3), WInt(1)), StrV(B("9223372036854775808")), D(<<1>>, 20), I(255), I(-256), FloatV(FNeg(FZero)), I(63), ReV(B("")) >>

Cmps == {"eq", "ne", "lt", "le", "gt", "ge"}
BinOpsAll == {"add", "sub", "mul", "div", "mod", "band", "bor", "bxor", "shl", "shr", "index"} \cup Cmps
UnOpsAll == {"typeof", "bool", "not", "string", "int", "float", "neg", "inv", "len"}
Types == {"undef", "null", "bool", "int", "float", "string", "object", "array", "range", "re", "err", "unspec"}
IsB(v) == v.t = "bool"
Is(v, t) == v.t = t
Neg(v) == UnOp("neg", v, 0)
Imp(p, q) == IF p THEN q ELSE TRUE
Known(v) == v.t \notin {"err", "unspec"}

\* (up to the sign of zero)
SameUpTo0(x, y) == x = y \/ (x.t = "float" /\ y.t = "float" /\ FIsZero(x.p) /\ FIsZero(y.p))
Bad2(x, y) ==
  LET op(o) == BinOp(o, x, y)
      po(o) == BinOp(o, y, x)
      re == x.t = "re" \/ y.t = "re"
      undef == x.t = "undef" \/ y.t = "undef"
      num == Numeric(x) /\ Numeric(y)
      cmp(o) == op(o).p
  IN
  CASE \E o \in BinOpsAll : op(o).t \notin Types -> "type"
    [] undef /\ \E o \in BinOpsAll : op(o).t # "undef" -> "undef"
    [] undef -> "ok"
    [] ~re /\ (~IsB(op("eq")) \/ ~IsB(op("ne")) \/ op("eq").p = op("ne").p) -> "complement"
    [] ~re /\ op("eq") # po("eq") -> "symmetry"
    [] re /\ op("eq") # po("eq") -> "symmetry of re"
    [] ~re /\ x.t # "range" /\ y.t # "range" /\ (\E o \in Cmps : ~IsB(op(o))) -> "comparisons are boolean"
    [] ~re /\ x.t # "range" /\ y.t # "range" /\ (op("lt") # po("gt") \/ op("le") # po("ge")) -> "mirror"
    [] (num \/ (x.t = "string" /\ y.t = "string")) /\ (cmp("le") # (cmp("lt") \/ cmp("eq")) \/ cmp("lt") = cmp("ge")) -> "total order"
    [] num /\ (op("add") # po("add") \/ op("mul") # po("mul")) -> "commutative"
    [] x.t = "int" /\ y.t = "int" /\ (\E o \in {"band", "bor", "bxor"} : op(o) # po(o)) -> "bits commutative"
    [] x.t = "int" /\ y.t = "int" /\ (LET s == BinOp("add", op("band"), op("bor")) t == op("add") IN Known(s) /\ Known(t) /\ s # t) -> "and plus or is plus"
    [] x.t = "int" /\ y.t = "int" /\ BinOp("bxor", op("bxor"), y) # x -> "xor twice"
    [] num /\ Known(Neg(y)) /\ Known(op("sub")) /\ ~SameUpTo0(BinOp("add", x, Neg(y)), op("sub")) -> "subtraction"
    [] x.t = "int" /\ y.t = "int" /\ y.p # WZero /\ Known(op("div")) /\ Known(op("mod"))
         /\ (LET m == BinOp("mul", op("div"), y) IN Known(m) /\ BinOp("add", m, op("mod")) # x) -> "quotient and remainder"
    [] num /\ Known(op("div")) /\ y.t = "float" /\ op("div").t # "float" -> "promotion"
    [] (x.t = "null" \/ y.t = "null") /\ ~re /\ x.t # "range" /\ y.t # "range" /\ ~(x.t = "string" \/ y.t = "string")
         /\ (\E o \in {"add", "sub", "mul", "div", "mod", "band", "bor", "bxor", "shl", "shr"} : op(o).t # "null") -> "null"
    [] x.t = "string" /\ y.t = "string" /\ Len(op("add").p) # Len(x.p) + Len(y.p) -> "concatenation"
    [] x.t = "re" /\ y.t = "string" /\ Truthy(op("eq")) = Truthy(op("ne")) -> "match or not"
    [] OTHER -> "ok"

Bad1(x) ==
  LET op(o) == UnOp(o, x, 2)
  IN
  CASE \E o \in UnOpsAll : op(o).t \notin Types -> "type"
    [] x.t = "undef" -> IF \E o \in UnOpsAll : op(o).t # "undef" THEN "undef" ELSE "ok"
    [] op("bool").p = op("not").p \/ op("bool").p # Truthy(x) -> "truth"
    [] op("typeof").t # "string" \/ op("string").t # "string" -> "text"
    [] UnOp("string", op("string"), 0) # op("string") -> "text of text"
    [] x.t = "int" /\ UnOp("int", op("string"), 0) # x -> "int to text and back"
    [] x.t \in {"int", "float"} /\ Known(Neg(x)) /\ Neg(Neg(x)) # x -> "negate twice"
    [] x.t = "int" /\ UnOp("inv", op("inv"), 0) # x -> "invert twice"
    [] x.t = "int" /\ WSmall(x.p) /\ UnOp("int", op("float"), 0) # x -> "int to float and back"
    [] Known(op("int")) /\ (op("int").t # "int" \/ UnOp("int", op("int"), 0) # op("int")) -> "int"
    [] Known(op("float")) /\ op("float").t # "float" -> "float"
    [] OTHER -> "ok"

Init == a \in 1..N /\ b = 0 /\ verdict = "none"
Next == /\ verdict = "none" /\ UNCHANGED a
        /\ b' \in 1..N
        /\ verdict' = (LET u == Bad1(Values[a]) IN IF u # "ok" THEN u ELSE Bad2(Values[a], Values[b']))
Sound == verdict \in {"none", "ok"}
MAlias == [verdict |-> verdict, a |-> Values[a], b |-> IF b = 0 THEN NullV ELSE Values[b]]
============================================================================
