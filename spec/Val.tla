-------------------------------- MODULE Val --------------------------------
(* Values of the language and its scalar operators.                         *)
(* A value is [t |-> type, p |-> payload, n |-> node]:                      *)
(*   t "undef" "null" "bool" "int" "float" "string" "object" "array"        *)
(*     "range" "re"                                                         *)
(*   p FALSE/TRUE, 8 bytes, double (Big), bytes, <<from, to>> (8 bytes each)*)
(*     or the text of the expression                                        *)
(*   n the model node that it was read from, NoNode if there is none        *)
(* An operator yields a value, Err, or Unspec where nothing is specified.   *)
EXTENDS Big, LexFn

(* Readable constants: bytes of an ASCII text *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
B(s) == [i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]]
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
SameName(a, b) == Len(a) = Len(b) /\ LowerAll(a) = LowerAll(b)

NoNode == [k |-> "none"]
V(t, p, n) == [t |-> t, p |-> p, n |-> n]
Undef == V("undef", <<>>, NoNode)
NullV == V("null", <<>>, NoNode)
BoolV(b) == V("bool", b, NoNode)
IntV(w) == V("int", w, NoNode)
FloatV(f) == V("float", f, NoNode)
StrV(s) == V("string", s, NoNode)
RangeV(a, b) == V("range", <<a, b>>, NoNode)
ReV(s) == V("re", s, NoNode)
Err == V("err", <<>>, NoNode)
Unspec == V("unspec", <<>>, NoNode)
IsErr(v) == v.t \in {"err", "unspec"}
Model(v) == v.t \in {"object", "array"}
Transient(v) == v.t \in {"range", "re"}
HasNode(v) == v.n.k # "none"

OfInt(r) == IF r.ok THEN IntV(r.w) ELSE Unspec        \* overflow is not specified
OfFloat(f) == IF f.c = "fin" THEN FloatV(f) ELSE Unspec
OfFTok(d) == IF d.k # "dec" \/ (d.k = "dec" /\ (Len(d.d.d) > 280 \/ d.d.x > 300 \/ d.d.x < -290)) THEN FUnspec ELSE FOfDecimal(0, d.d.d, d.d.x - Len(d.d.d))

TName == [bool |-> B("bool"), null |-> B("null"), int |-> B("int"), float |-> B("float"), string |-> B("string"),
          object |-> B("model"), array |-> B("model"), range |-> B("irange"), re |-> B("re")]
VTypeName == [undef |-> B("undef"), bool |-> B("bool"), null |-> B("null"), int |-> B("int"), float |-> B("float"), string |-> B("string"),
              object |-> B("object"), array |-> B("array"), range |-> B("transient"), re |-> B("transient")]
TrueS == B("true")
FalseS == B("false")
NullS == B("null")
DotDot == B("..")

--------------------------------------------------------------------------
(* Conversions *)
Truthy(v) == v.t # "undef" /\ v.t # "null" /\ (v.t = "bool" => v.p)

(* Text of a scalar *)
TextOf(v) ==
  CASE v.t = "null" -> NullS
    [] v.t = "bool" -> IF v.p THEN TrueS ELSE FalseS
    [] v.t = "int" -> WDec(v.p)
    [] v.t = "float" -> FDec(v.p)
    [] v.t = "string" -> v.p
    [] Model(v) -> <<>>
    [] v.t = "range" -> WDec(v.p[1]) \o DotDot \o WDec(v.p[2])
    [] v.t = "re" -> v.p

(* Text to number, as sscanf does it: leading white space, sign, digits; up to a NUL *)
CStr(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
NumStart(s) ==     \* [i, neg]
  LET i == SpanEnd(s, 0, IsSpace)
  IN  IF At(s, i) \in {43, 45} THEN [i |-> i + 1, neg |-> At(s, i) = 45] ELSE [i |-> i, neg |-> FALSE]
TextToInt(s0) ==
  LET s == CStr(s0)
      n == NumStart(s)
      j == SpanEnd(s, n.i, IsDigit)
      m == BFromDigits(DigitsOf(s, n.i, j))
  IN  IF j = n.i THEN IntV(WZero) ELSE IF j - n.i > 40 THEN Unspec ELSE OfInt(WMake(n.neg, m))
TextToFloat(s0) ==
  LET s == CStr(s0)
      n == NumStart(s)
      j == SpanEnd(s, n.i, IsDigit)
      frac == At(s, j) = Dot
      f == IF frac THEN SpanEnd(s, j + 1, IsDigit) ELSE j
      ds == DigitsOf(s, n.i, j) \o (IF frac THEN DigitsOf(s, j + 1, f) ELSE <<>>)
      x == ExpAt(s, f)
      special == Lower(At(s, n.i)) \in {105, 110} \/ (At(s, n.i) = 48 /\ Lower(At(s, n.i + 1)) = 120)   \* inf, nan, 0x
  IN  IF special THEN Unspec
      ELSE IF ds = <<>> THEN FloatV(FZero)
      ELSE IF ~x.ok \/ x.val > 90 \/ x.val < -90 \/ Len(ds) > 40 THEN Unspec
      ELSE OfFloat(FOfDecimal(IF n.neg THEN 1 ELSE 0, ds, (j - n.i) - Len(ds) + x.val))

ToInt(v) ==
  CASE v.t = "null" \/ Model(v) -> IntV(WZero)
    [] v.t = "bool" -> IntV(WInt(IF v.p THEN 1 ELSE 0))
    [] v.t = "int" -> IntV(v.p)
    [] v.t = "float" -> OfInt(FToInt(v.p))
    [] v.t = "string" -> TextToInt(v.p)
    [] OTHER -> Err
ToFloat(v) ==
  CASE v.t = "null" \/ Model(v) -> FloatV(FZero)
    [] v.t = "bool" -> FloatV(IF v.p THEN FOfInt(WInt(1)) ELSE FZero)
    [] v.t = "int" -> FloatV(FOfInt(v.p))
    [] v.t = "float" -> FloatV(v.p)
    [] v.t = "string" -> TextToFloat(v.p)
    [] OTHER -> Err

--------------------------------------------------------------------------
(* Regular expressions: alternatives of sequences of . literals, groups and *)
(* simple sets with * + ?.  Everything else is not specified.               *)
ReSpecial == {92, 94, 36, 123, 125, 42, 43, 63, 41, 93}      \* \ ^ $ { } * + ? ) ]
RECURSIVE ReAlt(_, _, _), ReSeq(_, _, _)
(* [ok, i, r]: r a set of sequences of [a |-> atom, q |-> quantifier] *)
ReSeq(s, i, acc) ==
  LET c == At(s, i)
      end == ~Has(s, i) \/ c = 124 \/ c = 41
      close == {j \in i..Len(s)-1 : At(s, j) = 93}
      cj == CHOOSE j \in close : \A k \in close : j <= k
      group == ReAlt(s, i + 1, <<>>)
      set == SubSeq(s, i + 2, cj)
      setok == close # {} /\ set # <<>> /\ \A k \in 1..Len(set) : IsAlnum(set[k])
      atom == CASE c = 46 -> [ok |-> TRUE, i |-> i + 1, a |-> [k |-> "dot"]]
                [] c = 40 -> IF At(s, i + 1) = 63 \/ ~group.ok \/ At(s, group.i) # 41 THEN [ok |-> FALSE]
                             ELSE [ok |-> TRUE, i |-> group.i + 1, a |-> [k |-> "grp", r |-> group.r]]
                [] c = 91 -> IF ~setok THEN [ok |-> FALSE] ELSE [ok |-> TRUE, i |-> cj + 1, a |-> [k |-> "set", s |-> {set[k] : k \in 1..Len(set)}]]
                [] c \in ReSpecial \/ c >= 128 \/ c < 32 -> [ok |-> FALSE]
                [] OTHER -> [ok |-> TRUE, i |-> i + 1, a |-> [k |-> "lit", c |-> c]]
      q == At(s, atom.i)
      quant == Has(s, atom.i) /\ q \in {42, 43, 63}
  IN  IF end THEN [ok |-> TRUE, i |-> i, r |-> acc]
      ELSE IF ~atom.ok THEN [ok |-> FALSE]
      ELSE IF quant /\ At(s, atom.i + 1) \in {42, 43, 63, 123} THEN [ok |-> FALSE]
      ELSE ReSeq(s, IF quant THEN atom.i + 1 ELSE atom.i, Append(acc, [a |-> atom.a, q |-> IF quant THEN q ELSE 0]))
ReAlt(s, i, acc) ==
  LET r == ReSeq(s, i, <<>>)
  IN  IF ~r.ok THEN [ok |-> FALSE]
      ELSE IF At(s, r.i) = 124 THEN ReAlt(s, r.i + 1, Append(acc, r.r))
      ELSE [ok |-> TRUE, i |-> r.i, r |-> Append(acc, r.r)]
ReParse(s) == LET r == ReAlt(s, 0, <<>>) IN IF r.ok /\ r.i = Len(s) THEN r ELSE [ok |-> FALSE]
ReOK(s) == ReParse(s).ok

RECURSIVE ReEnds(_, _, _), ReItem(_, _, _), ReStar(_, _, _)
(* Positions reachable from the positions at *)
ReAtom(a, s, at) ==
  CASE a.k = "dot" -> {p + 1 : p \in {p \in at : Has(s, p) /\ At(s, p) \notin {10, 13}}}
    [] a.k = "lit" -> {p + 1 : p \in {p \in at : Has(s, p) /\ At(s, p) = a.c}}
    [] a.k = "set" -> {p + 1 : p \in {p \in at : Has(s, p) /\ At(s, p) \in a.s}}
    [] a.k = "grp" -> UNION {ReEnds(a.r[n], s, at) : n \in 1..Len(a.r)}
ReStar(a, s, at) == LET next == at \cup ReAtom(a, s, at) IN IF next = at THEN at ELSE ReStar(a, s, next)
ReItem(x, s, at) == CASE x.q = 0 -> ReAtom(x.a, s, at)
                      [] x.q = 63 -> at \cup ReAtom(x.a, s, at)
                      [] x.q = 42 -> ReStar(x.a, s, at)
                      [] x.q = 43 -> ReStar(x.a, s, ReAtom(x.a, s, at))
ReEnds(seq, s, at) == IF seq = <<>> THEN at ELSE ReEnds(Tail(seq), s, ReItem(Head(seq), s, at))
ReMatches(re, s) == Len(s) \in ReAtom([k |-> "grp", r |-> ReParse(re).r], s, {0})

--------------------------------------------------------------------------
(* Unary operators *)
SizeOps == {"len"}
UnOp(o, v, size) ==        \* size: number of children, of a container
  IF v.t = "undef" THEN Undef ELSE
  CASE o = "typeof" -> StrV(TName[v.t])
    [] o = "bool" -> BoolV(Truthy(v))
    [] o = "not" -> BoolV(~Truthy(v))
    [] o = "string" -> StrV(TextOf(v))
    [] o = "int" -> ToInt(v)
    [] o = "float" -> ToFloat(v)
    [] o = "neg" -> CASE v.t = "int" -> OfInt(WSub(WZero, v.p))
                      [] v.t = "float" -> FloatV(FNeg(v.p))
                      [] OTHER -> Err
    [] o = "inv" -> CASE v.t = "int" -> IntV(WInv(v.p))
                      [] v.t = "null" -> NullV
                      [] OTHER -> Err
    [] o = "len" -> CASE v.t = "string" -> IntV(WInt(Len(v.p)))
                      [] Model(v) -> IntV(WInt(size))
                      [] v.t = "null" -> NullV
                      [] v.t = "range" -> OfInt(IF WCmp(v.p[1], v.p[2]) <= 0 THEN WSub(v.p[2], v.p[1]) ELSE WSub(v.p[1], v.p[2]))
                      [] OTHER -> Err

--------------------------------------------------------------------------
(* Binary operators *)
Numeric(v) == v.t \in {"int", "float"}
AsF(v) == IF v.t = "int" THEN FOfInt(v.p) ELSE v.p
NumCmp(a, b) == IF a.t = "int" /\ b.t = "int" THEN WCmp(a.p, b.p) ELSE FCmp(AsF(a), AsF(b))
StrCmp(a, b) ==
  LET n == MinN(Len(a), Len(b))
      d == {i \in 1..n : a[i] # b[i]}
      i == CHOOSE i \in d : \A j \in d : i <= j
  IN  IF d # {} THEN (IF a[i] < b[i] THEN -1 ELSE 1)
      ELSE IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
(* Comparable: [ok, c] *)
Order(a, b) ==
  IF Numeric(a) /\ Numeric(b) THEN [ok |-> TRUE, c |-> NumCmp(a, b)]
  ELSE IF a.t = "string" /\ b.t = "string" THEN [ok |-> TRUE, c |-> StrCmp(a.p, b.p)]
  ELSE IF a.t = "null" /\ b.t = "null" THEN [ok |-> TRUE, c |-> 0]
  ELSE [ok |-> FALSE, c |-> 0]
EqPlain(a, b) ==
  IF a.t = "bool" /\ b.t = "bool" THEN a.p = b.p
  ELSE LET o == Order(a, b) IN o.ok /\ o.c = 0
InRange(r, v) ==
  LET lo == IF WCmp(r.p[1], r.p[2]) <= 0 THEN r.p[1] ELSE r.p[2]
      hi == IF WCmp(r.p[1], r.p[2]) <= 0 THEN r.p[2] ELSE r.p[1]
  IN  IF Numeric(v) THEN NumCmp(IntV(lo), v) <= 0 /\ NumCmp(v, IntV(hi)) <= 0
      ELSE v.t = "range" /\ v.p = r.p

Shift(o, a, b) == IF ~WSmall(b.p) \/ WIsNeg(b.p) \/ WToInt(b.p) > 63 THEN Unspec
                  ELSE IntV(IF o = "shl" THEN WShl(a.p, WToInt(b.p)) ELSE WShr(a.p, WToInt(b.p)))
Arith(o, a, b) ==
  IF a.t = "int" /\ b.t = "int"
  THEN CASE o = "add" -> OfInt(WAdd(a.p, b.p))
         [] o = "sub" -> OfInt(WSub(a.p, b.p))
         [] o = "mul" -> OfInt(WMul(a.p, b.p))
         [] o = "div" -> IF b.p = WZero THEN Err ELSE OfInt(WQuo(a.p, b.p))
         [] o = "mod" -> IF b.p = WZero THEN Err ELSE OfInt(WRem(a.p, b.p))
  ELSE IF ~(Numeric(a) /\ Numeric(b)) \/ o = "mod" THEN Err
  ELSE CASE o = "add" -> OfFloat(FAdd(AsF(a), AsF(b)))
         [] o = "sub" -> OfFloat(FSub(AsF(a), AsF(b)))
         [] o = "mul" -> OfFloat(FMul(AsF(a), AsF(b)))
         [] o = "div" -> IF FIsZero(AsF(b)) THEN Err ELSE OfFloat(FQuo(AsF(a), AsF(b)))

PlainOp(o, a, b) ==      \* neither undefined nor transient
  LET null == a.t = "null" \/ b.t = "null"
      str == a.t = "string" \/ b.t = "string"
  IN
  CASE o = "add" -> IF Model(a) /\ Model(b) THEN NullV
                    ELSE IF str THEN (IF Model(a) \/ Model(b) THEN NullV ELSE StrV(TextOf(a) \o TextOf(b)))
                    ELSE IF null THEN NullV ELSE Arith(o, a, b)
    [] o \in {"sub", "mul", "div", "mod"} -> IF null THEN NullV ELSE Arith(o, a, b)
    [] o \in {"band", "bor", "bxor", "shl", "shr"} ->
         IF null THEN NullV
         ELSE IF a.t # "int" \/ b.t # "int" THEN Err
         ELSE CASE o = "band" -> IntV(WAnd(a.p, b.p))
                [] o = "bor" -> IntV(WOr(a.p, b.p))
                [] o = "bxor" -> IntV(WXor(a.p, b.p))
                [] OTHER -> Shift(o, a, b)
    [] o = "eq" -> BoolV(EqPlain(a, b))
    [] o = "ne" -> BoolV(~EqPlain(a, b))
    [] o = "lt" -> BoolV(Order(a, b).ok /\ Order(a, b).c < 0)
    [] o = "le" -> BoolV(Order(a, b).ok /\ Order(a, b).c <= 0)
    [] o = "gt" -> BoolV(Order(a, b).ok /\ Order(a, b).c > 0)
    [] o = "ge" -> BoolV(Order(a, b).ok /\ Order(a, b).c >= 0)
    [] o = "index" -> IF null THEN NullV
                      ELSE IF a.t = "string" /\ b.t = "int" THEN
                        (IF WSmall(b.p) /\ WToInt(b.p) >= 0 /\ WToInt(b.p) < Len(a.p) THEN StrV(<<a.p[WToInt(b.p) + 1]>>) ELSE NullV)
                      ELSE Err

BinOp(o, a, b) ==
  IF a.t = "undef" \/ b.t = "undef" THEN Undef
  ELSE IF a.t = "range" \/ (b.t = "range" /\ a.t # "re") THEN
    LET r == IF a.t = "range" THEN a ELSE b
        v == IF a.t = "range" THEN b ELSE a
    IN  CASE o = "eq" -> BoolV(InRange(r, v)) [] o = "ne" -> BoolV(~InRange(r, v)) [] OTHER -> Err
  ELSE IF a.t = "re" \/ b.t = "re" THEN
    LET r == IF a.t = "re" THEN a ELSE b
        v == IF a.t = "re" THEN b ELSE a
    IN  IF v.t = "null" THEN NullV
        ELSE IF o \notin {"eq", "ne"} THEN Err
        ELSE IF v.t = "string" THEN (IF ReMatches(r.p, v.p) = (o = "eq") THEN StrV(v.p) ELSE BoolV(FALSE))
        ELSE BoolV(o = "ne")
  ELSE PlainOp(o, a, b)
============================================================================
