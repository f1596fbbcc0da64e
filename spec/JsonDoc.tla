------------------------------- MODULE JsonDoc -----------------------------
(* JSON documents: a machine that reads a text byte by byte (a pushdown     *)
(* automaton that builds the value), the writer that is its inverse, and    *)
(* the dump of a model tree.  Bytes are numbers 0..255.                     *)
(*                                                                          *)
(* Values (all of one shape, so that they can be compared):                 *)
(*   [t |-> null/bool/int/dec/float/string/array/object,      p |-> payload,  *)
(*    ks |-> keys (objects only), vs |-> elements or members]               *)
EXTENDS Big

V(t, p) == [t |-> t, p |-> p, ks |-> <<>>, vs |-> <<>>]
NullV == V("null", <<>>)
BoolV(b) == V("bool", <<b>>)
IntV(w) == V("int", w)
StrV(s) == V("string", s)
FloatV(s, m, e) == V("float", <<s, m, e>>)
ArrV(vs) == [t |-> "array", p |-> <<>>, ks |-> <<>>, vs |-> vs]
ObjV(ks, vs) == [t |-> "object", p |-> <<>>, ks |-> ks, vs |-> vs]

---------------------------------------------------------------------------
(* The machine.  m: mode; st: stack of open containers                      *)
(*   [t, ks, vs, k (pending key)]; b: bytes of the token so far; n: what is *)
(* expected where a token may start; u: pending \u escapes.                 *)
Machine == [m |-> "ws", n |-> "value", st |-> <<>>, b |-> <<>>, neg |-> FALSE, fr |-> 0, ex |-> <<>>, xneg |-> FALSE, float |-> FALSE,
            key |-> FALSE, u |-> 0, hi |-> 0, c |-> 0, w |-> <<>>, r |-> NullV]
Fail(x) == [x EXCEPT !.m = "fail"]

Space == {32, 9, 10, 13}
IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
LastN(st) == st[Len(st)]
Utf8(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>

(* A value is complete *)
Done(x, v) ==
  IF x.st = <<>> THEN [x EXCEPT !.m = "ws", !.n = "end", !.r = v]
  ELSE LET f == LastN(x.st)
           g == IF f.t = "array" THEN [f EXCEPT !.vs = Append(@, v)]
                ELSE [f EXCEPT !.ks = Append(@, f.k), !.vs = Append(@, v)]
       IN  [x EXCEPT !.m = "ws", !.n = "comma", !.st = [@ EXCEPT ![Len(x.st)] = g]]
Open(x, t) == [x EXCEPT !.st = Append(@, [t |-> t, ks |-> <<>>, vs |-> <<>>, k |-> <<>>]), !.n = IF t = "array" THEN "value]" ELSE "key}"]
Close(x) == LET f == LastN(x.st) IN Done([x EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], [t |-> f.t, p |-> <<>>, ks |-> f.ks, vs |-> f.vs])
StrDone(x) == IF x.key THEN [x EXCEPT !.m = "ws", !.n = "colon", !.st = [@ EXCEPT ![Len(x.st)].k = x.b]] ELSE Done(x, StrV(x.b))

(* Numbers: integers that fit into 64 bits are integers, others are decimals *)
(* (digits, exponent), which stand for the nearest double                    *)
SmallDec(ds) == FoldLeft(LAMBDA a, d : IF a > 100000 THEN a ELSE a * 10 + d, 0, ds)
DecV(s, ds, p) == V("dec", <<s, ds, p>>)
NumDone(x) ==
  LET w == WMake(x.neg, BFromDigits(x.b))
      s == IF x.neg THEN 1 ELSE 0
  IN  Done(x, IF ~x.float /\ Len(x.b) < 40 /\ w.ok THEN IntV(w.w)
              ELSE DecV(s, x.b, (IF x.xneg THEN 0 - SmallDec(x.ex) ELSE SmallDec(x.ex)) - x.fr))

Lit == [t |-> <<116, 114, 117, 101>>, f |-> <<102, 97, 108, 115, 101>>, n |-> <<110, 117, 108, 108>>]

(* A byte between tokens *)
Token(x, c) ==
  LET value == x.n \in {"value", "value]"}
      fresh == [x EXCEPT !.b = <<>>, !.neg = FALSE, !.fr = 0, !.ex = <<>>, !.xneg = FALSE, !.float = FALSE]
  IN  IF c \in Space THEN x
      ELSE CASE c = 123 -> IF value THEN Open(x, "object") ELSE Fail(x)
             [] c = 91  -> IF value THEN Open(x, "array") ELSE Fail(x)
             [] c = 125 -> IF x.n = "key}" THEN Close(x) ELSE IF x.n = "comma" THEN (IF LastN(x.st).t = "object" THEN Close(x) ELSE Fail(x)) ELSE Fail(x)
             [] c = 93  -> IF x.n = "value]" THEN Close(x) ELSE IF x.n = "comma" THEN (IF LastN(x.st).t = "array" THEN Close(x) ELSE Fail(x)) ELSE Fail(x)
             [] c = 44  -> IF x.n = "comma" THEN [x EXCEPT !.n = IF LastN(x.st).t = "array" THEN "value" ELSE "key"] ELSE Fail(x)
             [] c = 58  -> IF x.n = "colon" THEN [x EXCEPT !.n = "value"] ELSE Fail(x)
             [] c = 34  -> IF value THEN [fresh EXCEPT !.m = "str", !.key = FALSE]
                           ELSE IF x.n \in {"key", "key}"} THEN [fresh EXCEPT !.m = "str", !.key = TRUE] ELSE Fail(x)
             [] c = 45  -> IF value THEN [fresh EXCEPT !.m = "minus", !.neg = TRUE] ELSE Fail(x)
             [] IsDigit(c) -> IF value THEN [fresh EXCEPT !.m = IF c = 48 THEN "zero" ELSE "int", !.b = <<c - 48>>] ELSE Fail(x)
             [] c = 116 -> IF value THEN [fresh EXCEPT !.m = "lit", !.w = Lit.t, !.b = <<c>>] ELSE Fail(x)
             [] c = 102 -> IF value THEN [fresh EXCEPT !.m = "lit", !.w = Lit.f, !.b = <<c>>] ELSE Fail(x)
             [] c = 110 -> IF value THEN [fresh EXCEPT !.m = "lit", !.w = Lit.n, !.b = <<c>>] ELSE Fail(x)
             [] OTHER -> Fail(x)

(* Continuation bytes: how many follow a lead byte, and the limits of the first of them *)
Follow(c) == IF c >= 194 /\ c <= 223 THEN 1 ELSE IF c >= 224 /\ c <= 239 THEN 2 ELSE IF c >= 240 /\ c <= 244 THEN 3 ELSE 0
LowNext(c) == IF c = 224 THEN 160 ELSE IF c = 240 THEN 144 ELSE 128
HighNext(c) == IF c = 237 THEN 159 ELSE IF c = 244 THEN 143 ELSE 191
Esc(c) == IF c \in {34, 92, 47} THEN c ELSE IF c = 98 THEN 8 ELSE IF c = 102 THEN 12 ELSE IF c = 110 THEN 10 ELSE IF c = 114 THEN 13 ELSE IF c = 116 THEN 9 ELSE -1
Surrogate(n) == n >= 55296 /\ n <= 57343

Step(x, c) ==
  CASE x.m = "fail" -> x
    [] x.m = "ws" -> Token(x, c)
    \* literals
    [] x.m = "lit" -> LET b == Append(x.b, c)
                      IN  IF c # x.w[Len(b)] THEN Fail(x)
                          ELSE IF Len(b) < Len(x.w) THEN [x EXCEPT !.b = b]
                          ELSE Done(x, IF c = 108 THEN NullV ELSE BoolV(IF Len(b) = 4 THEN 1 ELSE 0))
    \* numbers
    [] x.m = "minus" -> IF IsDigit(c) THEN [x EXCEPT !.m = IF c = 48 THEN "zero" ELSE "int", !.b = <<c - 48>>] ELSE Fail(x)
    [] x.m = "int" /\ IsDigit(c) -> [x EXCEPT !.b = Append(@, c - 48)]
    [] x.m \in {"zero", "int"} /\ c = 46 -> [x EXCEPT !.m = "dot", !.float = TRUE]
    [] x.m \in {"zero", "int", "frac"} /\ c \in {69, 101} -> [x EXCEPT !.m = "e", !.float = TRUE]
    [] x.m \in {"dot", "frac"} /\ IsDigit(c) -> [x EXCEPT !.m = "frac", !.b = Append(@, c - 48), !.fr = @ + 1]
    [] x.m = "e" /\ c \in {43, 45} -> [x EXCEPT !.m = "sign", !.xneg = (c = 45)]
    [] x.m \in {"e", "sign", "exp"} /\ IsDigit(c) -> [x EXCEPT !.m = "exp", !.ex = Append(@, c - 48)]
    [] x.m \in {"zero", "int", "frac", "exp"} -> Token(NumDone(x), c)
    [] x.m \in {"dot", "e", "sign"} -> Fail(x)
    \* strings
    [] x.m = "str" -> IF x.hi # 0 /\ c # 92 THEN Fail(x)                     \* a high surrogate has to be followed by a low one
                      ELSE IF c = 34 THEN StrDone(x)
                      ELSE IF c = 92 THEN [x EXCEPT !.m = "esc"]
                      ELSE IF c < 32 THEN Fail(x)
                      ELSE IF c < 128 THEN [x EXCEPT !.b = Append(@, c)]
                      ELSE IF Follow(c) > 0 THEN [x EXCEPT !.m = "utf", !.u = Follow(c), !.c = c, !.b = Append(@, c)]
                      ELSE Fail(x)
    [] x.m = "utf" -> IF c < LowNext(x.c) \/ c > HighNext(x.c) THEN Fail(x)
                      ELSE [x EXCEPT !.m = IF x.u = 1 THEN "str" ELSE "utf", !.u = @ - 1, !.c = 0, !.b = Append(@, c)]
    [] x.m = "esc" -> IF c = 117 THEN [x EXCEPT !.m = "u", !.u = 4, !.c = 0]
                      ELSE IF x.hi # 0 \/ Esc(c) < 0 THEN Fail(x)
                      ELSE [x EXCEPT !.m = "str", !.b = Append(@, Esc(c))]
    [] x.m = "u" -> LET n == x.c * 16 + HexVal(c)
                        low == n >= 56320 /\ n <= 57343
                    IN  IF HexVal(c) < 0 THEN Fail(x)
                        ELSE IF x.u > 1 THEN [x EXCEPT !.u = @ - 1, !.c = n]
                        ELSE IF x.hi # 0 THEN (IF low THEN [x EXCEPT !.m = "str", !.hi = 0, !.b = @ \o Utf8(65536 + (x.hi - 55296) * 1024 + (n - 56320))] ELSE Fail(x))
                        ELSE IF low THEN Fail(x)
                        ELSE IF Surrogate(n) THEN [x EXCEPT !.m = "str", !.hi = n]
                        ELSE [x EXCEPT !.m = "str", !.b = @ \o Utf8(n)]
End(x) == IF x.m \in {"zero", "int", "frac", "exp"} THEN NumDone(x) ELSE x
Read(s) == LET x == End(FoldLeft(Step, Machine, s)) IN [ok |-> x.m = "ws" /\ x.n = "end", v |-> x.r]

---------------------------------------------------------------------------
(* Order and equality *)
LessB(a, b) == \E i \in 1..(Len(a) + 1) : /\ \A j \in 1..i-1 : j <= Len(b) /\ a[j] = b[j]
                                         /\ IF i > Len(a) THEN Len(b) >= i ELSE i <= Len(b) /\ a[i] < b[i]
Distinct(ks) == \A i, j \in 1..Len(ks) : ks[i] = ks[j] => i = j
LowerB(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
(* Positions of the keys in the order of their bytes *)
Sorted(ks) == SortSeq(Ix(Len(ks)), LAMBDA i, j : LessB(ks[i], ks[j]))
RECURSIVE Ordered(_)     \* members of all objects in the order of their keys
Ordered(v) == LET o == Sorted(v.ks)
              IN  IF v.t = "object" THEN ObjV([i \in 1..Len(o) |-> v.ks[o[i]]], [i \in 1..Len(o) |-> Ordered(v.vs[o[i]])])
                  ELSE IF v.t = "array" THEN ArrV([i \in 1..Len(v.vs) |-> Ordered(v.vs[i])])
                  ELSE v
RECURSIVE KeysOf(_)
KeysOf(v) == {v.ks[i] : i \in 1..Len(v.ks)} \cup UNION {KeysOf(v.vs[i]) : i \in 1..Len(v.vs)}

(* Is the double (s, m, e) = (-1)^s * m * 2^e the one nearest to a decimal? *)
Pow5(n) == FoldLeft(LAMBDA a, i : BMulSmall(a, 390625), FoldLeft(LAMBDA a, i : BMulSmall(a, 5), <<1>>, Ix(n % 8)), Ix(n \div 8))
CmpScaled(a, x, b, y) == LET k == MinN(x, y) IN BCmp(BShl(a, x - k), BShl(b, y - k))     \* a * 2^x and b * 2^y

(* Is everything about the value specified: numbers in the range of doubles, keys that differ by more than letter case *)
Magnitude(v) == LET z == FoldLeft(LAMBDA a, i : IF a = i - 1 /\ v.p[2][i] = 0 THEN i ELSE a, 0, Ix(Len(v.p[2]))) IN Len(v.p[2]) - z + v.p[3]
ZeroDec(v) == \A i \in 1..Len(v.p[2]) : v.p[2][i] = 0
\* below the middle of the largest double and the next power of two
Bounded(v) == IF Magnitude(v) # 309 THEN Magnitude(v) < 309
              ELSE CmpScaled(BMul(BFromDigits(v.p[2]), Pow5(MaxN(v.p[3], 0))), v.p[3], BMul(BSub(BShl(<<1>>, 54), <<1>>), Pow5(MaxN(0 - v.p[3], 0))), 970) < 0
RECURSIVE Representable(_)
Representable(v) == /\ v.t = "dec" => (ZeroDec(v) \/ (Magnitude(v) > -320 /\ Bounded(v)))
                    /\ \A i \in 1..Len(v.vs) : Representable(v.vs[i])
RECURSIVE DistinctKeys(_)
DistinctKeys(v) == /\ Distinct([i \in 1..Len(v.ks) |-> LowerB(v.ks[i])])
                   /\ \A i \in 1..Len(v.vs) : DistinctKeys(v.vs[i])
Plain(v) == Representable(v) /\ DistinctKeys(v)

Nearest(ds, p, m, e) ==
  LET N == BFromDigits(ds)
      k == MinN(53 - BBits(m), e + 1074)
      M == BShl(m, k)                       \* 53 bits, or the last exponent
      E == e - k
      edge == BBits(m) = 1 /\ E > -1074     \* the neighbour below is closer
      even == BBit(M, 0) = 0
      left == BMul(N, Pow5(MaxN(p, 0)))
      five == Pow5(MaxN(0 - p, 0))
      high == CmpScaled(left, p, BMul(BAdd(BShl(M, 1), <<1>>), five), E - 1)
      low == IF edge THEN CmpScaled(left, p, BMul(BSub(BShl(M, 2), <<1>>), five), E - 2)
             ELSE CmpScaled(left, p, BMul(BSub(BShl(M, 1), <<1>>), five), E - 1)
  IN  k >= 0 /\ (high < 0 \/ (high = 0 /\ even)) /\ (low > 0 \/ (low = 0 /\ even))
SameNumber(v, f) == /\ v.p[1] = f[1]
                    /\ IF ZeroDec(v) THEN f[2] = <<>> ELSE f[2] # <<>> /\ Nearest(v.p[2], v.p[3], f[2], f[3])
RECURSIVE Same(_, _)     \* equal values (a checker cannot compare payloads of different types)
Same(a, b) == /\ a.t = b.t
              /\ a.p = b.p
              /\ a.ks = b.ks
              /\ Len(a.vs) = Len(b.vs) /\ \A i \in 1..Len(a.vs) : Same(a.vs[i], b.vs[i])
(* Does d, a tree of a model, show the value v?  Names may have a spelling that was used before (S) *)
RECURSIVE Shows(_, _, _)
Shows(d, v, S) ==
  /\ IF v.t = "dec" THEN d.t = "float" /\ SameNumber(v, d.p) ELSE d.t = v.t /\ d.p = v.p
  /\ Len(d.ks) = Len(v.ks) /\ \A i \in 1..Len(v.ks) : d.ks[i] = v.ks[i] \/ (d.ks[i] \in S /\ LowerB(d.ks[i]) = LowerB(v.ks[i]))
  /\ Len(d.vs) = Len(v.vs) /\ \A i \in 1..Len(v.vs) : Shows(d.vs[i], v.vs[i], S)

(* Trees of models may have the same name several times: then all members of the object are shown as arrays *)
Multi == <<95, 109, 117, 108, 116, 105, 109, 97, 112>>     \* _multimap
RECURSIVE Dumped(_)
Dumped(v) ==
  LET vs == [i \in 1..Len(v.vs) |-> Dumped(v.vs[i])]
      first == SelectSeq(Ix(Len(v.ks)), LAMBDA i : \A j \in 1..i-1 : v.ks[j] # v.ks[i])
      all(k) == LET is == SelectSeq(Ix(Len(v.ks)), LAMBDA i : v.ks[i] = k) IN ArrV([i \in 1..Len(is) |-> vs[is[i]]])
  IN  IF v.t = "object" THEN
        IF Distinct(v.ks) THEN ObjV(v.ks, vs)
        ELSE ObjV(Append([i \in 1..Len(first) |-> v.ks[first[i]]], Multi), Append([i \in 1..Len(first) |-> all(v.ks[first[i]])], BoolV(1)))
      ELSE IF v.t = "array" THEN ArrV(vs)
      ELSE v

---------------------------------------------------------------------------
(* A writer; style: 0 compact, 1 with spaces, 2 with \u escapes throughout *)
Hex4(n) == LET d(k) == IF k < 10 THEN 48 + k ELSE 87 + k IN <<d(n \div 4096), d((n \div 256) % 16), d((n \div 16) % 16), d(n % 16)>>
WriteStr(s, style) == <<34>> \o FoldLeft(LAMBDA a, c : a \o (IF c < 32 \/ (style = 2 /\ c < 128) THEN <<92, 117>> \o Hex4(c) ELSE IF c \in {34, 92} THEN <<92, c>> ELSE <<c>>), <<>>, s) \o <<34>>
Sep(style) == IF style = 1 THEN <<32, 10>> ELSE <<>>
Join(parts, sep) == FoldLeft(LAMBDA a, i : IF i = 1 THEN parts[i] ELSE a \o sep \o parts[i], <<>>, Ix(Len(parts)))
RECURSIVE Write(_, _)
Write(v, style) ==
  LET sp == Sep(style)
      vs == [i \in 1..Len(v.vs) |-> sp \o Write(v.vs[i], style) \o sp]
      ms == [i \in 1..Len(v.ks) |-> sp \o WriteStr(v.ks[i], style) \o sp \o <<58>> \o vs[i]]
  IN  CASE v.t = "null" -> Lit.n
        [] v.t = "bool" -> IF v.p[1] = 1 THEN Lit.t ELSE Lit.f
        [] v.t = "int" -> WDec(v.p)
        [] v.t = "string" -> WriteStr(v.p, style)
        [] v.t = "array" -> <<91>> \o sp \o Join(vs, <<44>>) \o <<93>>
        [] v.t = "object" -> <<123>> \o sp \o Join(ms, <<44>>) \o <<125>>
============================================================================
