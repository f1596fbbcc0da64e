------------------------------- MODULE MCBig -------------------------------
(* The arithmetic of the specification itself: algebraic laws, and agreement *)
(* with the checker's own 32 bit integers, over boundary values.            *)
EXTENDS Big, FiniteSets, TLC
Small == {-70000, -65536, -257, -256, -255, -129, -128, -3, -2, -1, 0, 1, 2, 3, 7, 10, 127, 128, 255, 256, 257, 1000, 65535, 65536, 70000}
Limits == {WInt(0), WInt(1), WInt(-1), WInt(2), WInt(3), WInt(-7), WInt(10), WInt(256), WMin, WNegate(WInt(1)),
           <<255,255,255,255,255,255,255,127>>, <<1,0,0,0,0,0,0,128>>, <<0,0,0,0,1,0,0,0>>, <<255,255,255,255,0,0,0,0>>,
           <<0,0,0,0,0,0,32,0>>, <<1,0,0,0,0,0,32,0>>, <<3,0,0,0,0,0,32,0>>, <<21,129,233,125,244,16,34,17>>}
Doubles == {FNorm(s, BNat(m), e) : s \in {0, 1}, m \in {0, 1, 3, 5, 10, 255, 65537}, e \in {-60, -8, -3, -1, 0, 1, 5, 53, 70}}
           \cup {FOfDecimal(0, <<1>>, -1), FOfDecimal(0, <<3>>, -1), FOfInt(<<255,255,255,255,255,255,255,127>>), FOfDecimal(1, <<1,7>>, 20)}
CONSTANT Full
VARIABLES kind, a, b, ok
Some(S) == IF Full THEN S ELSE {FNorm(s, BNat(m), e) : s \in {0, 1}, m \in {0, 3, 65537}, e \in {-60, -1, 0, 53}} \cup {FOfDecimal(0, <<1>>, -1), FOfInt(<<255,255,255,255,255,255,255,127>>)}
Init == \E k \in {"small", "wide", "dbl"} : kind = k /\ a \in (CASE k = "small" -> Small [] k = "wide" -> Limits [] OTHER -> Some(Doubles)) /\ b = <<>> /\ ok = TRUE

Abs(x) == IF x < 0 THEN 0 - x ELSE x
TQuo(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN 0 - q ELSE q
SmallLaws(b1) ==
  LET x == WInt(a)
      y == WInt(b1)
  IN  /\ WToInt(x) = a
      /\ WAdd(x, y) = [ok |-> TRUE, w |-> WInt(a + b1)] /\ WSub(x, y) = [ok |-> TRUE, w |-> WInt(a - b1)]
      /\ (Abs(a) < 30000 /\ Abs(b1) < 30000) => WMul(x, y) = [ok |-> TRUE, w |-> WInt(a * b1)]
      /\ b1 # 0 =>
                  /\ WQuo(x, y) = [ok |-> TRUE, w |-> WInt(TQuo(a, b1))]
                  /\ WRem(x, y) = [ok |-> TRUE, w |-> WInt(a - b1 * TQuo(a, b1))]
      /\ (WCmp(x, y) < 0) = (a < b1) /\ (WCmp(x, y) = 0) = (a = b1)
      /\ FToInt(FOfInt(x)).w = x
      /\ FCmp(FOfInt(x), FOfInt(y)) = WCmp(x, y)
WideLaws(b1) ==
  /\ WNegate(WNegate(a)) = a /\ WInv(a) = (LET n == WSub(WNegate(a), WInt(1)) IN IF n.ok THEN n.w ELSE WInv(a))
  /\ WAdd(a, b1) = WAdd(b1, a) /\ WMul(a, b1) = WMul(b1, a)
  /\ WAdd(a, b1).ok => WSub(WAdd(a, b1).w, b1) = [ok |-> TRUE, w |-> a]
  /\ (b1 # WZero /\ WQuo(a, b1).ok) =>
        LET q == WQuo(a, b1).w
            r == WRem(a, b1).w
        IN  /\ WAdd(WMul(q, b1).w, r).w = a
            /\ BCmp(WMag(r), WMag(b1)) < 0
            /\ r # WZero => WIsNeg(r) = WIsNeg(a)
  /\ (WCmp(a, b1) = 0) = (a = b1) /\ WCmp(a, b1) = 0 - WCmp(b1, a)
  /\ WXor(WXor(a, b1), b1) = a /\ WAnd(a, b1) = WInv(WOr(WInv(a), WInv(b1)))
  /\ \A n \in {0, 1, 7, 8, 9, 31, 32, 63} : WShr(WShl(a, n), n) = WAnd(a, WShr(WInv(WZero), n))
  /\ FOfInt(a).c = "fin"
Fin(f) == f.c = "fin"
DblLaws(b1) ==
  /\ FAdd(a, b1) = FAdd(b1, a) /\ FMul(a, b1) = FMul(b1, a)
  /\ (Fin(FSub(a, b1)) /\ ~(FIsZero(a) /\ FIsZero(b1))) => FCmp(FSub(a, b1), FZero) = FCmp(a, b1)       \* gradual underflow is out of range
  /\ FCmp(a, b1) = 0 - FCmp(b1, a)
  /\ ~FIsZero(b1) =>
                    /\ FQuo(b1, b1) = FNorm(0, <<1>>, 0)
                    /\ (Fin(FQuo(a, b1)) /\ BBits(a.m) + BBits(b1.m) <= 53) => FQuo(FMul(a, b1), b1) = a
  /\ (Fin(FAdd(a, b1)) /\ BBits(a.m) < 30 /\ BBits(b1.m) < 30 /\ MaxN(a.e, b1.e) - MinN(a.e, b1.e) < 20)
        => FCmp(FSub(FAdd(a, b1), b1), a) = 0
  /\ BBits(a.m) <= 53
Next == /\ b = <<>> /\ UNCHANGED <<kind, a>>
        /\ \E b1 \in (CASE kind = "small" -> Small [] kind = "wide" -> Limits [] OTHER -> Some(Doubles)) :
             b' = <<b1>> /\ ok' = (CASE kind = "small" -> SmallLaws(b1) [] kind = "wide" -> WideLaws(b1) [] OTHER -> DblLaws(b1))
Laws == ok
============================================================================
