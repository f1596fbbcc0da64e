-------------------------------- MODULE Big --------------------------------
(* Exact arithmetic for a checker whose integers have 32 bits:              *)
(*   naturals        sequences of base 256 digits, least significant first, *)
(*                   without leading zeros (zero is the empty sequence)     *)
(*   64 bit integers sequences of exactly 8 bytes, two's complement         *)
(*   doubles         [c |-> "fin", s |-> sign 0/1, m |-> natural, e |-> exp]*)
(*                   with value (-1)^s * m * 2^e and m odd, or m = 0, e = 0 *)
(*                   or [c |-> "unspec"] where nothing is specified         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

MinN(a, b) == IF a <= b THEN a ELSE b
MaxN(a, b) == IF a >= b THEN a ELSE b
Ix(n) == [i \in 1..n |-> i]
Pow2 == [i \in 0..30 |-> IF i = 0 THEN 1 ELSE 2^i]

--------------------------------------------------------------------------
(* Naturals *)
BTrim(a) == SubSeq(a, 1, FoldLeft(LAMBDA n, i : IF a[i] # 0 THEN i ELSE n, 0, Ix(Len(a))))
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BNat(n \div 256)
BDig(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
BFits(a) == Len(a) <= 3
BToNat(a) == BDig(a, 1) + 256 * BDig(a, 2) + 65536 * BDig(a, 3)

(* -1, 0, 1 *)
BCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA r, i : IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE r, 0, Ix(Len(a)))

BAdd(a, b) ==
  LET n == MaxN(Len(a), Len(b)) + 1
      r == FoldLeft(LAMBDA acc, i : LET t == acc[1] + BDig(a, i) + BDig(b, i)
                                    IN  <<t \div 256, Append(acc[2], t % 256)>>, <<0, <<>>>>, Ix(n))
  IN  BTrim(r[2])
BSub(a, b) ==     \* a >= b
  LET r == FoldLeft(LAMBDA acc, i : LET t == BDig(a, i) - BDig(b, i) - acc[1]
                                    IN  IF t < 0 THEN <<1, Append(acc[2], t + 256)>> ELSE <<0, Append(acc[2], t)>>,
                    <<0, <<>>>>, Ix(Len(a)))
  IN  BTrim(r[2])
BMulSmall(a, k) ==   \* k < 2^22
  IF k = 0 \/ a = <<>> THEN <<>>
  ELSE LET r == FoldLeft(LAMBDA acc, i : LET t == acc[1] + BDig(a, i) * k
                                         IN  <<t \div 256, Append(acc[2], t % 256)>>, <<0, <<>>>>, Ix(Len(a) + 3))
       IN  BTrim(r[2])
BZeros(n) == [i \in 1..n |-> 0]
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE FoldLeft(LAMBDA acc, i : BAdd(acc, IF b[i] = 0 THEN <<>> ELSE BZeros(i-1) \o BMulSmall(a, b[i])), <<>>, Ix(Len(b)))
BitLen8(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5
              ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE x
BBits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + BitLen8(a[Len(a)])
BShl(a, n) == IF a = <<>> THEN <<>> ELSE BMulSmall(BZeros(n \div 8) \o a, Pow2[n % 8])
BShr(a, n) ==
  LET q == n \div 8
      r == n % 8
      d == Pow2[r]
  IN  IF q >= Len(a) THEN <<>>
      ELSE BTrim([i \in 1..(Len(a) - q) |-> ((a[i+q] \div d) + BDig(a, i+q+1) * Pow2[8 - r]) % 256])
BBit(a, n) == (BDig(a, n \div 8 + 1) \div Pow2[n % 8]) % 2           \* bit n, counted from 0
(* any of the lowest n bits set? *)
BLow(a, n) == \E i \in 1..Len(a) : a[i] # 0 /\ (8 * i <= n \/ (8 * (i - 1) < n /\ a[i] % Pow2[n - 8 * (i - 1)] # 0))
BTrailing(a) ==    \* number of trailing zero bits; a # 0
  LET i == CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A j \in 1..i-1 : a[j] = 0
      b == CHOOSE b \in 0..7 : a[i] % Pow2[b + 1] # 0 /\ a[i] % Pow2[b] = 0
  IN  8 * (i - 1) + b
BDivSmall(a, k) ==   \* <<quotient, remainder>>, k < 2^22
  LET n == Len(a)
      r == FoldLeft(LAMBDA acc, i : LET t == acc[2] * 256 + a[n + 1 - i]
                                    IN  <<<<t \div k>> \o acc[1], t % k>>, <<<<>>, 0>>, Ix(n))
  IN  <<BTrim(r[1]), r[2]>>
BDivMod(a, b) ==     \* <<quotient, remainder>>
  IF BCmp(a, b) < 0 THEN <<<<>>, a>>
  ELSE LET n == BBits(a)
           step(acc, i) ==
             LET r1 == BShl(acc[2], 1)
                 r2 == IF BBit(a, n - i) = 1 THEN BAdd(r1, <<1>>) ELSE r1
             IN  IF BCmp(r2, b) >= 0 THEN <<Append(acc[1], 1), BSub(r2, b)>> ELSE <<Append(acc[1], 0), r2>>
           r == FoldLeft(step, <<<<>>, <<>>>>, Ix(n))
           bits == r[1]
           q == [k \in 1..((n + 7) \div 8) |->
                   FoldLeft(LAMBDA s, j : IF n - (8 * (k - 1) + j) >= 1
                                          THEN s + bits[n - (8 * (k - 1) + j)] * Pow2[j] ELSE s, 0, <<0,1,2,3,4,5,6,7>>)]
       IN  <<BTrim(q), r[2]>>
BPow10(n) == FoldLeft(LAMBDA a, i : BMulSmall(a, 10), <<1>>, Ix(n))
BFromDigits(ds) == FoldLeft(LAMBDA a, d : BAdd(BMulSmall(a, 10), BNat(d)), <<>>, ds)
(* decimal digits as ASCII bytes; at least one *)
RECURSIVE BDec(_)
BDec(a) == IF Len(a) = 0 THEN <<48>>
           ELSE LET d == BDivSmall(a, 10) IN IF d[1] = <<>> THEN <<48 + d[2]>> ELSE Append(BDec(d[1]), 48 + d[2])

--------------------------------------------------------------------------
(* 64 bit integers *)
WZero == <<0,0,0,0,0,0,0,0>>
WPad(a) == [i \in 1..8 |-> BDig(a, i)]
WIsNeg(w) == w[8] >= 128
WNegate(w) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == acc[1] + (255 - w[i]) IN <<t \div 256, Append(acc[2], t % 256)>>, <<1, <<>>>>, Ix(8))
  IN  r[2]
WMag(w) == IF WIsNeg(w) THEN BTrim(WNegate(w)) ELSE BTrim(w)
WMin == <<0,0,0,0,0,0,0,128>>
WFits(neg, m) == Len(m) < 8 \/ (Len(m) = 8 /\ (m[8] < 128 \/ (neg /\ m = WMin)))
(* Signed magnitude to integer, or overflow *)
WMake(neg, m) == IF ~WFits(neg, m) THEN [ok |-> FALSE, w |-> WZero]
                 ELSE [ok |-> TRUE, w |-> IF neg THEN WNegate(WPad(m)) ELSE WPad(m)]
WInt(n) == IF n < 0 THEN WNegate(WPad(BNat(0 - n))) ELSE WPad(BNat(n))
WSmall(w) == BFits(WMag(w))                       \* |w| < 2^24
WToInt(w) == IF WIsNeg(w) THEN 0 - BToNat(WMag(w)) ELSE BToNat(WMag(w))
(* Sum of two signed magnitudes *)
SAdd(n1, m1, n2, m2) ==
  IF n1 = n2 THEN [n |-> n1, m |-> BAdd(m1, m2)]
  ELSE IF BCmp(m1, m2) >= 0 THEN [n |-> n1, m |-> BSub(m1, m2)] ELSE [n |-> n2, m |-> BSub(m2, m1)]
WAdd(a, b) == LET r == SAdd(WIsNeg(a), WMag(a), WIsNeg(b), WMag(b)) IN WMake(r.n, r.m)
WSub(a, b) == LET r == SAdd(WIsNeg(a), WMag(a), ~WIsNeg(b), WMag(b)) IN WMake(r.n, r.m)
WMul(a, b) == WMake(WIsNeg(a) # WIsNeg(b), BMul(WMag(a), WMag(b)))
WQuo(a, b) == WMake(WIsNeg(a) # WIsNeg(b), BDivMod(WMag(a), WMag(b))[1])      \* truncates, b # 0
WRem(a, b) == WMake(WIsNeg(a), BDivMod(WMag(a), WMag(b))[2])
WCmp(a, b) ==
  IF WIsNeg(a) # WIsNeg(b) THEN (IF WIsNeg(a) THEN -1 ELSE 1)
  ELSE BCmp(BTrim(a), BTrim(b))
WAnd(a, b) == [i \in 1..8 |-> a[i] & b[i]]
WOr(a, b)  == [i \in 1..8 |-> a[i] | b[i]]
WXor(a, b) == [i \in 1..8 |-> a[i] ^^ b[i]]
WInv(a)    == [i \in 1..8 |-> 255 - a[i]]
WShl(a, n) == WPad(BShl(BTrim(a), n))
WShr(a, n) == WPad(BShr(BTrim(a), n))
WDec(w) == IF WIsNeg(w) THEN <<45>> \o BDec(WMag(w)) ELSE BDec(WMag(w))

--------------------------------------------------------------------------
(* Doubles *)
FUnspec == [c |-> "unspec"]
FNorm(s, m, e) == IF m = <<>> THEN [c |-> "fin", s |-> s, m |-> <<>>, e |-> 0]
                  ELSE LET t == BTrailing(m) IN [c |-> "fin", s |-> s, m |-> BShr(m, t), e |-> e + t]
(* Round m * 2^e (plus something smaller than 2^e if sticky) to 53 bits, half to even *)
FRound(s, m, e, sticky) ==
  LET n == BBits(m)
      k == n - 53
      q == BShr(m, k)
      half == BBit(m, k - 1) = 1
      below == sticky \/ BLow(m, k - 1)
      up == half /\ (below \/ BBit(q, 0) = 1)
      r == IF k <= 0 THEN FNorm(s, m, e) ELSE FNorm(s, IF up THEN BAdd(q, <<1>>) ELSE q, e + k)
  IN  IF sticky /\ k <= 0 THEN FUnspec       \* the caller has to provide enough bits
      ELSE IF n + e > 1000 \/ (m # <<>> /\ n + e < -1000) THEN FUnspec
      ELSE r
FZero == FNorm(0, <<>>, 0)
FOfInt(w) == FRound(IF WIsNeg(w) THEN 1 ELSE 0, WMag(w), 0, FALSE)
FIsZero(f) == f.m = <<>>
FNeg(f) == [f EXCEPT !.s = 1 - @]
FAdd(a, b) ==
  LET e == MinN(a.e, b.e)
      x == SAdd(a.s = 1, BShl(a.m, a.e - e), b.s = 1, BShl(b.m, b.e - e))
  IN  IF FIsZero(a) /\ FIsZero(b) THEN FNorm(IF a.s = 1 /\ b.s = 1 THEN 1 ELSE 0, <<>>, 0)
      ELSE IF FIsZero(a) THEN b ELSE IF FIsZero(b) THEN a
      ELSE IF a.e - b.e > 200 \/ b.e - a.e > 200 THEN FUnspec
      ELSE IF x.m = <<>> THEN FZero
      ELSE FRound(IF x.n THEN 1 ELSE 0, x.m, e, FALSE)
FSub(a, b) == FAdd(a, FNeg(b))
FXor(a, b) == IF a.s = b.s THEN 0 ELSE 1
FMul(a, b) == FRound(FXor(a, b), BMul(a.m, b.m), a.e + b.e, FALSE)
FQuo(a, b) ==    \* b # 0
  LET k == MaxN(0, 57 + BBits(b.m) - BBits(a.m))
      d == BDivMod(BShl(a.m, k), b.m)
  IN  IF FIsZero(a) THEN FNorm(FXor(a, b), <<>>, 0)
      ELSE FRound(FXor(a, b), d[1], a.e - k - b.e, d[2] # <<>>)
FCmp(a, b) ==
  LET e == MinN(a.e, b.e)
      c == BCmp(BShl(a.m, a.e - e), BShl(b.m, b.e - e))
  IN  IF FIsZero(a) /\ FIsZero(b) THEN 0
      ELSE IF FIsZero(a) THEN (IF b.s = 1 THEN 1 ELSE -1)
      ELSE IF FIsZero(b) THEN (IF a.s = 1 THEN -1 ELSE 1)
      ELSE IF a.s # b.s THEN (IF a.s = 1 THEN -1 ELSE 1)
      ELSE IF a.s = 1 THEN 0 - c ELSE c
(* Truncation to an integer: [ok, w] *)
FToInt(f) ==
  IF FIsZero(f) THEN [ok |-> TRUE, w |-> WZero]
  ELSE IF BBits(f.m) + f.e > 64 THEN [ok |-> FALSE, w |-> WZero]
  ELSE WMake(f.s = 1, IF f.e >= 0 THEN BShl(f.m, f.e) ELSE BShr(f.m, 0 - f.e))
(* ds * 10^p, ds a digit sequence *)
FOfDecimal(s, ds, p) ==
  LET m == BFromDigits(ds)
      d == BPow10(0 - p)
      k == MaxN(0, 57 + BBits(d) - BBits(m))
      q == BDivMod(BShl(m, k), d)
  IN  IF m = <<>> THEN FNorm(s, <<>>, 0)
      ELSE IF p > 60 \/ p < -60 \/ Len(ds) > 60 THEN FUnspec
      ELSE IF p >= 0 THEN FRound(s, BMul(m, BPow10(p)), 0, FALSE)
      ELSE FRound(s, q[1], 0 - k, q[2] # <<>>)
(* Six digits after the point, rounded half to even, as in "%f" *)
FDec(f) ==
  LET n  == BMulSmall(f.m, 1000000)
      k  == 0 - f.e
      q  == IF k <= 0 THEN BShl(n, f.e) ELSE BShr(n, k)
      up == k > 0 /\ BBit(n, k - 1) = 1 /\ (BLow(n, k - 1) \/ BBit(q, 0) = 1)
      ds == BDec(IF up THEN BAdd(q, <<1>>) ELSE q)
      pad == IF Len(ds) < 7 THEN [i \in 1..(7 - Len(ds)) |-> 48] \o ds ELSE ds
      cut == Len(pad) - 6
  IN  (IF f.s = 1 THEN <<45>> ELSE <<>>) \o SubSeq(pad, 1, cut) \o <<46>> \o SubSeq(pad, cut + 1, Len(pad))
============================================================================
