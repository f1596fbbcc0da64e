-------------------------------- MODULE Num --------------------------------
(* Exact numbers for a checker whose integers have 32 bits.                *)
(*  - wide integers: sequences of 8 bytes, least significant first         *)
(*  - decimals: [d |-> digit sequence without leading zeros, x |-> exp]    *)
(*    with value 0.d1 d2 d3 ... * 10^x                                     *)
EXTENDS Integers, Sequences, SequencesExt

MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b

--------------------------------------------------------------------------
(* Unsigned accumulation of digits with overflow detection *)
Zero8 == <<0,0,0,0,0,0,0,0>>

MulAdd8(a, base, d) ==
  LET c1 == a.v[1] * base + d
      c2 == a.v[2] * base + (c1 \div 256)
      c3 == a.v[3] * base + (c2 \div 256)
      c4 == a.v[4] * base + (c3 \div 256)
      c5 == a.v[5] * base + (c4 \div 256)
      c6 == a.v[6] * base + (c5 \div 256)
      c7 == a.v[7] * base + (c6 \div 256)
      c8 == a.v[8] * base + (c7 \div 256)
  IN  [v   |-> <<c1 % 256, c2 % 256, c3 % 256, c4 % 256, c5 % 256, c6 % 256, c7 % 256, c8 % 256>>,
       ovf |-> a.ovf \/ c8 >= 256]

DigitsToWide(base, ds) ==
  FoldLeft(LAMBDA a, d : MulAdd8(a, base, d), [v |-> Zero8, ovf |-> FALSE], ds)

--------------------------------------------------------------------------
(* Decimals *)
NumLeadingZeros(ds) ==
  CHOOSE n \in 0..Len(ds) : /\ \A i \in 1..n : ds[i] = 0
                            /\ n = Len(ds) \/ ds[n+1] # 0

(* The decimal 0.ds * 10^x, normalized (first digit not 0) *)
Decimal(ds, x) ==
  LET z == NumLeadingZeros(ds)
  IN  IF z = Len(ds) THEN [d |-> <<>>, x |-> 0]
                     ELSE [d |-> SubSeq(ds, z+1, Len(ds)), x |-> x - z]

(* first n digits, padded with zeros *)
FirstDigits(ds, n) == [i \in 1..n |-> IF i <= Len(ds) THEN ds[i] ELSE 0]

LessDigits(a, b) ==   \* lexicographic, same length
  \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i-1 : a[j] = b[j]

(* p <= q, both normalized *)
LeqDecimal(p, q) ==
  IF p.d = <<>> \/ q.d = <<>> THEN p.d = <<>>
  ELSE IF p.x # q.x THEN p.x < q.x
  ELSE LET n == MaxI(Len(p.d), Len(q.d))
       IN  ~LessDigits(FirstDigits(q.d, n), FirstDigits(p.d, n))
============================================================================
