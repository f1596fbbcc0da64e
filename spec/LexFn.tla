------------------------------- MODULE LexFn -------------------------------
(* What one step of the tokenizer recognizes.  Characters are bytes;        *)
(* positions are 0-based as in the API.                                     *)
EXTENDS Num

--------------------------------------------------------------------------
(* Characters *)
IsDigit(c) == 48 <= c /\ c <= 57
IsLower(c) == 97 <= c /\ c <= 122
IsUpper(c) == 65 <= c /\ c <= 90
IsAlpha(c) == IsLower(c) \/ IsUpper(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsHex(c)   == IsDigit(c) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
IsSpace(c) == c = 32 \/ (9 <= c /\ c <= 13)
HexVal(c)  == IF IsDigit(c) THEN c - 48 ELSE IF IsLower(c) THEN c - 87 ELSE c - 55
Lower(c)   == IF IsUpper(c) THEN c + 32 ELSE c
Backslash == 92
DQuote == 34
SQuote == 39
Dot == 46

At(s, i) == IF i < Len(s) THEN s[i+1] ELSE 0           \* 0-based
Has(s, i) == i < Len(s)
StartsWith(s, i, w) == i + Len(w) <= Len(s) /\ \A k \in 1..Len(w) : s[i+k] = w[k]
(* First index >= i at which P does not hold *)
SpanEnd(s, i, P(_)) ==
  CHOOSE j \in i..MaxI(i, Len(s)) : /\ (j >= Len(s) \/ ~P(s[j+1]))
                                    /\ \A k \in i..j-1 : P(s[k+1])
Slice(s, i, j) == SubSeq(s, i+1, j)

--------------------------------------------------------------------------
(* Results of scanning one token at position i *)
NoTok == [k |-> "none"]
FailAt(i) == [k |-> "fail", b |-> i]
NoVal == [k |-> "none"]
Tok(t, v, b, e) == [k |-> "tok", t |-> t, v |-> v, b |-> b, e |-> e]

--------------------------------------------------------------------------
(* Numbers:  0x hex+ | 0b [01]+ | D+ exp? | D+ . D* exp? | . D+ exp?       *)
(* exp = [eE] [+-]? D+;  no letter and no dot may follow                    *)
DigitsOf(s, i, j) == [k \in 1..(j-i) |-> HexVal(s[i+k])]

(* Exponent suffix at i: [ok, end, neg, val]; val saturates *)
ExpAt(s, i) ==
  IF Lower(At(s, i)) # 101 THEN [ok |-> TRUE, e |-> i, val |-> 0]
  ELSE LET sign == At(s, i+1)
           d0 == IF sign \in {43, 45} THEN i+2 ELSE i+1
           d1 == SpanEnd(s, d0, IsDigit)
           ds == DigitsOf(s, d0, d1)
           z  == NumLeadingZeros(ds)
           n  == IF Len(ds) - z > 4 THEN 99999
                 ELSE FoldLeft(LAMBDA a, d : a * 10 + d, 0, ds)
       IN  IF ~(Has(s, d0) /\ IsDigit(At(s, d0))) THEN [ok |-> FALSE, e |-> d0, val |-> 0]
           ELSE [ok |-> TRUE, e |-> d1, val |-> IF sign = 45 THEN 0 - n ELSE n]

(* Value of a floating point literal, as an exact decimal.  Every literal    *)
(* has one: beyond the range of a double the nearest one is infinite or 0.  *)
MaxDigits == 900
FloatVal(ds, nint, x) ==   \* digits, number of integral digits, exponent
  LET dec == Decimal(ds, nint + x)
  IN  IF Len(ds) > MaxDigits
      THEN [k |-> "unspec"]
      ELSE [k |-> "dec", d |-> dec]

IntVal(base, ds) ==
  LET r == DigitsToWide(base, ds)
  IN  IF r.ovf \/ r.v[8] >= 128 THEN [k |-> "ovf"] ELSE [k |-> "int", w |-> r.v]

Glued(s, i) == IsAlpha(At(s, i)) \/ At(s, i) = Dot

NumberAt(s, i) ==
  IF At(s, i) = 48 /\ At(s, i+1) \in {120, 98} THEN
    LET base == IF At(s, i+1) = 120 THEN 16 ELSE 2
        P(c) == IF base = 16 THEN IsHex(c) ELSE c \in {48, 49}
        j == SpanEnd(s, i+2, P)
        v == IntVal(base, DigitsOf(s, i+2, j))
    IN  IF j = i+2 \/ IsAlnum(At(s, j)) \/ At(s, j) = Dot \/ v.k = "ovf" THEN FailAt(i)
        ELSE Tok("INT", v, i, j)
  ELSE IF IsDigit(At(s, i)) \/ (At(s, i) = Dot /\ IsDigit(At(s, i+1))) THEN
    LET j == SpanEnd(s, i, IsDigit)
        frac == At(s, j) = Dot
        f == IF frac THEN SpanEnd(s, j+1, IsDigit) ELSE j
        x == ExpAt(s, f)
        ids == DigitsOf(s, i, j)
        fds == IF frac THEN DigitsOf(s, j+1, f) ELSE <<>>
    IN  IF ~x.ok \/ Glued(s, x.e) THEN FailAt(i)
        ELSE IF frac \/ x.val # 0 THEN Tok("FLOAT", FloatVal(ids \o fds, Len(ids), x.val), i, x.e)
        ELSE LET v == IntVal(10, ids)
             IN  IF v.k = "ovf" THEN FailAt(i) ELSE Tok("INT", v, i, x.e)
  ELSE NoTok

--------------------------------------------------------------------------
(* Strings *)
RECURSIVE StringBody(_, _, _, _, _)
StringBody(s, i, quote, raw, acc) ==    \* [ok, end, text]
  IF ~Has(s, i) THEN [ok |-> FALSE]
  ELSE LET c == At(s, i) IN
    IF c = quote THEN [ok |-> TRUE, e |-> i+1, text |-> acc]
    ELSE IF c # Backslash THEN StringBody(s, i+1, quote, raw, Append(acc, c))
    ELSE IF ~Has(s, i+1) THEN [ok |-> FALSE]
    ELSE LET d == At(s, i+1) IN
      IF raw THEN IF d = quote THEN StringBody(s, i+2, quote, raw, Append(acc, d))
                               ELSE StringBody(s, i+1, quote, raw, Append(acc, Backslash))
      ELSE StringBody(s, i+2, quote, raw, Append(acc,
             CASE d = 110 -> 10 [] d = 114 -> 13 [] d = 116 -> 9 [] OTHER -> d))

(* Length of a literal prefix at i and its kind *)
IsQuote(c) == c \in {DQuote, SQuote}
PrefixAt(s, i) ==
  IF At(s, i) \in {114, 82} /\ IsQuote(At(s, i+1)) THEN [n |-> 1, k |-> "raw"]
  ELSE IF /\ <<At(s, i), At(s, i+1)>> \in {<<114, 101>>, <<82, 69>>}
          /\ IsQuote(At(s, i+2)) THEN [n |-> 2, k |-> "re"]
  ELSE [n |-> 0, k |-> "plain"]

StringAt(s, i) ==
  LET p == PrefixAt(s, i)
      q == i + p.n
  IN  IF ~IsQuote(At(s, q)) THEN NoTok
      ELSE LET r == StringBody(s, q+1, At(s, q), p.k # "plain", <<>>)
           IN  IF ~r.ok THEN FailAt(q)
               ELSE Tok(IF p.k = "re" THEN "REGEXP" ELSE "STRING", [k |-> "str", s |-> r.text], q, r.e)

--------------------------------------------------------------------------
(* Words *)
IsWordStart(c) == IsAlpha(c) \/ c = 95 \/ c = Backslash \/ c = 36
IsWordCont(c)  == IsAlnum(c) \/ c = 95 \/ c = Backslash

RECURSIVE WordBody(_, _, _)
WordBody(s, i, acc) ==
  LET j == IF At(s, i) = Backslash THEN i+1 ELSE i
  IN  IF ~Has(s, j) THEN [ok |-> FALSE]
      ELSE IF Has(s, j+1) /\ IsWordCont(At(s, j+1))
           THEN WordBody(s, j+1, Append(acc, At(s, j)))
           ELSE [ok |-> TRUE, e |-> j+1, text |-> Append(acc, At(s, j))]

Keywords ==
  << <<<<95>>, "SELF">>, <<<<97,110,100>>, "OP_AND">>, <<<<111,114>>, "OP_OR">>,
     <<<<110,111,116>>, "OP_NOT">>, <<<<116,121,112,101,111,102>>, "OP_TYPEOF">>,
     <<<<116,114,117,101>>, "C_TRUE">>, <<<<102,97,108,115,101>>, "C_FALSE">>,
     <<<<110,117,108,108>>, "C_NULL">>, <<<<97,115>>, "OP_CAST">> >>

WordAt(s, i) ==
  IF ~IsWordStart(At(s, i)) THEN NoTok
  ELSE LET r == WordBody(s, i, <<>>)
       IN  IF ~r.ok THEN FailAt(i)
           ELSE LET low == [k \in 1..Len(r.text) |-> Lower(r.text[k])]
                    kw == {n \in 1..Len(Keywords) : Keywords[n][1] = low}
                IN  IF kw # {} THEN Tok(Keywords[CHOOSE n \in kw : TRUE][2], NoVal, i, r.e)
                    ELSE Tok("WORD", [k |-> "str", s |-> r.text], i, r.e)

--------------------------------------------------------------------------
(* Operators and punctuation: the longest spelling that matches *)
Spellings ==
  << <<<<40>>, "LPAREN">>, <<<<41>>, "RPAREN">>, <<<<123>>, "LBRACE">>, <<<<125>>, "RBRACE">>,
     <<<<91>>, "LBRACK">>, <<<<93>>, "RBRACK">>, <<<<44>>, "COMMA">>, <<<<58>>, "COLON">>,
     <<<<46,46,46>>, "OP_UNPACK">>, <<<<42,42>>, "WILDCARD">>, <<<<46>>, "DOT">>,
     <<<<43>>, "OP_ADD">>, <<<<45>>, "OP_SUB">>, <<<<42>>, "OP_TIMES">>, <<<<47>>, "OP_DIV">>,
     <<<<37>>, "OP_MOD">>, <<<<60,60>>, "OP_LSHIFT">>, <<<<62,62>>, "OP_RSHIFT">>,
     <<<<126>>, "OP_BITINV">>, <<<<124>>, "OP_BITOR">>, <<<<38>>, "OP_BITAND">>,
     <<<<35>>, "OP_LEN">>, <<<<94>>, "OP_BITXOR">>, <<<<63>>, "OP_BOOL">>,
     <<<<60,61>>, "OP_LTEQ">>, <<<<60>>, "OP_LT">>, <<<<62,61>>, "OP_GTEQ">>, <<<<62>>, "OP_GT">>,
     <<<<61,61>>, "OP_EQ">>, <<<<33,61>>, "OP_NOT_EQ">>, <<<<61>>, "OP_EQ">> >>

SyntaxAt(s, i) ==
  LET m == {n \in 1..Len(Spellings) : StartsWith(s, i, Spellings[n][1])}
  IN  IF m = {} THEN NoTok
      ELSE LET n == CHOOSE n \in m : \A o \in m : Len(Spellings[o][1]) <= Len(Spellings[n][1])
           IN  Tok(Spellings[n][2], NoVal, i, i + Len(Spellings[n][1]))

--------------------------------------------------------------------------
ScanAt(s, i) ==
  LET n == NumberAt(s, i) IN IF n.k # "none" THEN n ELSE
  LET t == StringAt(s, i) IN IF t.k # "none" THEN t ELSE
  LET w == WordAt(s, i) IN IF w.k # "none" THEN w ELSE
  SyntaxAt(s, i)

--------------------------------------------------------------------------
(* The whole input at once: [ok, toks] *)
RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) ==
  IF ~Has(s, i) THEN [ok |-> TRUE, toks |-> acc]
  ELSE IF IsSpace(At(s, i)) THEN LexFrom(s, SpanEnd(s, i, IsSpace), acc)
  ELSE LET r == ScanAt(s, i)
       IN  IF r.k = "tok" THEN LexFrom(s, r.e, Append(acc, [t |-> r.t, v |-> r.v, b |-> r.b, e |-> r.e]))
           ELSE [ok |-> FALSE, toks |-> acc]
LexAll(s) == LexFrom(s, 0, <<>>)
============================================================================
