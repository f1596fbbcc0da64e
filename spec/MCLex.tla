------------------------------- MODULE MCLex -------------------------------
(* Exhaustive checks of the Lex specification itself: all inputs up to a    *)
(* length over an alphabet, and all inputs generated by a grammar.          *)
EXTENDS Lex, TLC, IOUtils, FiniteSets
CONSTANTS Alphabet, MaxLen

Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
MInit == LexInit(Strings(Alphabet, MaxLen))
MNext == LexNext

\* 0 1 9 . e + x b f space
NumAlphabet == {48, 49, 57, 46, 101, 43, 120, 98, 102, 32}
\* ' " \ r e n space
StrAlphabet == {39, 34, 92, 114, 101, 110, 32}
\* < > = ! * . a _ space
OpAlphabet == {60, 62, 61, 33, 42, 46, 97, 95, 32}
\* ' r 0 x . - \ a ctrl NUL high
MixAlphabet == {39, 114, 48, 120, 46, 45, 92, 97, 10, 0, 200}

(* The scanner never looks at a token twice and ends in one of two states *)
Ends == ~ENABLED LexNext => status \in {"done", "fail"}

(* A number token is a maximal run: it is not followed by a letter or dot *)
Maximal == \A k \in 1..Len(toks) :
             /\ toks[k].t \in {"INT", "FLOAT"} => ~Glued(input, toks[k].e)
             /\ toks[k].t = "WORD" => ~IsWordCont(At(input, toks[k].e))

(* White space before a token does not matter: scanning the slice of a      *)
(* token on its own gives the same token.                                   *)
Local == \A k \in 1..Len(toks) :
           LET t == toks[k]
               p == IF t.t \notin {"STRING", "REGEXP"} THEN t.b
                    ELSE CHOOSE q \in {t.b, t.b-1, t.b-2} : q >= 0 /\ ScanAt(input, q) = [k |-> "tok", t |-> t.t, v |-> t.v, b |-> t.b, e |-> t.e]
                                                            /\ (q = 0 \/ k = 1 \/ toks[k-1].e <= q)
               s == Slice(input, p, t.e)
               r == ScanAt(s, 0)
           IN  r.k = "tok" /\ r.t = t.t /\ r.v = t.v /\ r.e = Len(s)

--------------------------------------------------------------------------
(* Grammar generated inputs with a known meaning *)
VARIABLE meaning
gVars == <<input, pos, toks, status, meaning>>

Escape(c, q) == IF c \in {q, Backslash} THEN <<Backslash, c>>
                ELSE CASE c = 10 -> <<Backslash, 110>> [] c = 13 -> <<Backslash, 114>> [] c = 9 -> <<Backslash, 116>> [] OTHER -> <<c>>
Quote(text, q) == <<q>> \o FoldLeft(LAMBDA a, c : a \o Escape(c, q), <<>>, text) \o <<q>>
QTexts == Strings({39, 34, 92, 110, 10, 0, 200}, MaxLen)
QInit == /\ \E text \in QTexts, q \in {39, 34} : meaning = text /\ input = Quote(text, q)
         /\ pos = 0 /\ toks = <<>> /\ status = "run"
QNext == LexNext /\ UNCHANGED meaning
QuoteRoundTrip ==
  /\ status # "fail"
  /\ status = "done" => Len(toks) = 1 /\ toks[1].t = "STRING" /\ toks[1].v.s = meaning
(* Raw quoting: text without the quote and not ending in a backslash is taken verbatim *)
RInit == /\ \E text \in QTexts, q \in {39, 34}, p \in {<<114>>, <<82>>, <<114,101>>, <<82,69>>} :
              /\ ~\E k \in 1..Len(text) : text[k] = q
              /\ (IF text = <<>> THEN TRUE ELSE text[Len(text)] # Backslash)
              /\ meaning = text /\ input = p \o <<q>> \o text \o <<q>>
         /\ pos = 0 /\ toks = <<>> /\ status = "run"
RawRoundTrip ==
  /\ status # "fail"
  /\ status = "done" => Len(toks) = 1 /\ toks[1].v.s = meaning

(* Sequences of operators: separated by white space each spelling stands for itself *)
OSpell == {<<n, m>> : n \in 1..Len(Spellings), m \in 1..Len(Spellings)} \cup {<<n>> : n \in 1..Len(Spellings)}
OInit == /\ \E sp \in OSpell, w \in {<<32>>, <<9, 10>>} :
              /\ meaning = [k \in 1..Len(sp) |-> Spellings[sp[k]][2]]
              /\ input = FoldLeft(LAMBDA a, n : a \o Spellings[n][1] \o w, <<>>, sp)
         /\ pos = 0 /\ toks = <<>> /\ status = "run"
OpRoundTrip ==
  /\ status # "fail"
  /\ status = "done" => [k \in 1..Len(toks) |-> toks[k].t] = meaning

(* Decimal, hexadecimal and binary spellings of the same byte value *)
DigitsIn(base, n) ==   \* n < 256
  LET d(k) == (n \div (CASE k = 0 -> 1 [] k = 1 -> base [] k = 2 -> base*base [] OTHER -> base^k)) % base
  IN  [k \in 1..8 |-> d(8-k)]
Glyph(d) == IF d < 10 THEN 48 + d ELSE 87 + d
NInit == /\ \E n \in 0..255, base \in {2, 10, 16} :
              /\ meaning = [Zero8 EXCEPT ![1] = n]
              /\ input = (CASE base = 2 -> <<48, 98>> [] base = 16 -> <<48, 120>> [] OTHER -> <<>>)
                         \o [k \in 1..8 |-> Glyph(IF base = 2 \/ k > 3 THEN DigitsIn(base, n)[k] ELSE 0)]
         /\ pos = 0 /\ toks = <<>> /\ status = "run"
NumRoundTrip ==
  /\ status # "fail"
  /\ status = "done" => Len(toks) = 1 /\ toks[1].t = "INT" /\ toks[1].v.w = meaning

KInit == MInit /\ meaning = <<>>
KNext == MNext /\ UNCHANGED meaning
============================================================================
