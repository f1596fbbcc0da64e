-------------------------------- MODULE Lex --------------------------------
(* The tokenizer of the simfil language as a state machine over its input: *)
(* each action consumes white space or one token, or ends or fails.        *)
EXTENDS LexFn

VARIABLES input,   \* sequence of bytes
          pos,     \* number of bytes consumed
          toks,    \* tokens so far
          status   \* "run", "done" or "fail"
lexVars == <<input, pos, toks, status>>

--------------------------------------------------------------------------
LexInit(inputs) == input \in inputs /\ pos = 0 /\ toks = <<>> /\ status = "run"

SkipSpace ==
  /\ status = "run" /\ Has(input, pos) /\ IsSpace(At(input, pos))
  /\ pos' = SpanEnd(input, pos, IsSpace)
  /\ UNCHANGED <<input, toks, status>>

ScanToken ==
  /\ status = "run" /\ Has(input, pos) /\ ~IsSpace(At(input, pos))
  /\ LET r == ScanAt(input, pos) IN
     IF r.k = "tok"
     THEN pos' = r.e /\ toks' = Append(toks, [t |-> r.t, v |-> r.v, b |-> r.b, e |-> r.e]) /\ UNCHANGED <<input, status>>
     ELSE status' = "fail" /\ UNCHANGED <<input, pos, toks>>

Finish ==
  /\ status = "run" /\ ~Has(input, pos)
  /\ status' = "done" /\ UNCHANGED <<input, pos, toks>>

LexNext == SkipSpace \/ ScanToken \/ Finish

--------------------------------------------------------------------------
(* Invariants of the design *)
TypeOK == /\ status \in {"run", "done", "fail"}
          /\ pos \in 0..Len(input)

(* Tokens are ordered, disjoint, not empty and inside of the input *)
Ordered(ts, n) ==
  \A k \in 1..Len(ts) : /\ ts[k].b < ts[k].e /\ ts[k].e <= n
                        /\ k > 1 => ts[k-1].e <= ts[k].b

(* Only white space, or the prefix of a string literal, lies between tokens *)
GapOK(s, from, to, t) ==
  LET P == CASE t = "REGEXP" -> {<<114,101>>, <<82,69>>}
             [] t = "STRING" -> {<<>>, <<114>>, <<82>>}
             [] OTHER -> {<<>>}
  IN  \E p \in P : /\ from <= to - Len(p)
                   /\ \A k \in from..(to - Len(p) - 1) : IsSpace(At(s, k))
                   /\ StartsWith(s, to - Len(p), p)

Covered(s, ts, upto) ==
  /\ \A k \in 1..Len(ts) : GapOK(s, IF k = 1 THEN 0 ELSE ts[k-1].e, ts[k].b, ts[k].t)
  /\ \A k \in (IF ts = <<>> THEN 0 ELSE ts[Len(ts)].e)..(upto-1) : IsSpace(At(s, k))

Coverage == Ordered(toks, Len(input)) /\ Covered(input, toks, pos)
Progress == status = "done" => pos = Len(input)
============================================================================
