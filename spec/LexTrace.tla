------------------------------ MODULE LexTrace ------------------------------
(* Validates recorded runs of the real tokenizer against Lex: for each case *)
(* the specification scans the same input, and the recorded outcome has to  *)
(* agree with it in the aspect that the property speaks about.              *)
EXTENDS Lex, Json, IOUtils, TLC

VARIABLE ci
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
Mode == IOEnv.VT_MODE
obs == Cases[ci]

TInit == ci \in 1..Len(Cases) /\ LexInit({Cases[ci].in})
TNext == LexNext /\ UNCHANGED ci

Aspect(t) == CASE t \in {"INT", "FLOAT"} -> "number"
               [] t \in {"STRING", "REGEXP"} -> "string"
               [] OTHER -> "word"

Project(ts) == SelectSeq(ts, LAMBDA t : Aspect(t.t) = Mode)

(* A floating point literal denotes the nearest double: the literal lies in *)
(* the interval of the numbers that are rounded to the recorded double.     *)
(* Zero has no lower bound, infinity no upper one.                          *)
SameVal(sv, ov) ==
  CASE sv.k = "unspec" -> TRUE
    [] sv.k = "dec" -> /\ ov.k = "dec"
                       /\ "lo" \in DOMAIN ov => LeqDecimal(ov.lo, sv.d)
                       /\ "hi" \in DOMAIN ov => LeqDecimal(sv.d, ov.hi)
    [] OTHER -> sv = ov
SameToks(s, o) == /\ Len(s) = Len(o)
                  /\ \A k \in 1..Len(s) : s[k].t = o[k].t /\ SameVal(s[k].v, o[k].v)

(* What the scanner was looking at when it failed *)
FailKind ==
  IF NumberAt(input, pos).k # "none" THEN "number"
  ELSE IF StringAt(input, pos).k # "none" THEN "string"
  ELSE IF WordAt(input, pos).k # "none" THEN "word"
  ELSE "invalid"

Crashed == obs.r \notin {"ok", "error"}

AspectOK ==
  /\ ~Crashed
  /\ status = "done" =>
       IF obs.r = "ok" THEN SameToks(Project(toks), Project(obs.toks))
       ELSE Project(toks) = <<>>
  /\ (status = "fail" /\ (FailKind = Mode \/ (FailKind = "invalid" /\ Mode = "word"))) => obs.r # "ok"

(* Where the scanner may say that it failed: literals without end at the end of the input, *)
(* a character that begins no token exactly there, a number inside of what looks like one  *)
FailedAt(p) ==
  CASE FailKind = "invalid" -> p = pos
    [] FailKind = "number" -> p >= pos /\ p <= SpanEnd(input, pos, LAMBDA c : IsDigit(c) \/ IsAlpha(c) \/ c \in {43, 45, 46})
    [] OTHER -> p = Len(input)

CoverOK ==
  /\ ~Crashed
  /\ obs.r = "ok" =>
       /\ obs.nil                                   \* exactly one end token, at the end
       /\ Ordered(obs.toks, Len(input))
       /\ Covered(input, obs.toks, Len(input))
       /\ (status = "done" /\ [k \in 1..Len(toks) |-> toks[k].t] = [k \in 1..Len(obs.toks) |-> obs.toks[k].t])
            => \A k \in 1..Len(toks) : toks[k].b = obs.toks[k].b /\ toks[k].e = obs.toks[k].e
       /\ ~(status = "fail" /\ FailKind = "invalid")
  /\ obs.r = "error" =>
       /\ obs.exc = "runtime_error"
       /\ obs.pos # -1 => /\ obs.pos <= Len(input)
                          /\ obs.rest
                          /\ status = "fail" => FailedAt(obs.pos)

Verdict == status \in {"done", "fail"} => IF Mode = "cover" THEN CoverOK ELSE AspectOK
============================================================================
