------------------------------ MODULE EvalTrace -----------------------------
(* Validates recorded compilations and evaluations of the real library.     *)
EXTENDS EvalSame, Json, IOUtils
VARIABLES ci, verdict
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
Docs == ndJsonDeserialize(IOEnv.VT_DOCS)
Mode == IOEnv.VT_MODE

(* "ok", "bad" or "unspec" *)
Judge(o) ==
  LET x == [ph |-> "e", doc |-> Docs[o.d]]
      c == Compile(o.src, o.any, o.wild, Consts, x)
      s == Run(c.a, o.max, x)
      open == s # <<>> /\ s[Len(s)].k = "u"
      raw == Run(c.raw, o.max, x)
      fine ==
        /\ o.show = Show(c.a)
        /\ SameRun(s, o.run)
        /\ (o.max = 0 /\ ~open /\ ~Errored(s)) => o.all = 1     \* eval() collects the same values
        /\ Mode = "fold" => SameValues(raw, o.run)
        /\ Mode = "diag" => /\ SameWarns(c.w, o.cw)
                            /\ (open \/ Errored(s)) \/ (SameWarns(Warns(s), o.w) /\ SameTraces(TraceFold(s), o.tr))
  IN  IF o.st = "hang" /\ (c.st = "unspec" \/ (c.st = "ok" /\ open)) THEN "unspec"   \* e.g. huge ranges
      ELSE IF o.st \notin {"ok", "err"} THEN "bad"
      ELSE IF c.st = "unspec" THEN "unspec"
      ELSE IF c.st # o.st THEN "bad"
      ELSE IF c.st = "err" THEN "ok"
      ELSE IF Mode = "parse" THEN (IF o.show = Show(c.a) THEN "ok" ELSE "bad")
      ELSE IF ~fine THEN "bad"
      ELSE IF open THEN "unspec" ELSE "ok"

TInit == ci \in 1..Len(Cases) /\ verdict = "none"
TNext == /\ verdict = "none"
         /\ verdict' = Judge(Cases[ci])
         /\ (verdict' = "unspec" => PrintT("UNSPEC"))
         /\ UNCHANGED ci
Verdict == verdict # "bad"
(* for the error message *)
Expected == IF verdict = "none" THEN <<>> ELSE
  LET x == [ph |-> "e", doc |-> Docs[Cases[ci].d]]
      c == Compile(Cases[ci].src, Cases[ci].any, Cases[ci].wild, Consts, x)
  IN  [st |-> c.st, show |-> IF c.st = "ok" THEN Show(c.a) ELSE <<>>, run |-> IF c.st = "ok" THEN Run(c.a, Cases[ci].max, x) ELSE <<>>, w |-> c.w]
Alias == [ci |-> ci, verdict |-> verdict, expected |-> Expected]
=============================================================================
