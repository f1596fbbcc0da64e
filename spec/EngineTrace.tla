----------------------------- MODULE EngineTrace ----------------------------
(* Validates recorded histories of compilations and evaluations that share  *)
(* environment, string pool, documents and expressions.  Nothing of what is *)
(* shared is part of the state but what the histories put there (slots with *)
(* expressions, warnings, traces): each run has to be the one of Eval.tla,  *)
(* as if it was the only one.  Runs that Eval.tla leaves open have to be    *)
(* repeatable nevertheless (seen); warnings and traces are open then.       *)
(*   sequential: [steps, w, tr],  concurrent: [exprs, outcomes, ...]        *)
EXTENDS EvalSame, Json, IOUtils
VARIABLES ci, pos, slots, ws, tab, taint, seen, bad
vars == <<ci, pos, slots, ws, tab, taint, seen, bad>>

Cases == ndJsonDeserialize(IOEnv.VT_CASES)
Docs == ndJsonDeserialize(IOEnv.VT_DOCS)
X(d) == [ph |-> "e", doc |-> Docs[d]]
C == Cases[ci]
Sequential == "steps" \in DOMAIN C

OpenRun(s) == s # <<>> /\ s[Len(s)].k = "u"
Compiled(src, any, wild) == Compile(src, any, wild, Consts, X(1))
Key(s, d, max) == <<s.src, s.any, s.wild, d, max>>

(* The items of a run whose k-th value is answered by another run *)
ValueAt(s, k) == LET js == {j \in 1..Len(s) : s[j].k = "v" /\ Len(SelectSeq(SubSeq(s, 1, j), LAMBDA it : it.k = "v")) = k}
                 IN  IF js = {} THEN 0 ELSE MinOf(js)
Apart(s) == [j \in 1..Len(s) |-> IF s[j].k \in {"to", "tv", "tc"} THEN [s[j] EXCEPT !.id = @ + 100000] ELSE s[j]]
Nested(s, k, t) == LET j == ValueAt(s, k) IN IF j = 0 THEN s ELSE SubSeq(s, 1, j) \o Apart(t) \o SubSeq(s, j + 1, Len(s))

Judged(s, os) == SameRun(s, os)
Repeats(key, h) == \A j \in 1..Len(seen) : seen[j][1] = key => seen[j][2] = h
Remember(key, h) == IF \E j \in 1..Len(seen) : seen[j][1] = key THEN <<>> ELSE << <<key, h>> >>
SameTP(v, o) == v.t = o.t /\ SameP(v, o)
SameEnd(t, ot) ==       \* traces, without the nodes of their values (that belong to several documents)
  /\ Len(t) = Len(ot)
  /\ \A j \in 1..Len(t) : \E i \in 1..Len(ot) :
       t[j].s = ot[i].s /\ t[j].calls = ot[i].calls /\ Len(t[j].vs) = Len(ot[i].vs) /\ \A m \in 1..Len(t[j].vs) : SameTP(t[j].vs[m], ot[i].vs[m])

--------------------------------------------------------------------------
Gone == [st |-> "none"]
OnCompile(o) ==
  LET c == Compiled(o.src, o.any, o.wild)
      fine == o.same /\ (c.st = "unspec" \/ (c.st = o.st /\ (c.st = "ok" => o.show = Show(c.a))))
  IN  /\ bad' = ~fine
      /\ slots' = [j \in (DOMAIN slots) \cup {o.s} |-> IF j # o.s THEN slots[j]
                     ELSE IF o.st = "err" THEN Gone ELSE [st |-> c.st, a |-> c.a, src |-> o.src, any |-> o.any, wild |-> o.wild]]
      /\ ws' = ws \o c.w
      /\ taint' = (taint \/ c.st # "ok")
      /\ UNCHANGED <<tab, seen>>
Have(o) == o.s \in DOMAIN slots /\ slots[o.s].st # "none" /\ (o.op = "nest" => o.s2 \in DOMAIN slots /\ slots[o.s2].st # "none")
OnEval(o) ==
  LET a == slots[o.s]
      s == Run(a.a, o.max, X(o.d))
      nest == o.op = "nest"
      b == slots[o.s2]
      t == Run(b.a, o.max2, X(o.d2))
      known == a.st = "ok"
      at == IF nest THEN ValueAt(s, o.k) ELSE 0
      known2 == nest /\ b.st = "ok"
      open == ~known \/ OpenRun(s) \/ Errored(s) \/ (nest /\ o.did /\ (~known2 \/ OpenRun(t) \/ Errored(t)))
      all == IF at > 0 /\ o.did THEN Nested(s, o.k, t) ELSE s
      fine == /\ o.have /\ o.same
              /\ known => Judged(s, o.run)
              /\ Repeats(Key(a, o.d, o.max), o.h)
              /\ nest => /\ (known /\ ~OpenRun(s)) => (o.did = (at > 0))
                         /\ (o.did /\ known2) => Judged(t, o.run2)
                         /\ o.did => Repeats(Key(b, o.d2, o.max2), o.h2)
  IN  IF ~Have(o) THEN bad' = o.have /\ UNCHANGED <<slots, ws, tab, taint, seen>>
      ELSE /\ bad' = ~fine
           /\ seen' = seen \o Remember(Key(a, o.d, o.max), o.h) \o (IF nest /\ o.did /\ Key(b, o.d2, o.max2) # Key(a, o.d, o.max) THEN Remember(Key(b, o.d2, o.max2), o.h2) ELSE <<>>)
           /\ taint' = (taint \/ open)
           /\ ws' = IF taint \/ open THEN <<>> ELSE ws \o Warns(all)
           /\ tab' = IF taint \/ open THEN <<>> ELSE FoldLeft(TraceStep, [open |-> <<>>, tab |-> tab], all).tab
           /\ UNCHANGED slots
OnDrop(o) == /\ slots' = [j \in (DOMAIN slots) \ {o.s} |-> slots[j]]
             /\ bad' = FALSE
             /\ UNCHANGED <<ws, tab, taint, seen>>
OnStep(o) == CASE o.op = "compile" -> OnCompile(o)
               [] o.op = "drop" -> OnDrop(o)
               [] o.op = "doc" -> bad' = FALSE /\ UNCHANGED <<slots, ws, tab, taint, seen>>
               [] OTHER -> OnEval(o)
AtEnd == /\ bad' = ~(taint \/ (SameWarns(ws, C.w) /\ SameEnd(tab, C.tr)))
         /\ (taint => PrintT("UNSPEC"))

--------------------------------------------------------------------------
(* Concurrent: one step judges one outcome *)
Count(s, P(_)) == Len(SelectSeq(s, P))
SameBag(w, ow) == Len(w) = Len(ow) /\ \A j \in 1..Len(w) : Count(w, LAMBDA z : z = w[j]) = Count(ow, LAMBDA z : z.m = w[j].m /\ z.d = w[j].d)
OpsOf(o) == FoldLeft(LAMBDA acc, t : acc \o SelectSeq(t, LAMBDA q : q.op # "names"), <<>>, o.ops)
SrcOf(q) == IF q.op = "own" THEN [src |-> q.src, any |-> q.any, wild |-> q.wild] ELSE C.exprs[q.e]
Closes(s) ==            \* the calls of trace in a run, with all of their values
  LET step(acc, it) ==
        CASE it.k = "to" -> [acc EXCEPT !.open = Append(@, [id |-> it.id, s |-> it.s, lim |-> it.lim, vs |-> <<>>])]
          [] it.k = "tv" -> [acc EXCEPT !.open = [i \in 1..Len(@) |-> IF @[i].id = it.id THEN [@[i] EXCEPT !.vs = Append(@, it.v)] ELSE @[i]]]
          [] it.k = "tc" -> [open |-> SubSeq(acc.open, 1, Len(acc.open) - 1), closed |-> Append(acc.closed, acc.open[Len(acc.open)])]
          [] OTHER -> acc
  IN  FoldLeft(step, [open |-> <<>>, closed |-> <<>>], s).closed
EqTP(v, w) == v.t = w.t /\ v.p = w.p
TracesFit(cl, ot) ==
  /\ \A i \in 1..Len(cl) : \E j \in 1..Len(ot) : ot[j].s = cl[i].s
  /\ \A j \in 1..Len(ot) :
       LET mine == SelectSeq(cl, LAMBDA c : c.s = ot[j].s)
           vs == FoldLeft(LAMBDA acc, c : acc \o c.vs, <<>>, mine)
           lims == {mine[i].lim : i \in 1..Len(mine)}
           lim == CHOOSE l \in lims : TRUE
       IN  /\ Len(mine) = ot[j].calls
           /\ \A m \in 1..Len(ot[j].vs) : \E i \in 1..Len(vs) : SameTP(vs[i], ot[j].vs[m])
           /\ (\A l \in lims : l < 0) =>
                /\ Len(vs) = Len(ot[j].vs)
                /\ \A m \in 1..Len(vs) : Count(vs, LAMBDA z : EqTP(z, vs[m])) = Count(ot[j].vs, LAMBDA z : SameTP(vs[m], z))
           /\ (lims = {lim} /\ lim >= 0) => Len(ot[j].vs) = MinN(lim, Len(vs))
OutcomeOK(o) ==
  LET qs == OpsOf(o)
      n == Len(qs)
      cs == [j \in 1..n |-> LET e == SrcOf(qs[j]) IN Compiled(e.src, e.any, e.wild)]
      runs == [j \in 1..n |-> IF cs[j].st = "ok" THEN Run(cs[j].a, qs[j].max, X(qs[j].d)) ELSE U1]
      shared == [j \in 1..Len(C.exprs) |-> Compiled(C.exprs[j].src, C.exprs[j].any, C.exprs[j].wild)]
      clear == /\ \A j \in 1..n : cs[j].st = "ok" /\ ~OpenRun(runs[j]) /\ ~Errored(runs[j])
               /\ \A j \in 1..Len(shared) : shared[j].st = "ok"
      w == FoldLeft(LAMBDA acc, c : acc \o c.w, <<>>, shared)
           \o FoldLeft(LAMBDA acc, j : acc \o (IF qs[j].op = "own" THEN cs[j].w ELSE <<>>) \o Warns(runs[j]), <<>>, Ix(n))
      cl == FoldLeft(LAMBDA acc, j : acc \o Closes(runs[j]), <<>>, Ix(n))
  IN  /\ "deadlock" \notin DOMAIN o
      /\ o.same
      /\ \A j \in 1..n : cs[j].st # "unspec" =>
           (cs[j].st = qs[j].st /\ (cs[j].st = "ok" => qs[j].show = Show(cs[j].a) /\ SameRun(runs[j], qs[j].run)))
      /\ \A j, m \in 1..n : (SrcOf(qs[j]) = SrcOf(qs[m]) /\ qs[j].d = qs[m].d /\ qs[j].max = qs[m].max) => qs[j].h = qs[m].h
      /\ IF clear THEN SameBag(w, o.w) /\ TracesFit(cl, o.tr) ELSE PrintT("UNSPEC")

--------------------------------------------------------------------------
Last1 == IF Sequential THEN Len(C.steps) ELSE Len(C.outcomes)
TInit == ci \in 1..Len(Cases) /\ pos = 0 /\ slots = <<>> /\ ws = <<>> /\ tab = <<>> /\ taint = FALSE /\ seen = <<>> /\ bad = FALSE
TNext ==
  /\ ~bad
  /\ UNCHANGED ci
  /\ IF pos = 0 /\ C.r # "ok" THEN bad' = TRUE /\ pos' = 1 /\ UNCHANGED <<slots, ws, tab, taint, seen>>
     ELSE IF pos < Last1 THEN
       /\ pos' = pos + 1
       /\ IF Sequential THEN OnStep(C.steps[pos + 1])
          ELSE bad' = ~OutcomeOK(C.outcomes[pos + 1]) /\ UNCHANGED <<slots, ws, tab, taint, seen>>
     ELSE /\ pos = Last1
          /\ pos' = pos + 1
          /\ (IF Sequential THEN AtEnd ELSE bad' = FALSE)
          /\ UNCHANGED <<slots, ws, tab, taint, seen>>
Verdict == ~bad
Alias == [ci |-> ci, pos |-> pos, bad |-> bad, expected |->
           IF Sequential /\ pos < Len(C.steps) /\ C.steps[pos + 1].op \in {"eval", "nest"} /\ Have(C.steps[pos + 1]) /\ slots[C.steps[pos + 1].s].st = "ok"
           THEN Run(slots[C.steps[pos + 1].s].a, C.steps[pos + 1].max, X(C.steps[pos + 1].d)) ELSE <<>>, ws |-> ws, taint |-> taint, tab |-> tab]
=============================================================================
