------------------------------ MODULE EvalSame ------------------------------
(* Comparison of specified runs (Eval.tla) with recorded ones.              *)
EXTENDS Eval, TLC

(* Constants that the harness registers *)
Consts == << [n |-> B("Ten"), v |-> IntV(WInt(10))], [n |-> B("PI"), v |-> FloatV(FOfDecimal(0, <<3,5>>, -1))],
             [n |-> B("nothing"), v |-> NullV], [n |-> B("yes"), v |-> BoolV(TRUE)], [n |-> B("greeting"), v |-> StrV(B("hello"))] >>

SameP(v, o) ==
  CASE v.t \in {"undef", "null", "object", "array"} -> TRUE
    [] v.t = "float" -> o.p.c = "fin" /\ o.p = v.p
    [] OTHER -> o.p = v.p
(* Containers are the very same node *)
SameN(v, o) == IF ~Model(v) THEN TRUE ELSE o.n = (IF v.n.k = "doc" THEN v.n.id ELSE -2)
SameV(v, o) == v.t = o.t /\ SameP(v, o) /\ SameN(v, o)
SameVs(vs, os) == Len(vs) = Len(os) /\ \A j \in 1..Len(vs) : SameV(vs[j], os[j])

SameItem(s, o) == s.k = o.k /\ CASE s.k = "v" -> SameV(s.v, o.v) [] s.k = "p" -> s.s = o.s [] OTHER -> TRUE
(* The items that can be observed; after "u" anything may follow *)
SameRun(s, os) ==
  LET vis == SelectSeq(s, LAMBDA it : it.k \in {"v", "p", "e"})
      open == s # <<>> /\ s[Len(s)].k = "u"
  IN  /\ IF open THEN Len(os) >= Len(vis) ELSE Len(os) = Len(vis)
      /\ \A j \in 1..Len(vis) : SameItem(vis[j], os[j])
SameValues(s, os) == SameRun(SelectSeq(s, LAMBDA it : it.k # "p"), SelectSeq(os, LAMBDA it : it.k # "p"))
SameWarns(w, ow) == Len(w) = Len(ow) /\ \A j \in 1..Len(w) : w[j].m = ow[j].m /\ w[j].d = ow[j].d
SameTraces(t, ot) ==
  /\ Len(t) = Len(ot)
  /\ \A j \in 1..Len(t) : \E i \in 1..Len(ot) : t[j].s = ot[i].s /\ t[j].calls = ot[i].calls /\ SameVs(t[j].vs, ot[i].vs)
Errored(s) == s # <<>> /\ s[Len(s)].k = "e"

=============================================================================
