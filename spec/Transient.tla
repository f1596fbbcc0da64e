------------------------------ MODULE Transient ----------------------------
(* Values that own an object of a user-defined type: variables (slots) of   *)
(* type TransientObject ("obj") or Value ("val"), and what each of them     *)
(* holds: [m |-> meta type, p |-> payload].                                 *)
(*   m = -1: the variable does not exist    0: it is empty                  *)
(*   1, 2: an object of this meta type      9: a scalar (Values only)       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Kinds == <<"obj", "obj", "val", "val">>
Slots == 1..Len(Kinds)
Gone == [m |-> -1, p |-> 0]
Empty == [m |-> 0, p |-> 0]
Holds(c) == c.m \in {1, 2}
Exists(c) == c.m # -1
Alive(ss) == Cardinality({ s \in Slots : Holds(ss[s]) })
Left(c) == IF Holds(c) THEN Empty ELSE c            \* of a variable that has been moved from

(* Which operations make sense *)
Enabled(ss, op) ==
  LET s == ss[op.s]  ks == Kinds[op.s]  t == ss[op.t]  kt == Kinds[op.t]
      from == Exists(t) /\ (ks = kt \/ ks = "val" \/ t.m \in {0, 1, 2})     \* an object can be taken out of a value, and put into one
  IN  CASE op.op = "make"    -> ~Exists(s)
        [] op.op = "scalar"  -> ks = "val"
        [] op.op = "copy"    -> ~Exists(s) /\ op.s # op.t /\ from
        [] op.op = "move"    -> ~Exists(s) /\ op.s # op.t /\ Exists(t) /\ (ks = kt \/ kt = "obj")
        [] op.op = "acopy"   -> Exists(s) /\ from
        [] op.op = "amove"   -> Exists(s) /\ Exists(t) /\ (ks = kt \/ kt = "obj")
        [] op.op = "swap"    -> Exists(s) /\ Exists(t) /\ ks = kt /\ op.s < op.t
        [] op.op = "destroy" -> Exists(s)
        [] op.op = "set"     -> ks = "obj" /\ Holds(s)
        [] op.op = "xcopy"   -> ~Exists(s) /\ ks = "obj" /\ kt = "obj" /\ Holds(t)
        [] op.op = "xacopy"  -> Exists(s) /\ ks = "obj" /\ kt = "obj" /\ Holds(t) /\ op.s # op.t

(* What every variable holds afterwards; failed: what the target of an       *)
(* assignment holds whose copy failed (what it held before, or nothing)      *)
Apply(ss, op, failed) ==
  LET s == op.s  t == op.t
  IN  CASE op.op = "make"    -> [ss EXCEPT ![s] = [m |-> op.m, p |-> op.p]]
        [] op.op = "scalar"  -> [ss EXCEPT ![s] = [m |-> 9, p |-> op.p]]
        [] op.op \in {"copy", "acopy"} -> [ss EXCEPT ![s] = ss[t]]
        [] op.op \in {"move", "amove"} -> IF s = t THEN ss ELSE [ss EXCEPT ![s] = ss[t], ![t] = Left(ss[t])]
        [] op.op = "swap"    -> [ss EXCEPT ![s] = ss[t], ![t] = ss[s]]
        [] op.op = "destroy" -> [ss EXCEPT ![s] = Gone]
        [] op.op = "set"     -> [ss EXCEPT ![s].p = op.p]
        [] op.op = "xcopy"   -> ss
        [] op.op = "xacopy"  -> [ss EXCEPT ![s] = failed]
Failures(ss, op) == IF op.op = "xacopy" THEN {ss[op.s], Empty} ELSE {Empty}

---------------------------------------------------------------------------
(* Expressions over objects of two user-defined types:                      *)
(*   [k |-> "t"/"u" (object of type 1/2), "i" integer, "n" null,            *)
(*          "un"/"bin" with op, "each" (unpacking)], n, a, b                *)
(* Results: sequences of [t |-> obj/int/bool/str/null, m, n, s], or error   *)
O(m, n) == [t |-> "obj", m |-> m, n |-> n, s |-> ""]
I(n) == [t |-> "int", m |-> 0, n |-> n, s |-> ""]
Bo(b) == [t |-> "bool", m |-> 0, n |-> IF b THEN 1 ELSE 0, s |-> ""]
S(s) == [t |-> "str", m |-> 0, n |-> 0, s |-> s]
Nul == [t |-> "null", m |-> 0, n |-> 0, s |-> ""]
Err == [t |-> "error", m |-> 0, n |-> 0, s |-> ""]
Ident(m) == IF m = 1 THEN "one" ELSE "two"
\* operators of the types; the first type has more of them
Unary(op, m, n) == CASE op = "typeof" -> S(Ident(m))
                     [] op = "?" -> Bo(n % 2 = 1)
                     [] op = "not" -> Bo(n % 2 = 0)
                     [] op = "string" -> S(Ident(m) \o ":" \o ToString(n))
                     [] op = "-" -> O(m, n + 100)
                     [] op = "#" -> IF m = 1 THEN I(n) ELSE Err
                     [] op = "wordy" -> IF m = 2 THEN I(n + 7) ELSE Err
                     [] OTHER -> Err
Other(m, v) == IF v.t = "int" THEN v.n ELSE IF v.t = "obj" THEN (IF v.m = m THEN v.n ELSE 2000) ELSE 1000
BinaryL(op, m, n, v) == CASE op = "+" -> O(m, n + Other(m, v))
                          [] op = "==" -> Bo(v.t = "obj" /\ v.m = m /\ v.n = n)
                          [] op = "!=" -> Bo(~(v.t = "obj" /\ v.m = m /\ v.n = n))
                          [] op = "<" -> IF m = 1 THEN Nul ELSE Err
                          [] op = "wordy" -> IF m = 2 THEN I(n * 10 + Other(m, v)) ELSE Err
                          [] OTHER -> Err
BinaryR(op, v, m, n) == CASE op = "+" -> O(m, n + Other(m, v) + 500)
                          [] op = "==" -> Bo(FALSE)
                          [] op = "!=" -> Bo(TRUE)
                          [] op = "wordy" -> IF m = 2 THEN I(n * 10 + Other(m, v) + 1) ELSE Err
                          [] OTHER -> Err
Ints(op, a, b) == CASE op = "+" -> I(a + b) [] op = "==" -> Bo(a = b) [] op = "!=" -> Bo(a # b) [] op = "<" -> Bo(a < b) [] OTHER -> Err
RECURSIVE Result(_)
Result(e) ==
  CASE e.k = "t" -> O(1, e.n)
    [] e.k = "u" -> O(2, e.n)
    [] e.k = "i" -> I(e.n)
    [] e.k = "n" -> Nul
    [] e.k = "un" -> LET a == Result(e.a) IN IF a.t = "error" THEN Err ELSE Unary(e.op, a.m, a.n)
    [] e.k = "bin" -> LET a == Result(e.a)  b == Result(e.b)
                      IN  IF a.t = "error" \/ b.t = "error" THEN Err
                          ELSE IF a.t = "obj" THEN BinaryL(e.op, a.m, a.n, b)
                          ELSE IF b.t = "obj" THEN BinaryR(e.op, a, b.m, b.n)
                          ELSE Ints(e.op, a.n, b.n)
\* unpacking: the first type counts up to its payload (nothing at all is a null), the second one does not unpack
Results(e) == IF e.k = "each" THEN LET a == Result(e.a) IN IF a.t = "error" \/ a.m # 1 THEN <<Err>> ELSE IF a.n = 0 THEN <<Nul>> ELSE [i \in 1..a.n |-> I(i)]
              ELSE <<Result(e)>>
============================================================================
