----------------------------- MODULE DebugTrace -----------------------------
(* Validates recorded compilations and evaluations under a debug hook: they *)
(* are the ones without a hook (Eval.tla), and the hook was told what       *)
(* Debug.tla says.                                                          *)
EXTENDS EvalTrace, Debug

Child(e, same, must) == [e |-> e, same |-> same, must |-> must]
(* (a consumer may stop an evaluation after its first value, not before) *)
MustArg(f, j) == f \in {"any", "each", "count", "keys", "re", "trace", "sum", "select", "arr"} /\ j = 1
Operands(e) ==
  CASE e.k \in {"path"} -> <<Child(e.l, TRUE, TRUE), Child(e.r, FALSE, FALSE)>>
    [] e.k = "sub" -> <<Child(e.l, TRUE, TRUE), Child(e.r, FALSE, TRUE)>>
    [] e.k \in {"index", "bin", "bword"} -> <<Child(e.l, TRUE, TRUE), Child(e.r, TRUE, TRUE)>>
    [] e.k \in {"and", "or"} -> <<Child(e.l, TRUE, TRUE), Child(e.r, TRUE, FALSE)>>
    [] e.k = "un" -> IF e.o = "null" THEN <<>> ELSE <<Child(e.e, TRUE, TRUE)>>
    [] e.k \in {"unpack", "uword"} -> <<Child(e.e, TRUE, TRUE)>>
    [] e.k = "call" -> [j \in 1..Len(e.a) |-> Child(e.a[j], ~(FnOf(e.s) = "sum" /\ j > 1), MustArg(FnOf(e.s), j))]
    [] OTHER -> <<>>

(* Numbers the expressions of a tree *)
RECURSIVE Number(_, _, _, _, _)
Number(acc, e, up, same, must) ==
  LET me == Len(acc) + 1
  IN  FoldLeft(LAMBDA a, c : Number(a, c.e, me, c.same, must /\ c.must), Append(acc, [s |-> Show(e), up |-> up, same |-> same, must |-> must]), Operands(e))
Numbered(e) == Number(<<>>, e, 0, TRUE, TRUE)

IsProbe(s) == Len(s) >= 6 /\ s[1] = 40 /\ SameName(SubSeq(s, 2, 6), B("probe"))

(* the machine on what was recorded *)
Told(o, tree, x) ==
  LET nodes == Numbered(tree)
      root == DocV(1, x)
      text(ev) == IF ev.s = 0 THEN <<>> ELSE o.tx[ev.s]
      isRoot(ev) == ev.k = "b" /\ SameV(root, o.vl[ev.v])
      m == FoldLeft(LAMBDA a, ev : StepD(a, nodes, [ev EXCEPT !.s = text(ev)], isRoot(ev), IsProbe), Start, o.ev)
      c == FoldLeft(LAMBDA a, ev : StepC(a, ev), Start, o.cev)
  IN  Complete(m, nodes, TRUE) /\ CompleteC(c)

JudgeD(o) ==
  LET x == [ph |-> "e", doc |-> Docs[o.d]]
      c == Compile(o.src, o.any, o.wild, Consts, x)
      j == Judge(o)
  IN  IF j # "ok" \/ o.st # "ok" THEN j
      ELSE IF Told(o, c.a, x) THEN "ok" ELSE "bad"
DNext == /\ verdict = "none"
         /\ verdict' = JudgeD(Cases[ci])
         /\ (verdict' = "unspec" => PrintT("UNSPEC"))
         /\ UNCHANGED ci
=============================================================================
