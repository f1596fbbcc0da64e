------------------------------ MODULE JsonTrace -----------------------------
(* Validates recorded histories of loading documents into a model and of    *)
(* dumping it.  w: roots of the shared model, names used so far; and whether*)
(* the whole model has one possible dump.                                   *)
EXTENDS JsonDoc, Json, IOUtils, TLC
VARIABLES ci, pos, w, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)
vars == <<ci, pos, w, bad>>

StaticNames == { <<>>, <<36, 115, 117, 109>>, <<36, 118, 97, 108>>, <<36, 105, 100, 120>> }
\* what was loaded is shown, and dumped; loading the dump shows it again
Loaded(o, v, S) == /\ Shows(o.tree, Ordered(v), S)
                   /\ LET r == Read(o.dump) IN r.ok /\ Shows(Ordered(o.tree), Ordered(r.v), {})
                   /\ o.again.ok /\ o.again.n = 1 /\ Same(o.again.tree, Ordered(o.tree))
Load(x, o) ==
  LET r == Read(o.doc)
      shared == o.form < 2
      n == IF shared THEN Len(x.roots) ELSE 0
      S == (IF shared THEN x.names ELSE StaticNames) \cup (IF r.ok THEN KeysOf(r.v) ELSE {})
      good == IF o.ok THEN r.ok /\ o.n = n + 1 /\ (Plain(r.v) => Loaded(o, r.v, S))
              ELSE (~r.ok \/ ~Representable(r.v)) /\ o.n = n
  IN  [w |-> IF o.ok /\ shared THEN [roots |-> Append(x.roots, o.tree), names |-> S, plain |-> x.plain /\ Plain(r.v)] ELSE x, ok |-> good]
\* a tree that was built by hand
Built(o) == /\ Same(o.tree, o.input)
            /\ LET r == Read(o.dump) IN r.ok /\ Shows(Ordered(Dumped(o.input)), Ordered(r.v), {})

\* the dump of the whole model is the array of all of its roots
Whole(o) == LET r == Read(o.whole)
            IN  w.plain => /\ r.ok /\ r.v.t = "array" /\ Len(r.v.vs) = Len(w.roots)
                           /\ \A i \in 1..Len(w.roots) : Shows(Ordered(w.roots[i]), Ordered(r.v.vs[i]), {})

TInit == ci \in 1..Len(Cases) /\ pos = 1 /\ w = [roots |-> <<>>, names |-> StaticNames, plain |-> TRUE] /\ bad = FALSE
TNext == /\ pos <= Len(Cases[ci].steps)
         /\ LET o == Cases[ci].steps[pos]
                r == CASE o.op = "load" -> Load(w, o)
                       [] o.op = "built" -> [w |-> w, ok |-> Built(o)]
                       [] o.op = "roots" -> [w |-> w, ok |-> Len(o.trees) = Len(w.roots) /\ \A i \in 1..Len(w.roots) : Same(o.trees[i], w.roots[i])
                                                           /\ Whole(o)]
            IN  w' = r.w /\ bad' = ~r.ok
         /\ pos' = pos + 1
         /\ UNCHANGED ci
Verdict == ~bad /\ Cases[ci].r = "ok"
============================================================================
