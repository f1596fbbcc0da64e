----------------------------- MODULE MCTransient ---------------------------
(* The machine of Transient, and below it what the implementation does with *)
(* memory: every variable has a meta type and a pointer, objects are        *)
(* allocated by copying and released by assigning and destroying.  Checked: *)
(* memory refines the machine, also when a copy fails.                      *)
EXTENDS Transient, Json, CSV, IOUtils
CONSTANTS MaxLen, CopyFirst        \* is the copy made before the old object is released?

VARIABLES ss, hist, cells, heap, bad
vars == <<ss, hist, cells, heap, bad>>
\* cells: per slot [m, q (pointer, 0: none), v (scalar)]; heap: pointers of living objects -> payload
Cell(m, q, v) == [m |-> m, q |-> q, v |-> v]
NoCell == Cell(-1, 0, 0)
Init == ss = [s \in Slots |-> Gone] /\ hist = <<>> /\ cells = [s \in Slots |-> NoCell] /\ heap = [q \in {} |-> 0] /\ bad = FALSE

M(c, h, b) == [c |-> c, h |-> h, b |-> b]
Fresh(h) == CHOOSE q \in 1..8 : q \notin DOMAIN h
Alloc(h, v) == [q \in DOMAIN h \cup {Fresh(h)} |-> IF q = Fresh(h) THEN v ELSE h[q]]
Free(x, q) == IF q = 0 THEN x ELSE IF q \in DOMAIN x.h THEN [x EXCEPT !.h = [r \in DOMAIN x.h \ {q} |-> x.h[r]]] ELSE [x EXCEPT !.b = TRUE]
Read(x, q) == IF q \in DOMAIN x.h THEN x.h[q] ELSE -1
\* copy of the object of a cell
CopyOf(x, c) == IF c.q = 0 THEN [x |-> x, c |-> c] ELSE [x |-> [x EXCEPT !.h = Alloc(x.h, Read(x, c.q)), !.b = @ \/ c.q \notin DOMAIN x.h], c |-> Cell(c.m, Fresh(x.h), 0)]
Put(x, s, c) == [x EXCEPT !.c[s] = c]
Taken(c) == IF c.q = 0 THEN c ELSE Cell(0, 0, 0)
Assign(x, s, t, throws) ==
  IF s = t THEN x
  ELSE IF CopyFirst THEN (IF throws THEN x
                          ELSE LET r == CopyOf(x, x.c[t]) IN Put(Free(r.x, x.c[s].q), s, r.c))
  ELSE LET y == Free(x, x.c[s].q)
       IN  IF throws THEN [y EXCEPT !.c[s].m = x.c[t].m]             \* and the pointer is still the old one
           ELSE LET r == CopyOf(y, x.c[t]) IN Put(r.x, s, r.c)
MoveTo(x, s, t) == IF s = t THEN x ELSE Put(Put(Free(x, x.c[s].q), s, x.c[t]), t, Taken(x.c[t]))
Memory(x, op) ==
  LET s == op.s  t == op.t
  IN  CASE op.op = "make" -> [Put(x, s, Cell(op.m, Fresh(x.h), 0)) EXCEPT !.h = Alloc(x.h, op.p)]
        [] op.op = "scalar" -> Put(Free(x, x.c[s].q), s, Cell(9, 0, op.p))
        [] op.op = "copy" -> LET r == CopyOf(x, x.c[t]) IN Put(r.x, s, r.c)
        [] op.op = "move" -> Put(Put(x, s, x.c[t]), t, Taken(x.c[t]))
        [] op.op = "acopy" -> Assign(x, s, t, FALSE)
        [] op.op = "xacopy" -> Assign(x, s, t, TRUE)
        [] op.op = "amove" -> MoveTo(x, s, t)
        [] op.op = "swap" -> Put(Put(x, s, x.c[t]), t, x.c[s])
        [] op.op = "destroy" -> Put(Free(x, x.c[s].q), s, NoCell)
        [] op.op = "set" -> [x EXCEPT !.h[x.c[s].q] = op.p]
        [] op.op = "xcopy" -> x

Ops == { [op |-> k, s |-> s, t |-> t, m |-> m, p |-> Len(hist) + 1] :
         k \in {"make", "scalar", "copy", "move", "acopy", "amove", "swap", "destroy", "set", "xcopy", "xacopy"}, s \in Slots, t \in Slots, m \in {1, 2} }
Relevant(op) == /\ (op.op \in {"make", "scalar", "destroy", "set"} => op.t = op.s)
                /\ (op.op # "make" => op.m = 1)
View(x) == [s \in Slots |-> IF x.c[s].q # 0 THEN [m |-> x.c[s].m, p |-> Read(x, x.c[s].q)] ELSE [m |-> x.c[s].m, p |-> x.c[s].v]]
Next == /\ Len(hist) < MaxLen
        /\ ~bad
        /\ \E op \in {o \in Ops : Relevant(o) /\ Enabled(ss, o)} :
             LET y == Memory(M(cells, heap, FALSE), op)
             IN  /\ hist' = Append(hist, op)
                 /\ cells' = y.c /\ heap' = y.h /\ bad' = y.b
                 /\ LET f == View(y)[op.s] IN ss' = Apply(ss, op, IF f \in Failures(ss, op) THEN f ELSE Empty)
Spec == Init /\ [][Next]_vars

\* memory shows what the machine says, no object is lost, shared, or used after its release
Refines == View(M(cells, heap, bad)) = ss
Owned == /\ ~bad
         /\ DOMAIN heap = {cells[s].q : s \in Slots} \ {0}
         /\ \A s, t \in Slots : s # t /\ cells[s].q # 0 => cells[s].q # cells[t].q
Counted == Cardinality(DOMAIN heap) = Alive(ss)
Emit == (Len(hist) = MaxLen /\ "VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.VT_EMIT)
============================================================================
