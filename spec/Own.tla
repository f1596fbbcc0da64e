--------------------------------- MODULE Own --------------------------------
(* Who keeps what alive. The user holds an environment, a string pool, a    *)
(* model, a node of it, a compiled expression, results of evaluations and   *)
(* copies of those, and releases them in any order. A model lives exactly   *)
(* as long as there is a handle, a node or a value that holds a node of it; *)
(* its names as long as the environment or the model needs them. What is    *)
(* still held can be read, and reads the same.                              *)
EXTENDS Naturals, Sequences
Handles == {"ast", "env", "pool", "model", "root", "vals", "copy"}

\* held: what the user has; in: those of vals, copy and env (by its traces) that hold nodes of the model
Start == [held |-> {"env", "pool", "model", "root"}, in |-> {}, swapped |-> FALSE]
ModelAlive(s) == s.held \cap ({"model", "root"} \cup s.in) # {}
PoolAlive(s) == s.held \cap {"pool", "env"} # {} \/ (ModelAlive(s) /\ ~s.swapped)

Op(o, h) == [op |-> o, h |-> h]
Ops == {Op(o, "") : o \in {"compile", "eval", "copy", "move", "reroot", "swap", "names"}}
       \cup {Op("drop", h) : h \in Handles} \cup {Op("read", h) : h \in {"root", "vals", "copy"}}
Enabled(s, op) ==
  CASE op.op = "compile" -> "env" \in s.held
    [] op.op = "eval" -> {"env", "ast", "root"} \subseteq s.held /\ ~s.swapped
    [] op.op \in {"copy", "move"} -> "vals" \in s.held
    [] op.op = "reroot" -> "model" \in s.held
    [] op.op = "swap" -> "model" \in s.held /\ ~s.swapped
    [] op.op = "names" -> "pool" \in s.held
    [] OTHER -> op.h \in s.held
\* vn: do the results hold nodes of the model; tn: do the traces; ok: has the evaluation not failed
Apply(s, op, ok, vn, tn) ==
  CASE op.op = "compile" -> [s EXCEPT !.held = @ \cup {"ast"}]
    [] op.op = "eval" /\ ok -> [s EXCEPT !.held = @ \cup {"vals"}, !.in = (@ \ {"vals", "env"}) \cup (IF vn THEN {"vals"} ELSE {}) \cup (IF tn THEN {"env"} ELSE {})]
    [] op.op = "eval" /\ ~ok -> [s EXCEPT !.in = (@ \ {"env"}) \cup (IF tn THEN {"env"} ELSE {})]
    [] op.op = "copy" -> [s EXCEPT !.held = @ \cup {"copy"}, !.in = (@ \ {"copy"}) \cup (IF "vals" \in s.in THEN {"copy"} ELSE {})]
    [] op.op = "move" -> [s EXCEPT !.held = (@ \ {"vals"}) \cup {"copy"}, !.in = (@ \ {"copy", "vals"}) \cup (IF "vals" \in s.in THEN {"copy"} ELSE {})]
    [] op.op = "reroot" -> [s EXCEPT !.held = @ \cup {"root"}]
    [] op.op = "swap" -> [s EXCEPT !.swapped = TRUE]
    [] op.op = "drop" -> [s EXCEPT !.held = @ \ {op.h}, !.in = @ \ {op.h}]
    [] OTHER -> s
=============================================================================
