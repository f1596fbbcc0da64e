----------------------------- MODULE MCOverlay -----------------------------
(* Histories of wrapping and injecting, over a small model; below the       *)
(* machine what the implementation keeps (a map of injected values per      *)
(* overlay, shared by all of its handles).                                  *)
EXTENDS Overlay, Json, CSV, IOUtils
CONSTANTS MaxLen, Keys

N(t, v, ks, cs, fs) == [t |-> t, v |-> v, ks |-> ks, cs |-> cs, fs |-> fs]
F(k, f, x, s) == [k |-> k, f |-> f, x |-> x, s |-> s]
Base == << N("object", "", <<"a", "b">>, <<2, 3>>, <<>>),
           N("int", "1", <<>>, <<>>, <<>>),
           N("array", "", <<"", "">>, <<2, 4>>, <<>>),
           N("null", "", <<>>, <<>>, <<>>),
           N("proc", "", <<"b", "c">>, <<3, 2>>, <<F("a", "const", 0, "p"), F("b", "count", 0, "")>>),
           N("bare", "", <<>>, <<>>, <<F("c", "alias", 0, "a"), F("a", "node", 3, "")>>) >>
Scalars == { Sc("int", "7"), Sc("null", ""), Sc("string", "s") }
VARIABLES w, hist, impl
vars == <<w, hist, impl>>
World0 == [doc |-> Base, ov |-> <<>>, hs |-> <<>>]
\* impl: per handle a reference to a storage; per storage the injected fields as a map
Init == w = World0 /\ hist = <<>> /\ impl = [store |-> <<>>, ref |-> <<>>]
Values == { Doc(n) : n \in {1, 2, 3, 5, 6} } \cup Scalars \cup { Ov(n) : n \in 1..Len(w.ov) }
Op(op, h, n, key, v) == [op |-> op, h |-> h, n |-> n, key |-> key, v |-> v, s |-> ToString(100 + Len(hist))]
Ops == { Op("wrap", 0, 0, "", v) : v \in Values }
       \cup { Op("again", h, 0, "", Nil) : h \in DOMAIN w.hs }
       \cup { Op("set", h, 0, k, v) : h \in DOMAIN w.hs, k \in Keys, v \in {Doc(3), Doc(4), Sc("null", ""), Sc("string", "s")} \cup { Ov(n) : n \in DOMAIN w.ov } }
       \cup { Op("add", 0, n, k, Nil) : n \in {1, 5}, k \in Keys }
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Impl(op) ==
  CASE op.op = "wrap" -> [store |-> Append(impl.store, [w |-> op.v, m |-> [k \in {} |-> Nil]]), ref |-> Append(impl.ref, Len(impl.store) + 1)]
    [] op.op = "again" -> [impl EXCEPT !.ref = Append(@, impl.ref[op.h])]
    [] op.op = "set" -> [impl EXCEPT !.store[impl.ref[op.h]].m = Put(@, op.key, op.v)]
    [] OTHER -> impl
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : Enabled(w, op) /\ hist' = Append(hist, op) /\ w' = Apply(w, op) /\ impl' = Impl(op)
Spec == Init /\ [][Next]_vars

\* the overlay of handle h as the implementation answers
ImplGet(h, k) == LET s == impl.store[impl.ref[h]] IN IF k \in DOMAIN s.m THEN s.m[k] ELSE Get(w, s.w, k)
Refines == \A h \in DOMAIN w.hs : \A k \in Keys : ImplGet(h, k) = Get(w, Ov(w.hs[h]), k)
\* an overlay shows what it wraps in everything but its type and its injected fields
Transparent == \A o \in DOMAIN w.ov :
  LET x == Ov(o)  y == w.ov[o].w
  IN  /\ Typ(w, x) = "object"
      /\ Val(w, x) = Val(w, y) /\ Size(w, x) = Size(w, y) /\ Children(w, x) = Children(w, y) /\ Names(w, x) = Names(w, y)
      /\ \A k \in Keys : Pos(w.ov[o].ks, k) = 0 => Get(w, x, k) = Get(w, y, k)
\* every form of access to a document node agrees
Agrees == \A n \in DOMAIN w.doc :
  LET x == Doc(n)
  IN  /\ Len(Children(w, x)) = Size(w, x) /\ \A i \in 1..Size(w, x) : Children(w, x)[i] # Nil
      /\ Typ(w, x) = "object" => \A k \in Keys : Get(w, x, k) = (LET p == Pos(Names(w, x), k) IN IF p = 0 THEN Nil ELSE Children(w, x)[p])
Single == \A o \in DOMAIN w.ov : IsInjective(w.ov[o].ks) /\ Len(w.ov[o].ks) = Len(w.ov[o].vs)
\* injecting changes neither the model nor what other overlays show, unless they refer to this one
RECURSIVE Refers(_, _, _)
Refers(u, x, o) == x.k = "ov" /\ (x.n = o \/ Refers(u, u.ov[x.n].w, o))
Local == [][LET op == hist'[Len(hist')]
            IN  op.op = "set" => /\ w'.doc = w.doc
                                 /\ Get(w', Ov(w.hs[op.h]), op.key) = op.v
                                 /\ \A o \in DOMAIN w.ov : \A k \in Keys :
                                      (Get(w', Ov(o), k) # Get(w, Ov(o), k)) => (k = op.key /\ Refers(w, Ov(o), w.hs[op.h]))]_vars
Emit == (Len(hist) = MaxLen /\ "VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.VT_EMIT)
EmitBase == ("VT_EMIT" \in DOMAIN IOEnv /\ hist = <<>>) => CSVWrite("%1$s", <<ToJson(Base)>>, IOEnv.VT_EMIT \o ".base")
============================================================================
