----------------------------- MODULE NamesBulk -----------------------------
(* Larger concurrent histories, without a search for an order: conditions   *)
(* which every order of the operations implies.                             *)
EXTENDS Names, Json, IOUtils, TLC
VARIABLES ci, stage, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)

Entries(o) == ToSet(o.pools[1].dump)
IdsOf(o) == [e \in {Low(d.s) : d \in Entries(o)} |-> (CHOOSE d \in Entries(o) : Low(d.s) = e).id]
Spell(o) == [i \in {d.id : d \in Entries(o)} |-> (CHOOSE d \in Entries(o) : d.id = i).s]

OkOutcome(o) ==
  LET ids == IdsOf(o)   spell == Spell(o)
      Interned == {Low(o.ops[k].op.s) : k \in {j \in 1..Len(o.ops) : o.ops[j].op.op = "emplace"}}
      StaticIds == {0, 1, 2, 3}
      RECURSIVE Sum(_)
      Sum(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE IN Len(spell[e]) + Sum(S \ {e})
      Bytes1 == Sum(DOMAIN spell \ StaticIds)
  IN  /\ "deadlock" \notin DOMAIN o
      /\ Cardinality(Entries(o)) = Cardinality(DOMAIN ids) /\ Cardinality(Entries(o)) = Cardinality(DOMAIN spell)
      /\ \A d \in Entries(o) : d.get = d.id /\ d.upper = d.id
      /\ DOMAIN ids = Interned \cup {Low(e.s) : e \in ToSet(Statics)}
      /\ o.pools[1].stats.size = Cardinality(Entries(o))
      /\ o.pools[1].stats.bytes = Bytes1
      /\ (Interned # {} => o.pools[1].stats.highest \in DOMAIN spell /\ \A i \in DOMAIN spell : i <= o.pools[1].stats.highest)
      /\ \A k \in 1..Len(o.ops) :
           LET x == o.ops[k]
           IN  /\ x.t = "ok"
               /\ CASE x.op.op = "emplace" -> x.v = ids[Low(x.op.s)]
                    [] x.op.op = "get"     -> x.v = 0 \/ (Low(x.op.s) \in DOMAIN ids /\ x.v = ids[Low(x.op.s)])
                    [] x.op.op = "resolve" -> x.op.id \in DOMAIN spell /\ x.v = spell[x.op.id]
                    [] x.op.op = "size"    -> x.v >= 4 /\ x.v <= Cardinality(Entries(o))
                    [] x.op.op = "bytes"   -> x.v >= 0 /\ x.v <= Bytes1
                    [] x.op.op = "highest" -> x.v <= o.pools[1].stats.highest
                    [] x.op.op = "eq"      -> TRUE
                    [] OTHER               -> \A j \in 1..Len(x.v) : x.v[j].id \in DOMAIN spell /\ x.v[j].s = spell[x.v[j].id]

TInit == ci \in 1..Len(Cases) /\ stage = 0 /\ bad = FALSE
TNext == /\ stage = 0 /\ stage' = 1 /\ UNCHANGED ci
         /\ bad' = IF Cases[ci].r = "ok" THEN \E k \in 1..Len(Cases[ci].outcomes) : ~OkOutcome(Cases[ci].outcomes[k]) ELSE TRUE
Verdict == ~bad
============================================================================
