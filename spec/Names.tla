------------------------------- MODULE Names -------------------------------
(* String pools: a bijection between names (up to letter case) and ids.     *)
(* A pool is [tab: Seq([k, s, id, b]), high] in the order of insertion:     *)
(*   k  the name in lower case, s the spelling that was stored first,       *)
(*   id its id, b whether it counts for bytes (static names do not).        *)
(* Which id a new name gets is not specified, but it has to be a fresh one, *)
(* larger than all that were handed out before: parts of a pool are written *)
(* by ranges of ids. The id is therefore an argument of Emplace.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

FirstDynamic == 128
MaxId == 65535
Low(s) == [j \in 1..Len(s) |-> IF s[j] \in 65..90 THEN s[j] + 32 ELSE s[j]]
Entry(s, id, b) == [k |-> Low(s), s |-> s, id |-> id, b |-> b]

\* "$sum", "$val", "$idx"
Statics == << Entry(<<>>, 0, FALSE), Entry(<<36, 115, 117, 109>>, 1, FALSE), Entry(<<36, 118, 97, 108>>, 2, FALSE), Entry(<<36, 105, 100, 120>>, 3, FALSE) >>
NewPool == [tab |-> Statics, high |-> FirstDynamic - 1]

Has(p, s) == \E j \in 1..Len(p.tab) : p.tab[j].k = Low(s)
IdOf(p, s) == p.tab[CHOOSE j \in 1..Len(p.tab) : p.tab[j].k = Low(s)].id
Used(p, id) == \E j \in 1..Len(p.tab) : p.tab[j].id = id
Spelling(p, id) == p.tab[CHOOSE j \in 1..Len(p.tab) : p.tab[j].id = id].s

Add(p, s, id, b) == [tab |-> Append(p.tab, Entry(s, id, b)), high |-> IF id > p.high THEN id ELSE p.high]

(* emplace(s) may answer id: *)
EmplaceOk(p, s, id) == IF Has(p, s) THEN id = IdOf(p, s) ELSE id > p.high /\ id >= FirstDynamic /\ id <= MaxId
Emplace(p, s, id) == IF Has(p, s) THEN p ELSE Add(p, s, id, TRUE)
Full(p) == p.high >= MaxId - 1

Get(p, s) == IF Has(p, s) THEN IdOf(p, s) ELSE 0
Size(p) == Len(p.tab)
Bytes(p) == FoldLeft(LAMBDA a, e : IF e.b THEN a + Len(e.s) ELSE a, 0, p.tab)

(* addStaticKey is defined for a new name and an id below the dynamic ones that is free *)
StaticOk(p, id, s) == ~Has(p, s) /\ ~Used(p, id) /\ id < FirstDynamic
AddStatic(p, id, s) == [p EXCEPT !.tab = Append(@, Entry(s, id, FALSE))]

(* A stream holds the entries from an id on, by id *)
Stream(p, off) == SetToSortSeq({ [id |-> e.id, s |-> e.s] : e \in {x \in ToSet(p.tab) : x.id >= off} }, LAMBDA a, b : a.id < b.id)
ReadOne(acc, e) ==
  IF acc.clash THEN acc
  ELSE IF Has(acc.p, e.s) THEN acc                          \* known already (the id stays the one it had)
  ELSE IF Used(acc.p, e.id) THEN [acc EXCEPT !.clash = TRUE]  \* one id for two names: has to be refused
  ELSE [acc EXCEPT !.p = Add(@, e.s, e.id, TRUE)]
Read(p, stream) == FoldLeft(ReadOne, [p |-> p, clash |-> FALSE], stream)

(* Equal pools give the same ids to the same names. Whether pools are equal *)
(* that only differ in the letter case of names is not specified.           *)
Same(p, q) == {<<e.k, e.id>> : e \in ToSet(p.tab)} = {<<e.k, e.id>> : e \in ToSet(q.tab)}

SameSpelled(p, q) == {<<e.s, e.id>> : e \in ToSet(p.tab)} = {<<e.s, e.id>> : e \in ToSet(q.tab)}
EqOk(p, q, v) == (v = 1 /\ Same(p, q)) \/ (v = 0 /\ ~SameSpelled(p, q))

(* The invariants that every pool has *)
OneToOne(p) == \A i, j \in 1..Len(p.tab) : i # j => p.tab[i].k # p.tab[j].k /\ p.tab[i].id # p.tab[j].id
HighOk(p) == \A j \in 1..Len(p.tab) : p.tab[j].id <= p.high
============================================================================
