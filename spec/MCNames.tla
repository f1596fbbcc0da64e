------------------------------ MODULE MCNames ------------------------------
(* All histories of operations on two string pools and one stream, up to a  *)
(* length, with new ids numbered on.                                        *)
EXTENDS Names, Json, CSV, IOUtils, TLC
CONSTANTS MaxLen, Rich
VARIABLES pools, stream, hist, last
vars == <<pools, stream, hist, last>>

a == <<97>>      A == <<65>>       aB == <<97, 66>>      Ab == <<65, 98>>
uml == <<195, 164>>   Uml == <<195, 132>>   \* not letters: not ASCII
Words == IF Rich THEN {a, A, aB, Ab, uml, Uml, <<>>, <<36, 83, 117, 109>>} ELSE {a, A, aB}
P == {1, 2}

Init == pools = [p \in P |-> NewPool] /\ stream = [w |-> FALSE, es |-> <<>>] /\ hist = <<>> /\ last = [op |-> "init"]
(* "off" counts from the lowest id, or backwards from the highest one *)
Ops == [op : {"emplace", "get"}, p : P, s : Words]
       \cup [op : {"static"}, p : {2}, id : {4}, s : {a}]
       \cup {[op |-> "copy", p |-> 1, from |-> 2], [op |-> "copy", p |-> 2, from |-> 1], [op |-> "new", p |-> 2]}
       \cup [op : {"write"}, p : {1}, to : {1}, off : {0, 128}, back : {-1}]
       \cup [op : {"write"}, p : {1}, to : {1}, off : {0}, back : {0, 1}]
       \cup [op : {"read"}, p : P, from : {1}]

Enabled1(op) == /\ op.op = "static" => StaticOk(pools[op.p], op.id, op.s)
                /\ op.op = "read" => stream.w
                /\ hist # <<>> => (op.op = "get" => hist[Len(hist)] # op)
Off(op) == IF op.back < 0 THEN op.off ELSE pools[op.p].high - op.back
Apply(op) ==
  CASE op.op = "new"     -> [ps |-> [pools EXCEPT ![op.p] = NewPool], st |-> stream]
    [] op.op = "emplace" -> [ps |-> [pools EXCEPT ![op.p] = Emplace(@, op.s, @.high + 1)], st |-> stream]
    [] op.op = "get"     -> [ps |-> pools, st |-> stream]
    [] op.op = "static"  -> [ps |-> [pools EXCEPT ![op.p] = AddStatic(@, op.id, op.s)], st |-> stream]
    [] op.op = "copy"    -> [ps |-> [pools EXCEPT ![op.p] = pools[op.from]], st |-> stream]
    [] op.op = "write"   -> [ps |-> pools, st |-> [w |-> TRUE, es |-> Stream(pools[op.p], Off(op))]]
    [] op.op = "read"    -> [ps |-> [pools EXCEPT ![op.p] = Read(@, stream.es).p], st |-> stream]
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : /\ Enabled1(op)
                           /\ LET r == Apply(op) IN pools' = r.ps /\ stream' = r.st
                           /\ hist' = Append(hist, op)
                           /\ last' = [op |-> op.op]

Consistent == \A p \in P : OneToOne(pools[p]) /\ HighOk(pools[p])
(* What was written can be read into a fresh pool, and gives the same ids *)
RoundTrip == LET r == Read(NewPool, Stream(pools[1], 0)) IN ~r.clash /\ Same(r.p, pools[1])
(* A part that was written after an earlier one completes it *)
Incremental == LET first == Read(NewPool, SelectSeq(Stream(pools[1], 0), LAMBDA e : e.id <= 128)).p
                   both == Read(first, Stream(pools[1], 129))
               IN  ~both.clash /\ Same(both.p, pools[1])
Emit == (Len(hist) = MaxLen /\ "VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.VT_EMIT)
(* Ids are for ever: only new, copy and static registrations replace or add what a pool resolves *)
Stable == [][\A p \in P : \A j \in 1..Len(pools[p].tab) :
               (hist'[Len(hist')].op \notin {"new", "copy"}) =>
                  LET e == pools[p].tab[j] IN Used(pools'[p], e.id) /\ Spelling(pools'[p], e.id) = e.s /\ IdOf(pools'[p], e.s) = e.id]_vars
============================================================================
