------------------------------ MODULE MCArena ------------------------------
(* All histories of arena operations up to a length, for the real code.     *)
(* Next to the abstract state runs a model of the chunks (capacities only), *)
(* so that each history can be labelled with what it does to the storage.   *)
EXTENDS Arena, FiniteSets, Json, CSV, IOUtils, TLC
CONSTANTS MaxLen, MaxArrays, Caps, Long

VARIABLES s, caps, hist, last
vars == <<s, caps, hist, last>>

Init == s = Empty /\ caps = <<>> /\ hist = <<>> /\ last = [op |-> [op |-> "count"], before |-> Empty, out |-> OkV(<<0>>)]

Total(cs) == FoldLeft(LAMBDA a, b : a + b, 0, cs)
Val == 100 + Len(hist)

News == IF Len(s.arrs) < MaxArrays THEN [op : {"new"}, cap : Caps] ELSE {}
Idx == 0..(Len(s.arrs) - 1)
Grows == [op : {"push", "emplace"}, a : Idx, v : {Val}]
Fills == [op : {"fill"}, a : Idx, n : {5}, v : {10 * Val}]
Sets == {[op |-> "set", a |-> a, i |-> 0, v |-> Val] : a \in {x \in Idx : x = 0}}
Clears == IF Len(hist) > 1 THEN {[op |-> "clear"]} ELSE {}

Step(op) == LET r == Apply(s, op)
            IN  /\ s' = r.s
                /\ hist' = Append(hist, op)
                /\ last' = [op |-> op, before |-> s, out |-> r.out]
                /\ caps' = CASE op.op = "new" -> Append(caps, <<op.cap>>)
                             [] op.op = "clear" -> <<>>
                             [] op.op \in {"push", "emplace"} ->
                                  IF Len(s.arrs[op.a + 1]) < Total(caps[op.a + 1]) THEN caps
                                  ELSE LET c == caps[op.a + 1]
                                           n == IF 2 * c[Len(c)] > 2 THEN 2 * c[Len(c)] ELSE 2
                                       IN  [caps EXCEPT ![op.a + 1] = IF c = <<0>> THEN <<2>> ELSE Append(c, n)]
                             [] OTHER -> caps
Next == /\ Len(hist) < MaxLen
        /\ \E op \in News \cup Grows \cup Sets \cup Clears \cup (IF Long THEN Fills ELSE {}) : Step(op)

(* No array is affected by what happens to another one *)
Independent == (last.op.op \in {"push", "emplace", "set"}) =>
                 \A a \in 1..Len(s.arrs) : a # last.op.a + 1 => s.arrs[a] = last.before.arrs[a]
AppendOnly == (last.op.op \in {"push", "emplace"}) =>
                 /\ IsPrefix(last.before.arrs[last.op.a + 1], s.arrs[last.op.a + 1])
                 /\ Len(s.arrs[last.op.a + 1]) = Len(last.before.arrs[last.op.a + 1]) + 1
RefsAlive == \A j \in 1..Len(s.refs) : s.refs[j][1] <= Len(s.arrs) /\ s.refs[j][2] <= Len(s.arrs[s.refs[j][1]])
Room == \A a \in 1..Len(s.arrs) : Len(s.arrs[a]) <= Total(caps[a]) \/ \E j \in 1..Len(hist) : hist[j].op = "fill"
Emit == (Len(hist) = MaxLen /\ "VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.VT_EMIT)
============================================================================
