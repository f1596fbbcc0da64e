------------------------------- MODULE MCJson ------------------------------
(* Explores the reading machine: all texts over a set of tokens up to a     *)
(* length, and checks that it is the inverse of the writer.                 *)
EXTENDS JsonDoc, Json, TLC, CSV, IOUtils, FiniteSets
CONSTANTS MaxLen, Kind
ASSUME MaxLen \in Nat

Struct == << <<123>>, <<125>>, <<91>>, <<93>>, <<58>>, <<44>>, <<34, 97, 34>>, <<34, 66, 34>>, <<49>>, <<45, 50, 46, 53>>, <<110, 117, 108, 108>>, <<32>> >>
Number == << <<48>>, <<49>>, <<57>>, <<45>>, <<43>>, <<46>>, <<101>>, <<69>>, <<32>>, <<44>> >>
\* quote, escapes, pieces of \u escapes (surrogates, too), lead and continuation bytes, control characters, letters
String == << <<34>>, <<92>>, <<92, 117>>, <<117>>, <<110>>, <<47>>, <<48>>, <<68, 56>>, <<100, 67>>, <<48, 48>>, <<48, 48, 48>>, <<69, 57>>, <<194>>, <<223>>, <<224>>, <<237>>, <<239>>, <<240>>, <<244>>, <<192>>, <<245>>, <<128>>, <<143>>, <<144>>, <<160>>, <<191>>, <<31>>, <<127>>, <<10>> >>
Toks == CASE Kind = "struct" -> Struct [] Kind = "number" -> Number [] Kind = "string" -> String
Start == CASE Kind = "string" -> <<34>> [] OTHER -> <<>>

VARIABLES text, x, n
vars == <<text, x, n>>
Init == text = Start /\ x = FoldLeft(Step, Machine, Start) /\ n = 0
Next == /\ n < MaxLen
        /\ x.m # "fail"
        /\ \E k \in 1..Len(Toks) : /\ text' = text \o Toks[k]
                                   /\ x' = FoldLeft(Step, x, Toks[k])
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Whole(y) == LET e == End(y) IN e.m = "ws" /\ e.n = "end"
Balance == (Kind = "struct" /\ x.m # "fail") => Cardinality({i \in 1..Len(text) : text[i] \in {91, 123}}) - Cardinality({i \in 1..Len(text) : text[i] \in {93, 125}}) = Len(x.st)
\* what has been read in pieces is what is read at once
Pieces == LET r == Read(text) IN r.ok = Whole(x) /\ (r.ok => r.v = End(x).r)
RECURSIVE Float(_)
Float(v) == v.t = "dec" \/ \E i \in 1..Len(v.vs) : Float(v.vs[i])
WriteRead == LET r == Read(text)
           IN  (r.ok /\ Plain(r.v) /\ ~Float(r.v))
               => \A s \in 0..2 : Read(Write(r.v, s)) = [ok |-> TRUE, v |-> r.v]
\* nothing but spaces can follow a complete container
Complete == Whole(x) /\ End(x).r.t \in {"array", "object"} => \A k \in 1..11 : FoldLeft(Step, x, Struct[k]).m = "fail"
DumpKeeps == LET r == Read(text) IN (r.ok /\ Plain(r.v)) => Ordered(Dumped(Ordered(r.v))) = Ordered(r.v)
Emit == ("VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(text)>>, IOEnv.VT_EMIT)
============================================================================
