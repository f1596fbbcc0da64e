-------------------------- MODULE ArenaConcTrace ----------------------------
(* Validates what concurrent threads have seen of an arena in which each of *)
(* them appends to and reads arrays of its own: exactly what it had seen,   *)
(* had it been alone.                                                       *)
EXTENDS Arena, Json, IOUtils, TLC
VARIABLES ci, stage, bad
Cases == ndJsonDeserialize(IOEnv.VT_CASES)

Run(s, ops) == FoldLeft(LAMBDA acc, op : LET r == Apply(acc.s, op)
                                         IN  [s |-> r.s, outs |-> Append(acc.outs, r.out)],
                        [s |-> s, outs |-> <<>>], ops)
(* The result of new_array is an index that nobody else has; it is checked by the number of arrays *)
Plain(op, out) == IF op.op = "new" THEN OkV(<<TRUE>>) ELSE out
Same(ops, got, want) == /\ Len(got) = Len(want)
                        /\ \A j \in 1..Len(want) : got[j] = Plain(ops[j], want[j])

Ok(c) == LET s0 == Run(Empty, c.init).s
             one(t) == Run(s0, c.threads[t])
             all == FoldLeft(LAMBDA s, ops : Run(s, ops).s, s0, c.threads)
         IN  \A k \in 1..Len(c.outcomes) :
               LET o == c.outcomes[k]
               IN  /\ "deadlock" \notin DOMAIN o
                   /\ \A t \in 1..Len(c.threads) : Same(c.threads[t], o.res[t], one(t).outs)
                   /\ DumpOk(all, o.dump)

TInit == ci \in 1..Len(Cases) /\ stage = 0 /\ bad = FALSE
TNext == /\ stage = 0 /\ stage' = 1 /\ UNCHANGED ci
         /\ bad' = IF Cases[ci].r = "ok" THEN ~Ok(Cases[ci]) ELSE TRUE
Verdict == ~bad
============================================================================
