----------------------------- MODULE NamesConc -----------------------------
(* The locking of StringPool::emplace, step by step:                        *)
(*   find    under a shared lock: is the name known already?                *)
(*   insert  under an exclusive lock: look again, and only if the name is   *)
(*           still missing give it the next id                              *)
(* Each thread interns the names of its program one after the other.        *)
EXTENDS Names, Json, CSV, IOUtils, TLC
CONSTANTS Threads, Double       \* Double = FALSE: without the second look (has to fail)
VARIABLES pool, pc, at, got, sched
vars == <<pool, pc, at, got, sched>>

x == <<120>>  X == <<88>>  y == <<121>>  z == <<122>>
Prog == << <<x, y>>, <<X, z>>, <<y, X>> >>

Init == /\ pool = NewPool
        /\ pc = [t \in Threads |-> "find"]
        /\ at = [t \in Threads |-> 1]
        /\ got = [t \in Threads |-> <<>>]
        /\ sched = <<>>

Name(t) == Prog[t][at[t]]
Return(t, id) == /\ got' = [got EXCEPT ![t] = Append(@, id)]
                 /\ at' = [at EXCEPT ![t] = @ + 1]
                 /\ pc' = [pc EXCEPT ![t] = "find"]
Find(t) == /\ pc[t] = "find" /\ at[t] <= Len(Prog[t])
           /\ IF Has(pool, Name(t)) THEN Return(t, IdOf(pool, Name(t)))
              ELSE pc' = [pc EXCEPT ![t] = "insert"] /\ UNCHANGED <<at, got>>
           /\ UNCHANGED pool
Insert(t) == /\ pc[t] = "insert"
             /\ IF Double /\ Has(pool, Name(t)) THEN Return(t, IdOf(pool, Name(t))) /\ UNCHANGED pool
                ELSE Return(t, pool.high + 1) /\ pool' = Add(pool, Name(t), pool.high + 1, TRUE)
Next == \E t \in Threads : (Find(t) \/ Insert(t)) /\ sched' = Append(sched, t - 1)

Consistent == OneToOne(pool) /\ HighOk(pool)
(* An id that was returned is the one id of the name from then on *)
Returned == \A t \in Threads : \A k \in 1..Len(got[t]) :
               Used(pool, got[t][k]) /\ Low(Spelling(pool, got[t][k])) = Low(Prog[t][k]) /\ IdOf(pool, Prog[t][k]) = got[t][k]
Finished == \A t \in Threads : at[t] > Len(Prog[t])
NoGap == Finished => {e.id : e \in {d \in ToSet(pool.tab) : d.b}} = FirstDynamic..pool.high
Emit == (Finished /\ "VT_EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(sched)>>, IOEnv.VT_EMIT)
============================================================================
