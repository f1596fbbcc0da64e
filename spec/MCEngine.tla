------------------------------ MODULE MCEngine -----------------------------
(* Threads that evaluate shared expressions on shared documents, as the     *)
(* implementation does it: a field of an expression caches the id of its    *)
(* name, ids come from a string pool that other threads add to, warnings go *)
(* to a common list.  Checked: every evaluation yields what it yields alone *)
(* and nothing that it reads is changed, whatever the schedule.  The other  *)
(* ways of caching (Cache = "node": the node that was found, "torn": an id  *)
(* that is not read and written at once, Locked = FALSE: warnings without a *)
(* lock) do not have these properties, which is checked as well.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NThreads, Cache, Locked, NEvals

Names == <<"a", "b", "zz">>
Exprs == << <<1, 2>>, <<2>>, <<3, 1>> >>                 \* paths: a.b, b, zz.a  (numbers of names)
(* Documents: nodes with children by name; node 1 is the root, 0 is null *)
Docs == << << <<2, 3, 0>>, <<0, 4, 0>>, <<0, 0, 0>>, <<0, 0, 0>> >>,
           << <<0, 2, 3>>, <<0, 0, 0>>, <<2, 2, 0>> >> >>
Child(d, n, name) == IF n = 0 THEN 0 ELSE Docs[d][n][name]
RECURSIVE Walk(_, _, _, _)
Walk(e, i, d, n) == IF i > Len(Exprs[e]) THEN n ELSE Walk(e, i + 1, d, Child(d, n, Exprs[e][i]))
Result(e, d) == Walk(e, 1, d, 1)                         \* what the evaluation yields alone

Threads == 1..NThreads
Programs == [1..NEvals -> (1..Len(Exprs)) \X (1..Len(Docs))]
VARIABLES prog, pool, cache, cache2, warns, pc
(* pool: name -> id (0: not yet known); the loader of document 2 adds "zz", other ids come first *)
(* cache[e][i], cache2[e][i]: the halves of the id, or the node *)
vars == <<prog, pool, cache, cache2, warns, pc>>
Zero == [e \in 1..Len(Exprs) |-> [i \in 1..Len(Exprs[e]) |-> 0]]
Start == [k |-> 1, i |-> 1, n |-> 1, st |-> "read", c |-> 0, len |-> 0, got |-> <<>>]
Init == /\ prog \in [Threads -> Programs]
        /\ pool \in { <<17, 34, 0>>, <<17, 34, 51>> }
        /\ cache = Zero /\ cache2 = Zero
        /\ warns = <<>>
        /\ pc = [t \in Threads |-> Start]
E(t) == prog[t][pc[t].k][1]
D(t) == prog[t][pc[t].k][2]
Done(t) == pc[t].k > NEvals
NameOf(id) == IF \E m \in 1..3 : pool[m] = id /\ id # 0 THEN CHOOSE m \in 1..3 : pool[m] = id ELSE 0
Under(t) == [pc EXCEPT ![t] = @]
Set(t, r) == pc' = [pc EXCEPT ![t] = r]
Stepped(t, n) == LET p == pc[t]
                 IN  IF p.i < Len(Exprs[E(t)]) THEN [p EXCEPT !.i = @ + 1, !.n = n, !.st = "read", !.c = 0]
                     ELSE [p EXCEPT !.n = n, !.st = "warn", !.c = 0]
Loaded(t) == D(t) # 2 \/ pool[3] # 0                     \* a document is evaluated after it has been loaded
Read(t) == LET p == pc[t]  e == E(t)
           IN  /\ p.st = "read" /\ Loaded(t)
               /\ IF Cache = "torn" THEN Set(t, [p EXCEPT !.c = 16 * cache[e][p.i], !.st = "read2"])
                  ELSE Set(t, [p EXCEPT !.c = cache[e][p.i], !.st = IF cache[e][p.i] = 0 THEN "look" ELSE "step"])
               /\ UNCHANGED <<prog, pool, cache, cache2, warns>>
Read2(t) == LET p == pc[t]  c == p.c + cache2[E(t)][p.i]
            IN  /\ p.st = "read2"
                /\ Set(t, [p EXCEPT !.c = c, !.st = IF c = 0 THEN "look" ELSE "step"])
                /\ UNCHANGED <<prog, pool, cache, cache2, warns>>
Look(t) == LET p == pc[t]  e == E(t)  id == pool[Exprs[e][p.i]]
           IN  /\ p.st = "look"
               /\ IF id = 0 THEN Set(t, Stepped(t, 0)) ELSE Set(t, [p EXCEPT !.c = id, !.st = "store"])
               /\ UNCHANGED <<prog, pool, cache, cache2, warns>>
Store(t) == LET p == pc[t]  e == E(t)
            IN  /\ p.st = "store"
                /\ CASE Cache = "id"   -> cache' = [cache EXCEPT ![e][p.i] = p.c] /\ Set(t, [p EXCEPT !.st = "step"]) /\ UNCHANGED cache2
                     [] Cache = "node" -> cache' = [cache EXCEPT ![e][p.i] = Child(D(t), p.n, NameOf(p.c))] /\ Set(t, Stepped(t, Child(D(t), p.n, NameOf(p.c)))) /\ UNCHANGED cache2
                     [] Cache = "torn" -> cache' = [cache EXCEPT ![e][p.i] = p.c \div 16] /\ Set(t, [p EXCEPT !.st = "store2"]) /\ UNCHANGED cache2
                /\ UNCHANGED <<prog, pool, warns>>
Store2(t) == LET p == pc[t]
             IN  /\ p.st = "store2"
                 /\ cache2' = [cache2 EXCEPT ![E(t)][p.i] = p.c % 16]
                 /\ Set(t, [p EXCEPT !.st = "step"])
                 /\ UNCHANGED <<prog, pool, cache, warns>>
Step(t) == LET p == pc[t]
           IN  /\ p.st = "step"
               /\ Set(t, Stepped(t, IF Cache = "node" THEN p.c ELSE IF NameOf(p.c) = 0 THEN 0 ELSE Child(D(t), p.n, NameOf(p.c))))
               /\ UNCHANGED <<prog, pool, cache, cache2, warns>>
Ended(t) == [pc[t] EXCEPT !.k = @ + 1, !.i = 1, !.n = 1, !.st = "read", !.c = 0, !.got = Append(@, pc[t].n)]
Warn(t) == LET p == pc[t]
           IN  /\ p.st = "warn"
               /\ IF Locked THEN warns' = Append(warns, t) /\ Set(t, Ended(t))
                  ELSE Set(t, [p EXCEPT !.len = Len(warns), !.st = "push"]) /\ UNCHANGED warns
               /\ UNCHANGED <<prog, pool, cache, cache2>>
Push(t) == LET p == pc[t]
           IN  /\ p.st = "push"
               /\ warns' = Append(SubSeq(warns, 1, p.len), t)
               /\ Set(t, Ended(t))
               /\ UNCHANGED <<prog, pool, cache, cache2>>
Load == pool[3] = 0 /\ pool' = [pool EXCEPT ![3] = 51] /\ UNCHANGED <<prog, cache, cache2, warns, pc>>
Next == Load \/ \E t \in Threads : ~Done(t) /\ (Read(t) \/ Read2(t) \/ Look(t) \/ Store(t) \/ Store2(t) \/ Step(t) \/ Warn(t) \/ Push(t))
Spec == Init /\ [][Next]_vars

Repeatable == \A t \in Threads : \A k \in 1..Len(pc[t].got) : pc[t].got[k] = Result(prog[t][k][1], prog[t][k][2])
Complete == (\A t \in Threads : Done(t)) => \A t \in Threads : Cardinality({ j \in 1..Len(warns) : warns[j] = t }) = NEvals
CacheSound == Cache = "id" => \A e \in 1..Len(Exprs) : \A i \in 1..Len(Exprs[e]) : cache[e][i] \in {0, pool[Exprs[e][i]]}
PoolKept == [][\A m \in 1..3 : pool[m] # 0 => pool'[m] = pool[m]]_vars
============================================================================
