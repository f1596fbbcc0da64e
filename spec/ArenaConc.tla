----------------------------- MODULE ArenaConc -----------------------------
(* The locking of the thread-safe array arena, at the level of its chunks.  *)
(* Each thread appends to arrays of its own:                                *)
(*   look   under a shared lock: is there room in the last chunk?           *)
(*   grow   under an exclusive lock: a new chunk with twice the capacity    *)
(*   store  under a shared lock: write the element, count it                *)
(* Chunks are [off, cap, size, next, last] as in the implementation; the    *)
(* size of a head is the size of the whole array.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, CSV, IOUtils, TLC
CONSTANTS Threads, PerThread, Cap

None == -1
VARIABLES heads, conts, data, pc, done, chunk, sched
vars == <<heads, conts, data, pc, done, chunk, sched>>

Val(t, k) == 10 * t + k
Larger(a, b) == IF a > b THEN a ELSE b

Init == /\ heads = [t \in Threads |-> [off |-> (t - 1) * Cap, cap |-> Cap, size |-> 0, next |-> None, last |-> None]]
        /\ conts = <<>>
        /\ data = [j \in 1..(Cardinality(Threads) * Cap) |-> 0]
        /\ pc = [t \in Threads |-> "look"]
        /\ done = [t \in Threads |-> 0]
        /\ chunk = [t \in Threads |-> None]           \* where to store: 0 the head, or a continuation
        /\ sched = <<>>

LastChunk(t) == IF heads[t].last = None THEN heads[t] ELSE conts[heads[t].last]
Where(t) == IF heads[t].last = None THEN 0 ELSE heads[t].last

Look(t) == /\ pc[t] = "look" /\ done[t] < PerThread
           /\ IF LastChunk(t).size < LastChunk(t).cap
              THEN pc' = [pc EXCEPT ![t] = "store"] /\ chunk' = [chunk EXCEPT ![t] = Where(t)]
              ELSE pc' = [pc EXCEPT ![t] = "grow"] /\ UNCHANGED chunk
           /\ UNCHANGED <<heads, conts, data, done>>

Grow(t) == /\ pc[t] = "grow"
           /\ LET n == Larger(2, LastChunk(t).cap * 2)
                  off == Len(data)
              IN  /\ data' = data \o [j \in 1..n |-> 0]
                  /\ IF heads[t].cap = 0
                     THEN /\ heads' = [heads EXCEPT ![t].off = off, ![t].cap = n]
                          /\ UNCHANGED conts
                          /\ chunk' = [chunk EXCEPT ![t] = 0]
                     ELSE LET i == Len(conts) + 1
                              linked == IF heads[t].last = None THEN conts ELSE [conts EXCEPT ![heads[t].last].next = i]
                          IN  /\ conts' = Append(linked, [off |-> off, cap |-> n, size |-> 0, next |-> None, last |-> None])
                              /\ heads' = IF heads[t].last = None THEN [heads EXCEPT ![t].next = i, ![t].last = i]
                                          ELSE [heads EXCEPT ![t].last = i]
                              /\ chunk' = [chunk EXCEPT ![t] = i]
           /\ pc' = [pc EXCEPT ![t] = "store"]
           /\ UNCHANGED done

Store(t) == /\ pc[t] = "store"
            /\ LET c == IF chunk[t] = 0 THEN heads[t] ELSE conts[chunk[t]]
               IN  data' = [data EXCEPT ![c.off + c.size + 1] = Val(t, done[t] + 1)]
            /\ heads' = [heads EXCEPT ![t].size = @ + 1]
            /\ conts' = IF chunk[t] = 0 THEN conts ELSE [conts EXCEPT ![chunk[t]].size = @ + 1]
            /\ done' = [done EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = "look"]
            /\ UNCHANGED chunk

Next == \E t \in Threads : (Look(t) \/ Grow(t) \/ Store(t)) /\ sched' = Append(sched, t - 1)
Spec == Init /\ [][Next]_vars

(* What a reader sees: the chunks from the head on *)
RECURSIVE Read(_, _)
Read(c, left) == LET n == IF left < c.cap THEN left ELSE c.cap
                     xs == [j \in 1..n |-> data[c.off + j]]
                 IN  IF c.next = None THEN xs ELSE xs \o Read(conts[c.next], left - n)

Sequential == \A t \in Threads : Read(heads[t], heads[t].size) = [k \in 1..done[t] |-> Val(t, k)]
Chunks(t) == {heads[t]} \cup (LET RECURSIVE Follow(_)
                                  Follow(i) == IF i = None THEN {} ELSE {conts[i]} \cup Follow(conts[i].next)
                              IN  Follow(heads[t].next))
Cells(c) == (c.off + 1)..(c.off + c.cap)
Disjoint == \A t, u \in Threads : \A c \in Chunks(t), d \in Chunks(u) : (t # u \/ c # d) => Cells(c) \cap Cells(d) = {}
Finished == \A t \in Threads : done[t] = PerThread
Emit == (Finished /\ "VT_EMIT" \in DOMAIN IOEnv)
          => CSVWrite("%1$s", <<ToJson(sched)>>, IOEnv.VT_EMIT)
View == <<heads, conts, data, pc, done, chunk>>
============================================================================
