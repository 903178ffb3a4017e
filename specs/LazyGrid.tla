------------------------------ MODULE LazyGrid ------------------------------
(* Lazy interpolation on a grid of fine points.                            *)
(*                                                                         *)
(* A user makes requests, each with several aspects (class of interpolator,*)
(* data, tie points, fine points, options given to the class, options given*)
(* to the call, chunks). Each request becomes a graph of blocks with keys; *)
(* graphs of results that are computed together are merged by key, so that *)
(* a key stands for one block only. Blocks are run in any order, once they *)
(* are asked for, and put at their place.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS NR, NC,      \* sizes of the fine grid
          Values,      \* possible values of each aspect
          MaxReq,      \* number of requests made
          Named        \* aspects that the keys are made of

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Chunkings(_)
Chunkings(n) == IF n = 0 THEN {<<>>}
                ELSE UNION {{<<k>> \o s : s \in Chunkings(n - k)} : k \in 1..n}
Start(ch, i) == Sum(SubSeq(ch, 1, i - 1))
Aspects == {"kind", "data", "ties", "fine", "init", "call"}
(* the same fine points may not be written twice in the same place of different requests: a and b differ in the order *)
FineRows(v) == [i \in 1..NR |-> IF v = 1 THEN 10 + i ELSE 20 - i]
FineCols(v) == [i \in 1..NC |-> IF v = 1 THEN 50 + 2 * i ELSE 70 - i]
(* what interpolating one point gives, whatever the rest of the points: eager and lazy use the same *)
Value(q, r, c) == <<q.kind, q.data, q.ties, q.init, q.call, r, c>>
Eager(q) == [i \in 1..NR |-> [j \in 1..NC |-> Value(q, FineRows(q.fine)[i], FineCols(q.fine)[j])]]
Blocks(q) == {<<a, b>> : a \in 1..Len(q.chunks[1]), b \in 1..Len(q.chunks[2])}
Rows(q, a) == [i \in 1..q.chunks[1][a] |-> FineRows(q.fine)[Start(q.chunks[1], a) + i]]
Cols(q, b) == [i \in 1..q.chunks[2][b] |-> FineCols(q.fine)[Start(q.chunks[2], b) + i]]
Key(q, blk) == <<[x \in Named \cap Aspects |-> q[x]], IF "chunks" \in Named THEN q.chunks ELSE 0, blk>>

VARIABLES asked,      \* requests
          graph,      \* key -> task (what to interpolate)
          together,   \* requests being computed, by number
          done,       \* key -> block of values
          results,    \* request number -> array
          runs        \* number of blocks interpolated
vars == <<asked, graph, together, done, results, runs>>
Requests == {q \in [kind : Values, data : Values, ties : Values, fine : Values, init : Values, call : Values,
                    chunks : Chunkings(NR) \X Chunkings(NC)] : TRUE}
(* requests that differ in few aspects from a base one *)
Base == [kind |-> 1, data |-> 1, ties |-> 1, fine |-> 1, init |-> 1, call |-> 1, chunks |-> <<<<1, NR - 1>>, <<NC>>>>]
Differs(q) == {x \in Aspects : q[x] # Base[x]} \cup (IF q.chunks # Base.chunks THEN {"chunks"} ELSE {})
Near == {q \in Requests : Cardinality(Differs(q)) <= 1}
Init == asked = <<>> /\ graph = <<>> /\ together = {} /\ done = <<>> /\ results = <<>> /\ runs = 0
Task(q, blk) == [q |-> q, rows |-> Rows(q, blk[1]), cols |-> Cols(q, blk[2])]
Ask(q) == /\ Len(asked) < MaxReq /\ together = {}
          /\ asked' = Append(asked, q)
          /\ UNCHANGED <<graph, together, done, results, runs>>
(* merge the graphs: a later task of the same key replaces an earlier one *)
Compute == /\ together = {} /\ asked # <<>>
           /\ \E s \in SUBSET (1..Len(asked)) : /\ s # {} /\ s \cap DOMAIN results = {}
                /\ together' = s
                /\ graph' = [k \in UNION {{Key(asked[i], b) : b \in Blocks(asked[i])} : i \in s} |->
                               LET i == CHOOSE i \in s : /\ \E b \in Blocks(asked[i]) : Key(asked[i], b) = k
                                                         /\ \A j \in s : j > i => ~\E b \in Blocks(asked[j]) : Key(asked[j], b) = k
                                   b == CHOOSE b \in Blocks(asked[i]) : Key(asked[i], b) = k
                               IN  Task(asked[i], b)]
           /\ done' = <<>>
           /\ UNCHANGED <<asked, results, runs>>
Run == /\ together # {}
       /\ \E k \in DOMAIN graph \ DOMAIN done :
             /\ done' = [x \in DOMAIN done \cup {k} |-> IF x = k
                          THEN [i \in 1..Len(graph[k].rows) |-> [j \in 1..Len(graph[k].cols) |->
                                   Value(graph[k].q, graph[k].rows[i], graph[k].cols[j])]]
                          ELSE done[x]]
       /\ runs' = runs + 1
       /\ UNCHANGED <<asked, graph, together, results>>
Which(ch, i) == CHOOSE a \in 1..Len(ch) : Start(ch, a) < i /\ i <= Start(ch, a) + ch[a]
Assembled(q) == [i \in 1..NR |-> [j \in 1..NC |->
                   LET a == Which(q.chunks[1], i)
                       b == Which(q.chunks[2], j)
                       blk == done[Key(q, <<a, b>>)]
                       k == i - Start(q.chunks[1], a)
                       l == j - Start(q.chunks[2], b)
                   IN  IF k <= Len(blk) /\ l <= Len(blk[1]) THEN blk[k][l] ELSE <<>>]]
Collect == /\ together # {} /\ DOMAIN done = DOMAIN graph
           /\ results' = [i \in DOMAIN results \cup together |-> IF i \in together THEN Assembled(asked[i]) ELSE results[i]]
           /\ together' = {} /\ graph' = <<>> /\ done' = <<>>
           /\ UNCHANGED <<asked, runs>>
Next == (\E q \in Near : Ask(q)) \/ Compute \/ Run \/ Collect
Spec == Init /\ [][Next]_vars

LazyUntilAsked == (together = {} /\ results = <<>>) => runs = 0
SameAsEager == \A i \in DOMAIN results : results[i] = Eager(asked[i])
(* equal keys only for equal tasks *)
NoMixUp == \A i, j \in 1..Len(asked) : \A b \in Blocks(asked[i]), d \in Blocks(asked[j]) :
              Key(asked[i], b) = Key(asked[j], d) => Task(asked[i], b) = Task(asked[j], d)
(* sensitivity of the specification: forgetting an aspect in the keys is seen (this one must be violated) *)

----------------------------------------------------------------------------
(* Scenarios for the replay: lists of requests computed together, and how the second and third differ from the first *)
Second == {x : x \in SUBSET (Aspects \cup {"chunks"})}
EmitInit == /\ asked \in {s \in UNION {[1..n -> Second] : n \in 1..2} : \A i \in 1..Len(s) : Cardinality(s[i]) <= 2}
            /\ graph = <<>> /\ together = {} /\ done = <<>> /\ results = <<>> /\ runs = 0
EmitNext == UNCHANGED vars
Emit == PrintT("@@" \o ToJson([differ |-> asked]))

(* Judgement of recorded executions *)
Req == JsonDeserialize(IOEnv.REQ)
(* sizes asked for: a number, -1 for everything, or the sizes themselves *)
RECURSIVE Even(_, _)
Even(total, size) == IF total <= size THEN <<total>> ELSE <<size>> \o Even(total - size, size)
Sizes(a, total) == IF a[1] = "size" THEN IF a[2] = -1 THEN <<total>> ELSE Even(total, a[2]) ELSE a[2]
Fine(r) == /\ r.declared = <<Sizes(r.asked[1], Len(r.rows)), Sizes(r.asked[2], Len(r.cols))>>
           /\ r.early = 0
           /\ r.dtype = r.datadtype
           /\ Len(r.blocks) = Len(r.declared[1]) * Len(r.declared[2])
           /\ \A k \in 1..Len(r.blocks) :
                 LET b == r.blocks[k]
                     p == Start(r.declared[1], b.at[1])
                     q == Start(r.declared[2], b.at[2])
                 IN  /\ b.rows = SubSeq(r.rows, p + 1, p + r.declared[1][b.at[1]])
                     /\ b.cols = SubSeq(r.cols, q + 1, q + r.declared[2][b.at[2]])
           /\ \A k, l \in 1..Len(r.blocks) : k # l => r.blocks[k].at # r.blocks[l].at
JudgeInit == asked = <<>> /\ graph = <<>> /\ together = {} /\ done = <<>> /\ results = <<>> /\ runs = 0
Judge == \A i \in 1..Len(Req) : Fine(Req[i]) \/ PrintT("@@" \o ToJson([bad |-> i]))
Judged == PrintT("@@" \o ToJson([judged |-> Len(Req)]))
=============================================================================
