------------------------------ MODULE BlockMap ------------------------------
(* MODIS interpolation of dask arrays: the arrays are cut in blocks of     *)
(* whole scans over the full width, blocks are interpolated independently, *)
(* by any workers in any order, when the result is asked for, and put      *)
(* together at their place.                                                *)
(*                                                                         *)
(* Containers: what is returned for what is given.                         *)
(* The machine covers the whole life: choice of containers and chunks by   *)
(* the user, rechunking, laziness, execution in any order, assembly.       *)
(* The same rules (Partition, Declared...) judge recorded executions of    *)
(* the code.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Lines,       \* numbers of lines of the swath
          RPS,         \* lines per scan
          Factor,      \* fine lines per line
          NArgs,       \* number of arrays
          Workers

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* all the ways to cut n lines in chunks *)
RECURSIVE Chunkings(_)
Chunkings(n) == IF n = 0 THEN {<<>>}
                ELSE UNION {{<<k>> \o s : s \in Chunkings(n - k)} : k \in 1..n}

(* rules *)
Partition(chunks, total, per) == Sum(chunks) = total /\ \A i \in 1..Len(chunks) : chunks[i] > 0 /\ chunks[i] % per = 0
Start(chunks, i) == Sum(SubSeq(chunks, 1, i - 1))

(* containers: the kind of each array decides the kind of the results, by the first one *)
Kinds == {"numpy", "dask", "xr-numpy", "xr-dask"}
Compatible(ks) == \/ \A i \in 1..Len(ks) : ks[i] = "numpy"
                  \/ \A i \in 1..Len(ks) : ks[i] # "numpy"
ResultKind(ks) == IF ks[1] = "numpy" THEN "numpy" ELSE IF ks[1] = "dask" THEN "dask" ELSE "xarray"
Lazy(ks) == ks[1] # "numpy"
(* an array that is not cut yet has one chunk *)
HasChunks(k) == k \in {"dask", "xr-dask"}

VARIABLES n, kinds, chunks,     \* the request: chunks per array
          pc, blocks,           \* chunks after rechunking, per array
          todo, busy, done,     \* execution: block numbers; done: block -> lines it was made from, per array
          order,                \* order in which blocks were finished
          out, calls
vars == <<n, kinds, chunks, pc, blocks, todo, busy, done, order, out, calls>>

Init == /\ n \in {l \in Lines : l % RPS = 0}
        /\ kinds \in {ks \in [1..NArgs -> Kinds] : Compatible(ks) /\ Lazy(ks)}
        /\ chunks \in [1..NArgs -> Chunkings(n)]
        /\ \A a \in 1..NArgs : ~HasChunks(kinds[a]) => chunks[a] = <<n>>
        /\ pc = "given" /\ blocks = <<>> /\ todo = {} /\ busy = {} /\ done = <<>> /\ order = <<>> /\ out = <<>> /\ calls = 0

(* a chunk size in whole scans, similar to the first one of the first array *)
Whole(c) == LET k == (IF c \div RPS > 0 THEN c \div RPS ELSE 1) * RPS IN k
RECURSIVE Even(_, _)
Even(total, size) == IF total <= size THEN <<total>> ELSE <<size>> \o Even(total - size, size)
Good == /\ \A a \in 1..NArgs : chunks[a] = chunks[1]
        /\ \A i \in 1..Len(chunks[1]) : chunks[1][i] % RPS = 0
Rechunk == /\ pc = "given"
           /\ blocks' \in {[a \in 1..NArgs |-> Even(n, Whole(chunks[1][1]))]}
                          \cup (IF Good THEN {chunks} ELSE {})      \* may keep them
           /\ pc' = "lazy"
           /\ UNCHANGED <<n, kinds, chunks, todo, busy, done, order, out, calls>>
Declared == [i \in 1..Len(blocks[1]) |-> blocks[1][i] * Factor]
(* nothing happens until the user asks *)
Ask == /\ pc = "lazy"
       /\ todo' = 1..Len(blocks[1]) /\ pc' = "run"
       /\ UNCHANGED <<n, kinds, chunks, blocks, busy, done, order, out, calls>>
Take == /\ pc = "run" /\ todo # {} /\ Cardinality(busy) < Workers
        /\ \E b \in todo : todo' = todo \ {b} /\ busy' = busy \cup {b}
        /\ calls' = calls + 1
        /\ UNCHANGED <<n, kinds, chunks, pc, blocks, done, order, out>>
Finish == /\ pc = "run"
          /\ \E b \in busy :
                /\ busy' = busy \ {b}
                /\ order' = Append(order, b)
                /\ done' = [i \in DOMAIN done \cup {b} |-> IF i = b
                              THEN [a \in 1..NArgs |-> <<Start(blocks[a], b), blocks[a][b]>>] ELSE done[i]]
          /\ UNCHANGED <<n, kinds, chunks, pc, blocks, todo, out, calls>>
(* output line -> the block line range it is computed from, per array *)
Assemble == /\ pc = "run" /\ todo = {} /\ busy = {}
            /\ out' = [l \in 0..(n * Factor - 1) |->
                          LET b == CHOOSE i \in 1..Len(Declared) :
                                     /\ Start(Declared, i) <= l
                                     /\ l < Start(Declared, i) + Declared[i]
                          IN  <<l - Start(Declared, b), done[b]>>]
            /\ pc' = "end"
            /\ UNCHANGED <<n, kinds, chunks, blocks, todo, busy, done, order, calls>>
Next == Rechunk \/ Ask \/ Take \/ Finish \/ Assemble
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WholeScans == pc # "given" => \A a \in 1..NArgs : Partition(blocks[a], n, RPS)
DeclaredOk == pc # "given" => Partition(Declared, n * Factor, RPS * Factor)
(* all the arrays are cut alike, so that blocks hold the same lines *)
Aligned == \A b \in DOMAIN done : \A a \in 1..NArgs : done[b][a] = done[b][1]
LazyUntilAsked == pc \in {"given", "lazy"} => calls = 0
OncePerBlock == pc = "end" => calls = Len(blocks[1]) /\ Len(order) = calls
(* fine line l is made, at its place in its scan, from the lines of its own scan, whatever the order *)
RightPlace == pc = "end" => \A l \in DOMAIN out :
                 LET first == out[l][2][1][1]
                     inblock == out[l][1]
                     scan == l \div (RPS * Factor)
                 IN  /\ first * Factor + inblock = l
                     /\ first <= scan * RPS /\ (scan + 1) * RPS <= first + out[l][2][1][2]
                     /\ first % RPS = 0
Terminates == <>(pc = "end")

----------------------------------------------------------------------------
(* Scenarios: containers of the arrays *)
EmitInit == /\ n = RPS /\ kinds \in {ks \in [1..NArgs -> Kinds] : Compatible(ks)} /\ chunks = <<>>
            /\ pc = "" /\ blocks = <<>> /\ todo = {} /\ busy = {} /\ done = <<>> /\ order = <<>> /\ out = <<>> /\ calls = 0
EmitNext == UNCHANGED vars
Emit == PrintT("@@" \o ToJson([kinds |-> kinds, result |-> ResultKind(kinds), lazy |-> Lazy(kinds)]))
(* Scenarios: chunks of the arrays *)
EmitChunksInit == /\ n \in Lines /\ kinds = <<>> /\ chunks \in [1..NArgs -> Chunkings(n)]
                  /\ pc = "" /\ blocks = <<>> /\ todo = {} /\ busy = {} /\ done = <<>> /\ order = <<>> /\ out = <<>> /\ calls = 0
EmitChunks == PrintT("@@" \o ToJson([chunks |-> chunks, keep |-> Good, whole |-> \A a \in 1..NArgs : Partition(chunks[a], n, RPS),
                                    alike |-> \A a \in 1..NArgs : Len(chunks[a]) = Len(chunks[1])]))

(* Judgement of recorded executions: declared chunks of each result, shapes of the computed blocks, counts of
   computations before and after asking *)
Req == JsonDeserialize(IOEnv.REQ)
Fine(r) == Partition(r.declared, r.lines * r.factor, r.rps * r.factor)
           /\ r.computed = r.declared
           /\ r.width = r.finewidth /\ \A i \in 1..Len(r.widths) : r.widths[i] = r.finewidth
           /\ r.early = 0
           /\ r.result = ResultKind(r.kinds)
           /\ r.dtype = r.indtype /\ r.computeddtype = r.indtype
           /\ r.dims = r.indims
JudgeInit == /\ n = RPS /\ kinds = <<>> /\ chunks = <<>>
             /\ pc = "" /\ blocks = <<>> /\ todo = {} /\ busy = {} /\ done = <<>> /\ order = <<>> /\ out = <<>> /\ calls = 0
Judge == \A i \in 1..Len(Req) : Fine(Req[i]) \/ PrintT("@@" \o ToJson([bad |-> i]))
Judged == PrintT("@@" \o ToJson([judged |-> Len(Req)]))
=============================================================================
