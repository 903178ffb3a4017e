------------------------------ MODULE RejectVii -----------------------------
(* Requests to interpolate VII tie points: arrays of the same dimensions   *)
(* (names and sizes) made of whole scans.  The arrays are worked on one    *)
(* after the other: a request must not be answered in part.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes,       \* set of sequences of sizes
          Names,       \* set of sequences of names of dimensions
          Scans,       \* lines of tie points per scan
          Factors, MaxArrays,
          Bug

VARIABLES req, at, done, pc
vars == <<req, at, done, pc>>

Arrays == {a \in [size : Sizes, name : Names] : Len(a.size) = Len(a.name)}
Requests == [arrays : UNION {[1..n -> Arrays] : n \in 1..MaxArrays}, scan : Scans, factor : Factors]

WellFormed(r) == /\ Len(r.arrays[1].size) = 2
                 /\ \A i \in DOMAIN r.arrays : r.arrays[i] = r.arrays[1]
                 /\ r.arrays[1].size[1] % r.scan = 0
Answer(r) == LET lines == r.arrays[1].size[1] IN
             <<(lines \div r.scan) * (r.scan - 1) * r.factor, (r.arrays[1].size[2] - 1) * r.factor>>

Init == req \in Requests /\ at = 0 /\ done = <<>> /\ pc = "called"
Called == /\ pc = "called" /\ UNCHANGED <<req, done>>
          /\ IF \/ Len(req.arrays[1].size) # 2
                \/ Bug # "scans" /\ req.arrays[1].size[1] % req.scan # 0
             THEN pc' = "refused" /\ UNCHANGED at
             ELSE pc' = "working" /\ at' = 1
Work == /\ pc = "working" /\ UNCHANGED req
        /\ IF \/ Bug # "names" /\ req.arrays[at].name # req.arrays[1].name
              \/ Bug # "sizes" /\ req.arrays[at].size # req.arrays[1].size
           THEN pc' = "refused" /\ done' = <<>> /\ UNCHANGED at
           ELSE /\ done' = Append(done, at) /\ at' = at + 1
                /\ pc' = IF at = Len(req.arrays) THEN "answered" ELSE "working"
Next == Called \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refused == pc = "refused" => ~WellFormed(req)
Answered == pc = "answered" => WellFormed(req) /\ done = [i \in 1..Len(req.arrays) |-> i]
Settled == <>(pc \in {"refused", "answered"})

EmitInit == req \in Requests /\ at = 0 /\ done = <<>> /\ pc = "emit"
EmitNext == FALSE /\ UNCHANGED vars
Emit == PrintT("@@" \o ToJson([arrays |-> req.arrays, scan |-> req.scan, factor |-> req.factor, ok |-> WellFormed(req),
                       answer |-> IF WellFormed(req) THEN Answer(req) ELSE <<>>]))
=============================================================================
