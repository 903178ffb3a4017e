----------------------------- MODULE RejectMulti ----------------------------
(* Requests to interpolate on a regular grid: made, given values, then     *)
(* asked for points. Sizes that do not belong together must be refused at  *)
(* one of these steps, never read out of the arrays.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Orders,      \* set of sequences of numbers of points
          Off,         \* what may be added to sizes
          Lines,       \* numbers of lines of values
          Points,      \* numbers of points
          Flat,        \* BOOLEAN values: values or points of one dimension
          MaxDim, Bug

VARIABLES req, pc, reads
vars == <<req, pc, reads>>

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Requests == {r \in [orders : Orders, smin : Off, smax : Off, cols : Off, lines : Lines, dims : Off, points : Points,
                    flatv : Flat, flatp : Flat] :
                /\ \A n \in {r.smin, r.smax, r.dims} : Len(r.orders) + n > 0
                /\ Product(r.orders) + r.cols > 0}
WellFormed(r) == /\ Len(r.orders) \in 1..MaxDim
                 /\ \A i \in DOMAIN r.orders : r.orders[i] > 1
                 /\ r.smin = 0 /\ r.smax = 0 /\ r.cols = 0 /\ r.dims = 0
                 /\ ~r.flatv /\ ~r.flatp
Answer(r) == <<r.lines, r.points>>

Init == req \in Requests /\ pc = "make" /\ reads = {}
Make == /\ pc = "make" /\ UNCHANGED <<req, reads>>
        /\ pc' = IF \/ Bug # "limits" /\ (req.smin # 0 \/ req.smax # 0)
                    \/ Bug # "orders" /\ (\E i \in DOMAIN req.orders : req.orders[i] < 2)
                 THEN "refused" ELSE "set"
Set == /\ pc = "set" /\ UNCHANGED <<req, reads>>
       /\ pc' = IF req.flatv \/ (Bug # "values" /\ req.cols # 0) THEN "refused" ELSE "ask"
Ask == /\ pc = "ask" /\ UNCHANGED <<req, reads>>
       /\ pc' = IF req.flatp \/ (Bug # "points" /\ req.dims # 0) \/ Len(req.orders) + req.dims > MaxDim THEN "refused" ELSE "work"
(* what is read of each array when points are worked on: the last index *)
Work == /\ pc = "work" /\ pc' = "answered" /\ UNCHANGED req
        /\ LET d == Len(req.orders) + req.dims     \* the dimensions of the points rule
           IN  reads' = {<<"limits", d>>, <<"orders", d>>,
                         <<"values", Product([i \in 1..d |-> IF i <= Len(req.orders)
                                                             THEN (IF req.orders[i] < 2 THEN 2 ELSE req.orders[i]) ELSE 2])>>}
Next == Make \/ Set \/ Ask \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Size(name) == CASE name = "limits" -> Len(req.orders) + (IF req.smin < req.smax THEN req.smin ELSE req.smax)
                [] name = "orders" -> Len(req.orders)
                [] name = "values" -> Product(req.orders) + req.cols
InBounds == \A x \in reads : x[2] <= Size(x[1])
Decided == /\ pc = "refused" => ~WellFormed(req)
           /\ pc = "answered" => WellFormed(req)
Settled == <>(pc \in {"refused", "answered"})

EmitInit == req \in Requests /\ pc = "emit" /\ reads = {}
EmitNext == FALSE /\ UNCHANGED vars
Emit == PrintT("@@" \o ToJson([req |-> req, ok |-> WellFormed(req), answer |-> Answer(req)]))
=============================================================================
