----------------------------- MODULE RejectModis ----------------------------
(* What becomes of a request to interpolate MODIS geolocation: it is       *)
(* answered with arrays of the expected shape exactly when it is well      *)
(* formed, and refused otherwise, when called or when computed.            *)
(*                                                                         *)
(* The steps are those of the code: the common checks when called (for     *)
(* every container), then one computation per block of whole scans, in     *)
(* any order, whose own checks may refuse a lazy request later.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Schemes,     \* "simple" and "cviirs"
          Pairs,       \* of coarse and fine resolutions asked for (0: none given)
          SimpleShapes, Shapes1, Shapes5,   \* shapes of the arrays
          Widths,      \* scan widths declared to the 5km scheme (-1: that of the longitudes, 0: none)
          Bug          \* "none" or the check forgotten

VARIABLES req, pc, blocks, out
vars == <<req, pc, blocks, out>>

RowsPerScan(coarse) == CASE coarse = 5000 -> 2 [] coarse = 1000 -> 10 [] coarse = 500 -> 20 [] coarse = 250 -> 40 [] OTHER -> 0

(* -- what a well formed request is ------------------------------------- *)
Supported(scheme, coarse, fine) ==
    \/ scheme = "simple" /\ coarse = 1000 /\ fine \in {500, 250}
    \/ scheme = "cviirs" /\ coarse = 1000 /\ fine \in {500, 250}
    \/ scheme = "cviirs" /\ coarse = 5000 /\ fine \in {1000, 500, 250}
GoodWidth(scheme, coarse, width) == CASE scheme = "simple" -> width >= 2
                                      [] scheme = "cviirs" /\ coarse = 1000 -> width = 1354
                                      [] scheme = "cviirs" /\ coarse = 5000 -> width \in {270, 271}
                                      [] OTHER -> FALSE
Declared(r) == \/ r.scheme = "simple" \/ r.coarse = 1000
               \/ r.width = -1
               \/ r.width = r.shapes[1][2]
               \/ r.width = 0 /\ r.shapes[1][2] = 271
WellFormed(r) == /\ \A i \in DOMAIN r.shapes : Len(r.shapes[i]) = 2 /\ r.shapes[i] = r.shapes[1]
                 /\ Supported(r.scheme, r.coarse, r.fine)
                 /\ r.shapes[1][1] % RowsPerScan(r.coarse) = 0
                 /\ GoodWidth(r.scheme, r.coarse, r.shapes[1][2])
                 /\ Declared(r)
FineWidth(r) == IF r.coarse = 5000 THEN 1354 * (1000 \div r.fine) ELSE r.shapes[1][2] * (r.coarse \div r.fine)
Answer(r) == <<r.shapes[1][1] * (r.coarse \div r.fine), FineWidth(r)>>

(* -- how it is treated ---------------------------------------------------- *)
Number(scheme) == IF scheme = "simple" THEN 2 ELSE 3
Shapes(scheme, coarse) == IF scheme = "simple" THEN SimpleShapes ELSE IF coarse = 5000 THEN Shapes5 ELSE Shapes1
Tuples(scheme, coarse) == [1..Number(scheme) -> Shapes(scheme, coarse)]
Requests == UNION {UNION {[scheme : {s}, coarse : {p[1]}, fine : {p[2]}, shapes : Tuples(s, p[1]),
                           width : IF s = "cviirs" /\ p[1] = 5000 THEN Widths ELSE {-1}, lazy : BOOLEAN]
                   : p \in Pairs} : s \in Schemes}

Init == req \in Requests /\ pc = "called" /\ blocks = {} /\ out = {}
Refuse == pc' = "refused" /\ UNCHANGED <<req, blocks, out>>
Called == pc = "called" /\ UNCHANGED req /\
    IF \/ 0 \in {req.coarse, req.fine}
       \/ Bug # "dimensions" /\ \E i \in DOMAIN req.shapes : Len(req.shapes[i]) # 2
       \/ Bug # "shapes" /\ \E i \in DOMAIN req.shapes : req.shapes[i] # req.shapes[1]
       \/ RowsPerScan(req.coarse) = 0
    THEN Refuse
    ELSE IF Bug # "scans" /\ req.shapes[1][1] % RowsPerScan(req.coarse) # 0 THEN Refuse
    ELSE /\ pc' = IF req.lazy THEN "lazy" ELSE "computing"
         /\ blocks' = IF req.lazy THEN {1, 2} ELSE {1}
         /\ UNCHANGED out
(* a lazy request is computed only if the user asks *)
Compute == pc = "lazy" /\ pc' = "computing" /\ UNCHANGED <<req, blocks, out>>
Block == pc = "computing" /\ \E b \in blocks :
    IF \/ Bug # "pairs" /\ ~Supported(req.scheme, req.coarse, req.fine)
       \/ Bug # "widths" /\ Len(req.shapes[1]) = 2 /\ ~GoodWidth(req.scheme, req.coarse, req.shapes[1][2])
       \/ Bug # "declared" /\ ~Declared(req)
    THEN Refuse
    ELSE /\ blocks' = blocks \ {b} /\ out' = out \cup {b} /\ UNCHANGED <<req>>
         /\ pc' = IF blocks = {b} THEN "answered" ELSE "computing"
Next == Called \/ Compute \/ Block
Spec == Init /\ [][Next]_vars /\ WF_vars(Called) /\ WF_vars(Block)

Refused == pc = "refused" => ~WellFormed(req)
Answered == pc = "answered" => WellFormed(req)
(* nothing is decided late that could not be: a lazy request that is well formed stays lazy until asked *)
Decided == WellFormed(req) => pc # "refused"
Settled == [](pc = "called" => <>(pc \in {"refused", "lazy", "answered"}))

(* -- requests to replay --------------------------------------------------- *)
EmitInit == req \in {r \in Requests : ~r.lazy} /\ pc = "emit" /\ blocks = {} /\ out = {}
EmitNext == FALSE /\ UNCHANGED vars
Emit == PrintT("@@" \o ToJson([scheme |-> req.scheme, coarse |-> req.coarse, fine |-> req.fine, shapes |-> req.shapes,
                       width |-> req.width, ok |-> WellFormed(req),
                       answer |-> IF WellFormed(req) THEN Answer(req) ELSE <<>>]))
=============================================================================
