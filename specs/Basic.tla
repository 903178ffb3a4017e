------------------------------- MODULE Basic -------------------------------
(* The basic satellite interpolator: tie points on lines and columns that  *)
(* start at 0, results on 0 .. last.                                       *)
(*                                                                         *)
(* The machine is the algorithm on one table: the lines are spread to      *)
(* their positions with holes in between, the holes are filled line by     *)
(* line from the two neighbours of the hole, then the same for the columns *)
(* (of a transposed copy).  A cell of the table holds a combination of tie *)
(* points <<line, column>>; holes are empty combinations.                  *)
EXTENDS Rat, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxLast, Repeats

(* documented meaning: position p between its two neighbouring ties *)
IdealAxis(ties, p) ==
    IF Len(ties) = 1 THEN <<0, Zero>> ELSE
    LET c == CHOOSE i \in 0..(Len(ties) - 2) : /\ ties[i + 1] <= p
                                              /\ (p < ties[i + 2] \/ i = Len(ties) - 2)
    IN  <<c, Q(p - ties[c + 1], ties[c + 2] - ties[c + 1])>>
IdealComb(rt, ct, r, c) ==
    LET a == IdealAxis(rt, r)
        b == IdealAxis(ct, c)
        A == Cell(a[1], a[2])
        B == Cell(b[1], b[2])
    IN  [p \in (DOMAIN A) \X (DOMAIN B) |-> Mul(A[p[1]], B[p[2]])]
Axes == {SetToSortSeq(S \cup {0}, <) : S \in SUBSET (1..MaxLast)}

VARIABLES rt, ct, pc, table, line, calls, first
vars == <<rt, ct, pc, table, line, calls, first>>
LastR == rt[Len(rt)]
LastC == ct[Len(ct)]
Init == /\ rt \in Axes /\ ct \in Axes /\ pc = "spread" /\ table = <<>> /\ line = 0 /\ calls = 0 /\ first = <<>>
Hole == <<>>
TieOf(ties, p) == CHOOSE i \in 1..Len(ties) : ties[i] = p
IsTie(ties, p) == \E i \in 1..Len(ties) : ties[i] = p
SpreadRows ==
    /\ pc = "spread"
    /\ table' = [p \in (0..LastR) \X (1..Len(ct)) |->
                    IF IsTie(rt, p[1]) THEN Unit(<<TieOf(rt, p[1]) - 1, p[2] - 1>>) ELSE Hole]
    /\ pc' = "rows" /\ line' = 0
    /\ UNCHANGED <<rt, ct, calls, first>>
(* fill the holes of one line position from the line before (already filled) and the next tie line *)
NextTie(ties, p) == CHOOSE q \in {ties[i] : i \in 1..Len(ties)} :
                       q > p /\ \A i \in 1..Len(ties) : ties[i] > p => q <= ties[i]
FillRow ==
    /\ pc = "rows"
    /\ IF line > LastR THEN pc' = "columns" /\ UNCHANGED <<table, line>>
       ELSE /\ table' = IF IsTie(rt, line) THEN table
                        ELSE LET n == NextTie(rt, line)
                             IN  [p \in DOMAIN table |-> IF p[1] # line THEN table[p]
                                     ELSE CLerp(table[<<line - 1, p[2]>>], table[<<n, p[2]>>], Q(1, n - (line - 1)))]
            /\ line' = line + 1 /\ pc' = pc
    /\ UNCHANGED <<rt, ct, calls, first>>
SpreadColumns ==
    /\ pc = "columns"
    /\ table' = [p \in (0..LastR) \X (0..LastC) |-> IF IsTie(ct, p[2]) THEN table[<<p[1], TieOf(ct, p[2])>>] ELSE Hole]
    /\ pc' = "fillcolumns" /\ line' = 0
    /\ UNCHANGED <<rt, ct, calls, first>>
FillColumn ==
    /\ pc = "fillcolumns"
    /\ IF line > LastC THEN pc' = "done" /\ UNCHANGED <<table, line>>
       ELSE /\ table' = IF IsTie(ct, line) THEN table
                        ELSE LET n == NextTie(ct, line)
                             IN  [p \in DOMAIN table |-> IF p[2] # line THEN table[p]
                                     ELSE CLerp(table[<<p[1], line - 1>>], table[<<p[1], n>>], Q(1, n - (line - 1)))]
            /\ line' = line + 1 /\ pc' = pc
    /\ UNCHANGED <<rt, ct, calls, first>>
(* the user calls again *)
Again == /\ pc = "done" /\ calls < Repeats
         /\ first' = IF calls = 0 THEN table ELSE first
         /\ calls' = calls + 1 /\ pc' = "spread"
         /\ UNCHANGED <<rt, ct, table, line>>
Next == SpreadRows \/ FillRow \/ SpreadColumns \/ FillColumn \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtEnd == pc = "done"
Refines == AtEnd => table = [p \in (0..LastR) \X (0..LastC) |-> IdealComb(rt, ct, p[1], p[2])]
NoHole == AtEnd => \A p \in DOMAIN table : table[p] # Hole
Ties == AtEnd => \A i \in 1..Len(rt), j \in 1..Len(ct) : table[<<rt[i], ct[j]>>] = Unit(<<i - 1, j - 1>>)
Same == (AtEnd /\ calls > 0) => table = first
Convex == AtEnd => \A p \in DOMAIN table : /\ Weight(table[p]) = One
                                           /\ \A t \in DOMAIN table[p] : Lt(Zero, table[p][t])
Terminates == <>(pc = "done" /\ calls = Repeats)

----------------------------------------------------------------------------
Req == JsonDeserialize(IOEnv.REQ)
Flat(p) == <<p[1], p[2][1], p[2][2]>>
Table(q) == [id |-> q.id, axis |-> [i \in 1..(q.ties[Len(q.ties)] + 1) |-> Flat(IdealAxis(q.ties, i - 1))]]
TableInit == rt = <<>> /\ ct = <<>> /\ pc = "" /\ table = <<>> /\ line = 0 /\ calls = 0 /\ first = <<>>
TableNext == UNCHANGED vars
Tables == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Table(Req[q])))
=============================================================================
