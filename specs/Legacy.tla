------------------------------- MODULE Legacy -------------------------------
(* The geometry of the legacy swath helpers, as axes of TieGrid:           *)
(*   k1f2, k1f4   1km -> 500m, 250m    (unit: half a fine pixel)           *)
(*   k5           5km -> 1km           (unit: a fine pixel)                *)
(*   avhrr        20km -> 1km, lines unchanged                             *)
(* A machine builds the axes and fills their borders in either order.      *)
(* RowAt/ColAt are the documented positions of fine lines and columns in   *)
(* units of tie lines and columns; they agree with those of the other MODIS*)
(* interpolations (modules SimpleScan and Cviirs).                         *)
EXTENDS TieGrid

CONSTANTS Helpers, Scans, Widths   \* names, numbers of scans, numbers of tie columns

F(h) == IF h = "k1f2" THEN 2 ELSE 4
(* documented positions *)
RowAt(h, j) == IF h = "k5" THEN Q(j - 2, 5)
               ELSE IF h = "avhrr" THEN I(j)
               ELSE Q(2 * j - (F(h) - 1), 2 * F(h))
ColAt(h, w, i) == IF h = "k5" THEN Q(i - 2, 5)
                  ELSE IF h = "avhrr" THEN    \* 0, 4, 24, ..., last + 3
                       IF i < 4 THEN Q(i, 4)
                       ELSE LET last == 4 + 20 * (w - 3)
                            IN  IF i <= last THEN Q(20 + i - 4, 20) ELSE Add(I(w - 2), Q(i - last, 3))
                  ELSE Q(i, F(h))
TieLines(h) == IF h = "k5" THEN 2 ELSE IF h = "avhrr" THEN 1 ELSE 10
FineLines(h) == IF h = "k5" THEN 10 ELSE IF h = "avhrr" THEN 1 ELSE 10 * F(h)
FineCols(h, w) == IF h = "k5" THEN 5 * (w - 1) + 4 ELSE IF h = "avhrr" THEN 4 + 20 * (w - 3) + 4 ELSE F(h) * w
ASSUME FineCols("k5", 271) = 1354 /\ FineCols("avhrr", 105) = 2048 /\ FineCols("k1f2", 1354) = 2708

Up(n, f(_)) == [i \in 1..n |-> f(i - 1)]
RowAxis(h, ns) ==
    IF h = "avhrr" THEN [fine |-> Up(ns, LAMBDA j : j), ties |-> Up(ns, LAMBDA j : j), chunk |-> 0, k |-> 1]
    ELSE IF h = "k5"
    THEN [fine |-> Up(10 * ns, LAMBDA j : j), ties |-> Up(2 * ns, LAMBDA r : 2 + 5 * r), chunk |-> 10, k |-> 1]
    ELSE [fine |-> Up(10 * F(h) * ns, LAMBDA j : 2 * j - (F(h) - 1)), ties |-> Up(10 * ns, LAMBDA r : 2 * F(h) * r),
          chunk |-> 10 * F(h), k |-> 1]
ColAxis(h, w) ==
    IF h = "avhrr" THEN [fine |-> Up(FineCols(h, w), LAMBDA i : i), chunk |-> 0, k |-> 3,
                         ties |-> <<0>> \o Up(w - 2, LAMBDA c : 4 + 20 * c) \o <<FineCols(h, w) - 1>>]
    ELSE IF h = "k5"
    THEN [fine |-> Up(FineCols(h, w), LAMBDA i : i), ties |-> Up(w, LAMBDA c : 2 + 5 * c), chunk |-> 0, k |-> 3]
    ELSE [fine |-> Up(F(h) * w, LAMBDA i : i), ties |-> Up(w, LAMBDA c : F(h) * c), chunk |-> 0, k |-> 3]

VARIABLES helper, ns, w
lvars == <<ay, ax, rows, cols, out, fy, fx, steps, helper, ns, w>>
LInit == /\ helper \in Helpers /\ ns \in Scans /\ w \in Widths
         /\ helper = "avhrr" => ns > 1
         /\ ay = RowAxis(helper, ns) /\ ax = ColAxis(helper, w)
         /\ rows = Raw(ay) /\ cols = Raw(ax) /\ out = <<>> /\ fy = FALSE /\ fx = FALSE /\ steps = 0
LFillY == /\ ~fy /\ helper # "avhrr" /\ FillY /\ UNCHANGED <<steps, helper, ns, w>>
LFillX == /\ ~fx /\ helper # "avhrr" /\ FillX /\ UNCHANGED <<steps, helper, ns, w>>
LInterpolate == /\ out = <<>> /\ Covers(rows, ay.fine) /\ Covers(cols, ax.fine)
                /\ (helper = "avhrr" \/ (fy /\ fx))
                /\ out' = <<InterpAxis(ay, rows), Up(0, LAMBDA i : i)>>
                /\ UNCHANGED <<ay, ax, rows, cols, fy, fx, steps, helper, ns, w>>
LNext == LFillY \/ LFillX \/ LInterpolate
LSpec == LInit /\ [][LNext]_lvars /\ WF_lvars(LNext)

ScanOfTie(r) == r \div TieLines(helper)
ScanOfFine(j) == j \div FineLines(helper)
(* lines: linear between (or beyond) the tie lines of the scan, at the documented position *)
IdealRow(h, s, j) == LET y == RowAt(h, j)
                         c == Clamp(Floor(y), 0, TieLines(h) - 2)
                     IN  IF h = "avhrr" THEN Unit(s) ELSE Cell(s * TieLines(h) + c, Sub(y, I(c)))
Documented == out # <<>> => \A i \in 1..Len(ay.fine) :
                 LET s == ScanOfFine(i - 1) IN out[1][i] = IdealRow(helper, s, (i - 1) - s * FineLines(helper))
OwnScan == out # <<>> => \A i \in 1..Len(ay.fine) : \A r \in DOMAIN out[1][i] : ScanOfTie(r) = ScanOfFine(i - 1)
(* columns: all the tie columns are kept, at most one is added on each side, affine in the position *)
Columns == /\ Sorted(cols) /\ AffineTies(cols, ax) /\ Len(cols) <= Len(ax.ties) + 2
           /\ (fx \/ helper = "avhrr") => Covers(cols, ax.fine)
(* position of fine columns and ties are the documented ones *)
ColPlaces == \A i \in 0..(FineCols(helper, w) - 1) : \A c \in 0..(w - 1) :
                (ax.fine[i + 1] = ax.ties[c + 1]) <=> (ColAt(helper, w, i) = I(c))
ColLinear == \A i \in 0..(FineCols(helper, w) - 1) :
                LET x == ColAt(helper, w, i)
                    c == Clamp(Floor(x), 0, w - 2)
                IN  Sub(x, I(c)) = Q(ax.fine[i + 1] - ax.ties[c + 1], ax.ties[c + 2] - ax.ties[c + 1])
(* the same geometry as the other MODIS interpolations *)
S == INSTANCE SimpleScan WITH Factors <- {2}, RPS <- 10, f <- 0, n <- 0, nscans <- 0, scan <- 0, pc <- 0, inbuf <- 0,
                              rbuf <- 0, cbuf <- 0, out <- 0, Widths <- {2}, Scans <- {1}
V == INSTANCE Cviirs WITH Kinds <- {}, Widths <- {}, c <- 0, k <- 0, w <- 0, short <- FALSE, scan <- 0, pc <- 0, x <- 0,
                          y <- 0, zone <- 0
Agrees == CASE helper \in {"k1f2", "k1f4"} ->
                  /\ \A j \in 0..(FineLines(helper) - 1) : /\ RowAt(helper, j) = S!RowPos(F(helper), j)
                                                           /\ RowAt(helper, j) = V!RowPos(1, F(helper), j)
                  /\ \A i \in 0..(FineCols(helper, w) - 1) : /\ ColAt(helper, w, i) = S!ColPos(F(helper), i)
                                                             /\ ColAt(helper, w, i) = V!ColPos(1, F(helper), i)
            [] helper = "k5" ->
                  /\ \A j \in 0..9 : RowAt(helper, j) = V!RowPos(5, 1, j)
                  /\ \A i \in 0..(FineCols(helper, w) - 1) : ColAt(helper, w, i) = V!ColPos(5, 1, i)
            [] OTHER -> TRUE
Finishes == <>(out # <<>>)

----------------------------------------------------------------------------
(* Tables for the replay: lines of two scans, and tie columns after filling *)
LTable(q) == LET a == RowAxis(q.h, q.ns)
                 b == ColAxis(q.h, q.w)
                 ties == IF q.h = "avhrr" THEN Raw(b) ELSE Fill(b, Raw(b))
             IN  [h |-> q.h, ns |-> q.ns, w |-> q.w,
                  rows |-> IF q.h = "avhrr" THEN [i \in 1..q.ns |-> AsSeq(Unit(i - 1))] ELSE Combs(InterpAxis(a, Fill(a, Raw(a)))),
                  pos |-> [i \in 1..Len(ties) |-> ties[i][1]],
                  ties |-> [i \in 1..Len(ties) |-> AsSeq(ties[i][2])],
                  fine |-> b.fine]
LTableInit == /\ ay = <<>> /\ ax = <<>> /\ rows = <<>> /\ cols = <<>> /\ out = <<>> /\ fy = FALSE /\ fx = FALSE /\ steps = 0
              /\ helper = "" /\ ns = 0 /\ w = 0
LTableNext == UNCHANGED lvars
LTables == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(LTable(Req[q])))
=============================================================================
