-------------------------------- MODULE Vii --------------------------------
(* The VII interpolation: the tie points of a granule are on one regular   *)
(* grid (nalt tie lines per scan, all scans one after another), pixels are *)
(* only made between the tie points of one scan.                           *)
(* The state machine builds the pixel grid scan by scan, then interpolates *)
(* along then across the track as the code does, on the grid of the whole  *)
(* granule.  TLC checks that the result only depends on the tie points of  *)
(* the scan of the pixel, and is the documented combination.               *)
(* Geo is the decision between direct and cartesian interpolation.         *)
EXTENDS Rat, TLC, Json, IOUtils

CONSTANTS NScans, NAlt, NAct, Factors     \* sets of sizes

IdealRow(na, f, p) == LET per == (na - 1) * f
                          s == p \div per
                          q == p % per
                      IN  <<s * na + (q \div f), Q(q % f, f)>>
IdealCol(f, p) == <<p \div f, Q(p % f, f)>>

VARIABLES ns, na, nc, f, pc, grid, rows, cols
vars == <<ns, na, nc, f, pc, grid, rows, cols>>

Init == /\ ns \in NScans /\ na \in NAlt /\ nc \in NAct /\ f \in Factors
        /\ pc = 0 /\ grid = <<>> /\ rows = <<>> /\ cols = <<>>

(* the pixels of scan pc, in the coordinates of the granule *)
AddScan == /\ pc \in 0..(ns - 1)
           /\ grid' = grid \o [i \in 1..((na - 1) * f) |-> pc * na * f + i - 1]
           /\ pc' = pc + 1
           /\ UNCHANGED <<ns, na, nc, f, rows, cols>>
(* linear interpolation among the tie lines 0, f, 2f, ... of the granule *)
Linear(p, n) == LET t == Clamp(p \div f, 0, n - 2) IN Cell(t, Q(p - t * f, f))
InterpAlt == /\ pc = ns /\ rows = <<>>
             /\ rows' = [i \in 1..Len(grid) |-> Linear(grid[i], ns * na)]
             /\ pc' = ns + 1
             /\ UNCHANGED <<ns, na, nc, f, grid, cols>>
InterpAct == /\ pc = ns + 1 /\ cols = <<>>
             /\ cols' = [i \in 1..((nc - 1) * f) |-> Linear(i - 1, nc)]
             /\ pc' = ns + 2
             /\ UNCHANGED <<ns, na, nc, f, grid, rows>>
Next == AddScan \/ InterpAlt \/ InterpAct
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = ns + 2

CombOf(p) == Cell(p[1], p[2])
Refines == Done => /\ \A i \in 1..Len(rows) : rows[i] = CombOf(IdealRow(na, f, i - 1))
                   /\ \A i \in 1..Len(cols) : cols[i] = CombOf(IdealCol(f, i - 1))
Sizes == Done => Len(rows) = ns * (na - 1) * f /\ Len(cols) = (nc - 1) * f
(* pixels only come from the tie points of their own scan *)
ScanLocal == Done => \A i \in 1..Len(rows) : \A t \in DOMAIN rows[i] : t \div na = (i - 1) \div ((na - 1) * f)
(* interpolation, never extrapolation *)
Convex == Done => \A r \in {rows[i] : i \in 1..Len(rows)} \cup {cols[i] : i \in 1..Len(cols)} :
             Weight(r) = One /\ \A t \in DOMAIN r : Lt(Zero, r[t]) /\ Le(r[t], One)
(* all the tie points that are pixels are reproduced *)
Ties == Done => \A s \in 0..(ns - 1) : \A t \in 0..(na - 2) :
           rows[s * (na - 1) * f + t * f + 1] = Unit(s * na + t)
Increasing == \A i \in 1..(Len(grid) - 1) : grid[i] < grid[i + 1]
Terminates == <>Done

----------------------------------------------------------------------------
(* the choice of the coordinates, on integer degrees; lats, lons are the sets of tie point values *)
MaxOf(S) == CHOOSE m \in S : \A v \in S : v <= m
MinOf(S) == CHOOSE m \in S : \A v \in S : m <= v
Cartesian(lons, lats, thr) == MaxOf({AbsI(v) : v \in lats}) > thr \/ MaxOf(lons) - MinOf(lons) > 180
(* direct interpolation never has two neighbours on the two sides of the antimeridian, nor a pole inside *)
DirectIsSafe ==
    \A a, b \in {-180, -179, -90, -1, 0, 1, 90, 179, 180} :
        (~Cartesian({a, b}, {0}, 60)) => AbsI(a - b) <= 180

----------------------------------------------------------------------------
Req == JsonDeserialize(IOEnv.REQ)
Flat(p) == <<p[1], p[2][1], p[2][2]>>
Table(q) == [ns |-> q.ns, na |-> q.na, nc |-> q.nc, f |-> q.f,
             rows |-> [i \in 1..(q.ns * (q.na - 1) * q.f) |-> Flat(IdealRow(q.na, q.f, i - 1))],
             cols |-> [i \in 1..((q.nc - 1) * q.f) |-> Flat(IdealCol(q.f, i - 1))]]
(* geolocation cases: corner longitudes and latitudes with the decision *)
GeoCases == {[lon |-> <<l, l + dl>>, lat |-> <<b, b + db>>, thr |-> t,
              cart |-> Cartesian({l, l + dl}, {b, b + db}, t)] :
                l \in {-180, -170, -40, 0}, dl \in {20, 180, 181, 350}, b \in {-75, -60, -20, 0, 45},
                db \in {15, 30}, t \in {20, 60, 75, 90}}
(* the middle of two opposite longitudes is anywhere: no such case in cartesian coordinates *)
GeoEmit == \A g \in {h \in GeoCases : /\ h.lon[2] <= 180 /\ h.lat[2] <= 90
                                      /\ ~(h.cart /\ h.lon[2] - h.lon[1] = 180)} : PrintT("@@" \o ToJson(g))
TableInit == /\ ns = 1 /\ na = 2 /\ nc = 2 /\ f = 1 /\ pc = 0 /\ grid = <<>> /\ rows = <<>> /\ cols = <<>>
TableNext == UNCHANGED vars
Tables == (\A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Table(Req[q])))) /\ DirectIsSafe /\ GeoEmit
=============================================================================
