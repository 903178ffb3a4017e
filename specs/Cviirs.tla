------------------------------- MODULE Cviirs -------------------------------
(* The MODIS interpolation with zenith angles (compact VIIRS scheme),      *)
(* 1km -> 500m, 250m and 5km -> 1km, 500m, 250m.                           *)
(*                                                                         *)
(* Every fine pixel belongs to a tie point zone (the cell between four tie *)
(* points of its scan) and has a position s in it, along track and along   *)
(* scan, in units of the zone; it is outside of [0, 1] where the edges are *)
(* extrapolated.  IdealRow/IdealCol give zone and position from the place  *)
(* of the tie points in the fine scan.                                     *)
(*                                                                         *)
(* The state machine is the algorithm of the code: coordinates computed    *)
(* with remainders, and the zones spread into a scratch buffer by blocks   *)
(* of writes (main area, then the edges one after another, the buffer      *)
(* keeping the content of the previous scan until it is overwritten).      *)
EXTENDS Rat, TLC, Json, IOUtils

CONSTANTS Kinds,       \* set of <<coarse km (1 or 5), fine pixels per km>>
          Widths       \* numbers of coarse columns

(* coarse lines per scan; fine pixels per coarse pixel *)
Lines(c) == IF c = 1 THEN 10 ELSE 2
FPP(c, k) == c * k
(* fine columns of a scan: 1km ties fill it, 5km ties start 2km into it; "short" scans miss their last tie column *)
FineWidth(c, k, w, short) == IF c = 1 THEN k * w ELSE IF short THEN (5 * w + 4) * k ELSE (5 * (w - 1) + 4) * k
(* 1354 = 5 * 270 + 4: 271 ties, or 270 ties in a short scan *)
ASSUME FineWidth(5, 1, 271, FALSE) = 1354 /\ FineWidth(5, 1, 270, TRUE) = 1354

(* The geometry: position of a fine line/column in units of coarse lines/columns *)
RowPos(c, k, j) == IF c = 1 THEN Q(2 * j - (k - 1), 2 * k)
                   ELSE Q(2 * j - 4 * k - (k - 1), 10 * k)
ColPos(c, k, i) == IF c = 1 THEN Q(i, k) ELSE Q(i - 2 * k, 5 * k)
IdealRow(c, k, j) == LET y == RowPos(c, k, j)
                         z == Clamp(Floor(y), 0, Lines(c) - 2)
                     IN  <<z, Sub(y, I(z))>>
IdealCol(c, k, w, i) == LET x == ColPos(c, k, i)
                            z == Clamp(Floor(x), 0, w - 2)
                        IN  <<z, Sub(x, I(z))>>

----------------------------------------------------------------------------
VARIABLES c, k, w, short, scan, pc, x, y, zone
vars == <<c, k, w, short, scan, pc, x, y, zone>>
fpp == FPP(c, k)
L == Lines(c)
NR == L * fpp
NC == FineWidth(c, k, w, short)
F5 == 2 * k         \* fine pixels of the partial zones of 5km ties
Pix == (0..(NR - 1)) \X (0..(NC - 1))
NScans == 2

Init == /\ \E q \in Kinds : c = q[1] /\ k = q[2]
        /\ w \in Widths /\ short \in BOOLEAN /\ (short => c = 5)
        /\ scan = 0 /\ pc = "coords" /\ x = <<>> /\ y = <<>>
        /\ zone = [p \in Pix |-> <<-1, -1, -1>>]

(* the coordinates, in fine pixels from the upper left tie point of the zone *)
Coords1km ==
    /\ pc = "coords" /\ c = 1
    /\ x' = [i \in 0..(NC - 1) |-> IF i >= NC - fpp THEN I(fpp + (i - (NC - fpp))) ELSE I(i % fpp)]
    /\ LET h == fpp \div 2
       IN y' = [j \in 0..(NR - 1) |->
                  IF j < h THEN Q(2 * (j - h) + 1, 2)
                  ELSE IF j >= NR - h THEN Q(2 * (fpp + (h - (NR - j))) + 1, 2)
                  ELSE Q(2 * ((j + h) % fpp) + 1, 2)]
    /\ pc' = "main" /\ UNCHANGED <<c, k, w, short, scan, zone>>

Coords5km ==
    /\ pc = "coords" /\ c = 5
    /\ LET last == (w - 1) * fpp + F5
       IN x' = [i \in 0..(NC - 1) |-> IF i < F5 THEN I(((i - F5) % fpp) - fpp)
                                      ELSE IF i >= last THEN I(i - last + fpp)
                                      ELSE I((i - F5) % fpp)]
    /\ y' = [j \in 0..(NR - 1) |-> Sub(I(j), Add(I(F5), Q((F5 \div 2) - 1, 2)))]
    /\ pc' = "main" /\ UNCHANGED <<c, k, w, short, scan, zone>>

(* A block of writes: value v at every pixel of a rectangle *)
Rect(r0, c0, h, wd) == (r0..(r0 + h - 1)) \X (c0..(c0 + wd - 1))
(* one block per zone of a set, later blocks over the former ones *)
Writes(blocks) == [p \in Pix |-> IF \E b \in blocks : p \in b[1]
                                 THEN (CHOOSE b \in blocks : p \in b[1])[2] ELSE zone[p]]
Fits(blocks) == \A b \in blocks : b[1] \subseteq Pix
Step(blocks, next) ==
    /\ Assert(Fits(blocks), <<"write outside of the buffer", pc>>)
    /\ zone' = Writes(blocks) /\ pc' = next
    /\ UNCHANGED <<c, k, w, short, scan, x, y>>
Tag(zr, zc) == <<zr, zc, scan>>
ZR == 0..(L - 2)
ZC == 0..(w - 2)

Main1km == /\ pc = "main" /\ c = 1
           /\ Step({<<Rect(r * fpp + (fpp \div 2), q * fpp, fpp, fpp), Tag(r, q)>> : r \in ZR, q \in ZC}, "top")
Top1km == /\ pc = "top"
          /\ Step({<<Rect(0, q * fpp, fpp, fpp), Tag(0, q)>> : q \in ZC}, "bottom")
Bottom1km == /\ pc = "bottom"
             /\ Step({<<Rect((L - 2) * fpp + fpp, q * fpp, fpp, fpp), Tag(L - 2, q)>> : q \in ZC}, "right")
Right1km == /\ pc = "right" /\ c = 1
            /\ Step({<<Rect(r * fpp + (fpp \div 2), (w - 2) * fpp + fpp, fpp, fpp), Tag(r, w - 2)>> : r \in ZR}, "topright")
TopRight1km == /\ pc = "topright"
               /\ Step({<<Rect(0, (w - 2) * fpp + fpp, fpp, fpp), Tag(0, w - 2)>>}, "bottomright")
BottomRight1km == /\ pc = "bottomright"
                  /\ Step({<<Rect((L - 2) * fpp + fpp, (w - 2) * fpp + fpp, fpp, fpp), Tag(L - 2, w - 2)>>}, "end")

Main5km == /\ pc = "main" /\ c = 5
           /\ Step({<<Rect(0, q * fpp + F5, 2 * fpp, fpp), Tag(0, q)>> : q \in ZC}, "left")
Left5km == /\ pc = "left"
           /\ Step({<<Rect(0, 0, 2 * fpp, F5), Tag(0, 0)>>}, IF short THEN "extra" ELSE "right")
Extra5km == /\ pc = "extra"
            /\ Step({<<Rect(0, (w - 2) * fpp + fpp + F5, 2 * fpp, fpp), Tag(0, w - 2)>>}, "right")
Right5km == /\ pc = "right" /\ c = 5
            /\ Step({<<Rect(0, NC - F5, 2 * fpp, F5), Tag(0, w - 2)>>}, "end")

NextScan == /\ pc = "end" /\ scan < NScans - 1
            /\ scan' = scan + 1 /\ pc' = "main"
            /\ UNCHANGED <<c, k, w, short, x, y, zone>>

Next == \/ Coords1km \/ Coords5km \/ Main1km \/ Top1km \/ Bottom1km \/ Right1km \/ TopRight1km \/ BottomRight1km
        \/ Main5km \/ Left5km \/ Extra5km \/ Right5km \/ NextScan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
AtEnd == pc = "end"
(* C07: each pixel is in its ideal zone, at its ideal position *)
Refines == AtEnd => \A p \in Pix : /\ zone[p][1] = IdealRow(c, k, p[1])[1]
                                   /\ zone[p][2] = IdealCol(c, k, w, p[2])[1]
Positions == AtEnd => /\ \A j \in DOMAIN y : Div(y[j], I(fpp)) = IdealRow(c, k, j)[2]
                      /\ \A i \in DOMAIN x : Div(x[i], I(fpp)) = IdealCol(c, k, w, i)[2]
(* C03: nothing is left of the previous scan *)
Fresh == AtEnd => \A p \in Pix : zone[p][3] = scan
(* the position in the zone is inside of it, except for pixels beyond the outer tie points *)
Inside == \A i \in 0..(NC - 1) : LET s == IdealCol(c, k, w, i)[2] IN
             \/ Le(Zero, s) /\ Lt(s, One)
             \/ Lt(ColPos(c, k, i), Zero)
             \/ Le(I(w - 1), ColPos(c, k, i))
(* tie points of the 5km to 1km interpolation are fine pixels: position 0 (or 1 for the last ones) of their zone *)
Ties == (c = 5 /\ k = 1) =>
          /\ \A r \in 0..1 : RowPos(c, k, 2 + 5 * r) = I(r)
          /\ \A q \in 0..(w - 1) : ColPos(c, k, 2 + 5 * q) = I(q)
(* 1km ties are at fine columns k * q, never on a fine line *)
Ties1 == c = 1 => /\ \A q \in 0..(w - 1) : ColPos(c, k, k * q) = I(q)
                  /\ \A j \in 0..(NR - 1) : RowPos(c, k, j)[2] # 1
(* lines are symmetric about the middle of the scan *)
Mirror == \A j \in 0..(NR - 1) : Add(RowPos(c, k, j), RowPos(c, k, NR - 1 - j)) = I(L - 1)
Terminates == <>(pc = "end" /\ scan = NScans - 1)

----------------------------------------------------------------------------
Req == JsonDeserialize(IOEnv.REQ)
Flat(p) == <<p[1], p[2][1], p[2][2]>>
Table(q) == [c |-> q.c, k |-> q.k, w |-> q.w,
             rows |-> [j \in 1..(Lines(q.c) * FPP(q.c, q.k)) |-> Flat(IdealRow(q.c, q.k, j - 1))],
             cols |-> [i \in 1..FineWidth(q.c, q.k, q.w, q.w = 270) |-> Flat(IdealCol(q.c, q.k, q.w, i - 1))]]
TableInit == /\ c = 1 /\ k = 2 /\ w = 2 /\ short = FALSE /\ scan = 0 /\ pc = "" /\ x = <<>> /\ y = <<>> /\ zone = <<>>
TableNext == UNCHANGED vars
Tables == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Table(Req[q])))
=============================================================================
