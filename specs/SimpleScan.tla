----------------------------- MODULE SimpleScan -----------------------------
(* The MODIS interpolation without angles (1km -> 500m, 250m).             *)
(*                                                                         *)
(* IdealRow/IdealCol say where a fine pixel lies among the tie points of   *)
(* its scan: this is the documented geometry, and what properties C06,     *)
(* C03, C04 and C17 replay against the code.                               *)
(*                                                                         *)
(* The state machine is the algorithm of the code, one scan at a time with *)
(* reused scratch buffers: load the scan, interpolate with the coordinates *)
(* clamped to the tie points, extrapolate the last columns, extrapolate    *)
(* the first and last lines, store.  TLC checks that what it stores is the *)
(* ideal combination, for every width, number of scans and factor.         *)
EXTENDS Rat, TLC, Json, IOUtils

CONSTANTS Factors,     \* {2, 4}
          Widths,      \* numbers of coarse columns
          Scans,       \* numbers of scans
          RPS          \* coarse lines per scan (10)

----------------------------------------------------------------------------
(* The documented geometry *)
RowPos(f, j) == Q(2 * j - (f - 1), 2 * f)
ColPos(f, i) == Q(i, f)
IdealRow(f, j) == LET y == RowPos(f, j)
                      c == Clamp(Floor(y), 0, RPS - 2)
                  IN  <<c, Sub(y, I(c))>>
IdealCol(f, n, i) == LET x == ColPos(f, i)
                         c == Clamp(Floor(x), 0, n - 2)
                     IN  <<c, Sub(x, I(c))>>
IdealRowComb(f, s, j) == LET r == IdealRow(f, j) IN Cell(s * RPS + r[1], r[2])
IdealColComb(f, n, i) == LET r == IdealCol(f, n, i) IN Cell(r[1], r[2])

----------------------------------------------------------------------------
(* The algorithm *)
VARIABLES f, n, nscans,   \* the request
          scan, pc,       \* the scan being done and the next step
          inbuf,          \* coarse line of the scan -> line of the swath loaded in it (reused scratch)
          rbuf, cbuf,     \* fine line / column of the scan -> combination (reused scratch)
          out             \* fine line of the swath -> <<line combination, column combinations>>
vars == <<f, n, nscans, scan, pc, inbuf, rbuf, cbuf, out>>

FR == 0..(RPS * f - 1)
FC == 0..(f * n - 1)

Init == /\ f \in Factors /\ n \in Widths /\ nscans \in Scans
        /\ scan = 0 /\ pc = "load"
        /\ inbuf = <<>> /\ rbuf = <<>> /\ cbuf = <<>>
        /\ out = <<>>

Load == /\ pc = "load" /\ scan < nscans
        /\ inbuf' = [r \in 0..(RPS - 1) |-> scan * RPS + r]
        /\ pc' = "map"
        /\ UNCHANGED <<f, n, nscans, scan, rbuf, cbuf, out>>

(* coordinates outside of the tie points take the value of the nearest one *)
Nearest(p, m) == LET q == IF Lt(p, Zero) THEN Zero ELSE IF Lt(I(m - 1), p) THEN I(m - 1) ELSE p
                     c == Clamp(Floor(q), 0, m - 2)
                 IN  <<c, Sub(q, I(c))>>
MapCoordinates ==
    /\ pc = "map"
    /\ rbuf' = [j \in FR |-> LET r == Nearest(Sub(Q(j, f), Add(Q(f, 16), Q(1, 8))), RPS)
                             IN  CLerp(Unit(inbuf[r[1]]), Unit(inbuf[r[1] + 1]), r[2])]
    /\ cbuf' = [i \in FC |-> LET c == Nearest(Q(i, f), n) IN Cell(c[1], c[2])]
    /\ pc' = "right"
    /\ UNCHANGED <<f, n, nscans, scan, inbuf, out>>

ExtrapolateRight ==
    /\ pc = "right"
    /\ LET k == f - 1
           w == f * n
           diff == CSub(cbuf[w - k - 1], cbuf[w - k - 2])
       IN  cbuf' = [i \in FC |-> IF i < w - k THEN cbuf[i]
                                 ELSE CAdd(cbuf[i], CScale(I(i - (w - k) + 1), diff))]
    /\ pc' = "lines"
    /\ UNCHANGED <<f, n, nscans, scan, inbuf, rbuf, out>>

(* line through two of the fine lines that lie inside the tie points *)
Line(a, b, j) == LET w == Q(j - a, b - a) IN CLerp(rbuf[a], rbuf[b], w)
ExtrapolateLines ==
    /\ pc = "lines"
    /\ LET h == f \div 2
           last == RPS * f - 1
       IN  rbuf' = [j \in FR |-> IF j < h THEN Line(h, h + f - 1, j)
                                 ELSE IF j > last - h THEN Line(last - h - f + 1, last - h, j)
                                 ELSE rbuf[j]]
    /\ pc' = "store"
    /\ UNCHANGED <<f, n, nscans, scan, inbuf, cbuf, out>>

Store == /\ pc = "store"
         /\ out' = [j \in DOMAIN out \cup {scan * RPS * f + r : r \in FR} |->
                       IF j \in DOMAIN out THEN out[j]
                       ELSE <<rbuf[j - scan * RPS * f], cbuf>>]
         /\ scan' = scan + 1 /\ pc' = "load"
         /\ UNCHANGED <<f, n, nscans, inbuf, rbuf, cbuf>>

Next == Load \/ MapCoordinates \/ ExtrapolateRight \/ ExtrapolateLines \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "load" /\ scan = nscans

----------------------------------------------------------------------------
ScanOf(j) == j \div (RPS * f)
InScan(j) == j % (RPS * f)
(* C06: the code-like algorithm computes the documented geometry *)
Refines == \A j \in DOMAIN out :
              /\ out[j][1] = IdealRowComb(f, ScanOf(j), InScan(j))
              /\ \A i \in FC : out[j][2][i] = IdealColComb(f, n, i)
(* C03: only the lines of the scan are used *)
ScanLocal == \A j \in DOMAIN out : \A r \in DOMAIN out[j][1] : r \div RPS = ScanOf(j)
(* every fine line is there at the end, none is overwritten on the way *)
Complete == Done => DOMAIN out = 0..(nscans * RPS * f - 1)
WriteOnce == [][\A j \in DOMAIN out : j \in DOMAIN out' /\ out'[j] = out[j]]_vars
(* data affine in the position is reproduced at the position of the fine pixel *)
Affine == \A j \in DOMAIN out :
             /\ Weight(out[j][1]) = One
             /\ Eval(out[j][1], [r \in DOMAIN out[j][1] |-> I(r)])
                = Add(I(RPS * ScanOf(j)), RowPos(f, InScan(j)))
             /\ \A i \in FC : /\ Weight(out[j][2][i]) = One
                              /\ Eval(out[j][2][i], [c \in DOMAIN out[j][2][i] |-> I(c)]) = ColPos(f, i)
(* the lines of a scan read backwards are the lines of the scan stored backwards *)
Mirror == \A j \in DOMAIN out : \A r \in DOMAIN out[j][1] :
             LET jm == ScanOf(j) * RPS * f + (RPS * f - 1 - InScan(j))
                 rm == ScanOf(j) * RPS + (RPS - 1 - (r % RPS))
             IN  rm \in DOMAIN out[jm][1] /\ out[jm][1][rm] = out[j][1][r]
(* neighbouring fine lines are 1/f apart, also inside of the extrapolation *)
Terminates == <>Done

----------------------------------------------------------------------------
(* Tables for the conformance replay: one per <<f, n>> of the REQ file *)
Req == JsonDeserialize(IOEnv.REQ)
Flat(p) == <<p[1], p[2][1], p[2][2]>>
Table(q) == [f |-> q.f, n |-> q.n,
             rows |-> [j \in 1..(RPS * q.f) |-> Flat(IdealRow(q.f, j - 1))],
             cols |-> [i \in 1..(q.f * q.n) |-> Flat(IdealCol(q.f, q.n, i - 1))]]
TableInit == /\ f = 2 /\ n = 2 /\ nscans = 1 /\ scan = 0 /\ pc = "load"
             /\ inbuf = <<>> /\ rbuf = <<>> /\ cbuf = <<>> /\ out = <<>>
TableNext == UNCHANGED vars
Tables == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Table(Req[q])))
=============================================================================
