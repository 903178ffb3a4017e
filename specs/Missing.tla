------------------------------- MODULE Missing -------------------------------
(* Missing (NaN) tie points.  The user makes tie points of a swath missing  *)
(* and present again, and interpolates.  A fine pixel must be missing if a  *)
(* missing tie point has a weight in it, and may be only if one is in the   *)
(* (four point) cell around it; so a missing tie point has no effect on     *)
(* other cells and scans, and none at all after it is restored.             *)
(*                                                                          *)
(* The actions between follow the passes of each of the algorithms, which   *)
(* propagate missing values through all they read, weight zero or not.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Schemes,    \* of [name, c, k, rows (per scan), cols, channels]
          NScans, MaxLost, MaxSteps,
          Bug

VARIABLES s, lost, steps, pc, fine, side
vars == <<s, lost, steps, pc, fine, side>>

(* -- geometry: positions of fine lines and columns in units of tie points, as <<numerator, denominator>> *)
RowPos(sc, j) == CASE sc.name = "vii" -> <<j, sc.k>>
                   [] sc.name # "vii" /\ sc.c = 1 -> <<2 * j - (sc.k - 1), 2 * sc.k>>
                   [] OTHER -> <<2 * j - 4 * sc.k - (sc.k - 1), 10 * sc.k>>
ColPos(sc, i) == IF sc.c = 5 THEN <<i - 2 * sc.k, 5 * sc.k>> ELSE <<i, sc.k>>
FineRows(sc) == IF sc.name = "vii" THEN (sc.rows - 1) * sc.k ELSE sc.rows * sc.c * sc.k
FineCols(sc) == CASE sc.name = "vii" -> (sc.cols - 1) * sc.k
                  [] sc.c = 5 -> IF sc.cols = 270 THEN 1354 * sc.k ELSE (5 * (sc.cols - 1) + 4) * sc.k
                  [] OTHER -> sc.cols * sc.k
Floor(p) == p[1] \div p[2]
Whole(p) == p[1] % p[2] = 0
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
(* the cell of a position, the nearest one beyond the tie points *)
Cell(p, n) == LET z == Clamp(Floor(p), 0, n - 2) IN {z, z + 1}
(* where a weight is not zero *)
Used(p, n) == IF Whole(p) /\ Floor(p) \in 0..(n - 1) THEN {Floor(p)} ELSE Cell(p, n)
(* all the cells a position is in *)
Near(p, n) == IF Whole(p) /\ Floor(p) \in 0..(n - 1) THEN ((Floor(p) - 1)..(Floor(p) + 1)) \cap (0..(n - 1)) ELSE Cell(p, n)

(* -- what a lost value does: channels lon, lat, satz, data *)
(* outputs that must / may be missing; the latitude of a position whose longitude alone is missing may be known *)
MustHit(ch, direct) == CASE ch = "lon" -> {"lon"} [] ch = "data" -> {"data"}
                         [] ch = "lat" -> IF direct THEN {"lat"} ELSE {"lon", "lat"} [] OTHER -> {"lon", "lat"}
MayHit(ch, direct) == IF direct THEN MustHit(ch, direct) ELSE IF ch = "data" THEN {"data"} ELSE {"lon", "lat"}
(* zenith angles act on the zone they are an upper tie point of, unless it is at a corner of it *)
Corner(sc, j, i) == Whole(RowPos(sc, j)) /\ Whole(ColPos(sc, i)) /\ Floor(ColPos(sc, i)) \in 0..(sc.cols - 1)
                        /\ Floor(RowPos(sc, j)) \in 0..(sc.rows - 1)
ZoneCol(sc, i) == Clamp(Floor(ColPos(sc, i)), 0, sc.cols - 2)
ZoneRow(sc, j) == Clamp(Floor(RowPos(sc, j)), 0, sc.rows - 2)
Upper(sc, t, j, i) == t[2] = ZoneRow(sc, j) /\ t[3] \in {ZoneCol(sc, i), ZoneCol(sc, i) + 1}
InCell(sc, t, q) ==
                 /\ t[1] = q[1]
                 /\ IF t[4] = "satz" THEN Upper(sc, t, q[2], q[3])
                    ELSE t[2] \in Near(RowPos(sc, q[2]), sc.rows) /\ t[3] \in Near(ColPos(sc, q[3]), sc.cols)
                 /\ q[4] \in MayHit(t[4], sc.direct)
(* known finding, if the scheme says so: the first line of a VII scan reads the last tie points of the scan before *)
Carried(sc, t, q) == /\ sc.carry /\ t[1] = q[1] - 1 /\ t[2] = sc.rows - 1 /\ q[2] = 0
                     /\ t[3] \in Near(ColPos(sc, q[3]), sc.cols) /\ q[4] \in MayHit(t[4], sc.direct)
Must(sc, t, q) == /\ t[1] = q[1]
                  /\ IF t[4] = "satz" THEN Upper(sc, t, q[2], q[3]) /\ ~Corner(sc, q[2], q[3])
                     ELSE t[2] \in Used(RowPos(sc, q[2]), sc.rows) /\ t[3] \in Used(ColPos(sc, q[3]), sc.cols)
                  /\ q[4] \in MustHit(t[4], sc.direct)
May(sc, t, q) == \/ InCell(sc, t, q) \/ Carried(sc, t, q)

(* -- the passes of the algorithms, on the lost values of one channel (x, y and z in the code) *)
Ties(sc, n) == {t \in (0..(n - 1)) \X (0..(sc.rows - 1)) \X (0..(sc.cols - 1)) \X sc.channels :
                  t[4] # "satz" \/ t[2] < sc.rows - 1}
FR == 0..(FineRows(s) - 1)
FC == 0..(FineCols(s) - 1)
Pix == (0..(NScans - 1)) \X FR \X FC
Taps(p, n) == IF Whole(p) /\ Floor(p) \in 0..(n - 1) /\ side = "left" /\ Floor(p) > 0 THEN {Floor(p) - 1, Floor(p)}
              ELSE Cell(p, n)
Has(scan, r, c, chans) == Bug # "skip" /\ \E t \in lost : t[1] = scan /\ t[2] = r /\ t[3] = c /\ t[4] \in chans
Init == /\ s \in Schemes /\ lost = {} /\ steps = 0 /\ pc = "edit" /\ fine = {} /\ side = "right"
Lose == /\ pc = "edit" /\ steps < MaxSteps /\ Cardinality(lost) < MaxLost
        /\ \E t \in Ties(s, NScans) \ lost : lost' = lost \cup {t}
        /\ steps' = steps + 1 /\ UNCHANGED <<s, pc, fine, side>>
Restore == /\ pc = "edit" /\ steps < MaxSteps
           /\ \E t \in lost : lost' = lost \ {t}
           /\ steps' = steps + 1 /\ UNCHANGED <<s, pc, fine, side>>
Call == /\ pc = "edit" /\ pc' = s.name /\ fine' = {} /\ side' \in IF s.name = "cviirs" THEN {"right"} ELSE {"left", "right"}
        /\ UNCHANGED <<s, lost, steps>>

(* what is lost of the horizontal (longitude) and vertical coordinates *)
Chans == IF s.direct THEN {{c} : c \in s.channels} ELSE {{"lon", "lat"}, {"lat"}}
Out(chans) == IF s.direct THEN CHOOSE c \in chans : TRUE ELSE IF chans = {"lat"} THEN "lat" ELSE "lon"
Four(p, chans) == LET scan == IF Bug = "leak" /\ p[2] = FineRows(s) - 1 /\ p[1] < NScans - 1 THEN p[1] + 1 ELSE p[1] IN
                  \E r \in Taps(RowPos(s, p[2]), s.rows), c \in Taps(ColPos(s, p[3]), s.cols) : Has(scan, r, c, chans)
Angle(p) == \E c \in {ZoneCol(s, p[3]), ZoneCol(s, p[3]) + 1} : Has(p[1], ZoneRow(s, p[2]), c, {"satz"})
(* zenith angles: the four corners and the corrections of the zone *)
Cviirs == /\ pc = "cviirs" /\ pc' = "done"
          /\ fine' = UNION {{<<p[1], p[2], p[3], Out(ch)>> : p \in {q \in Pix : Four(q, ch) \/ Angle(q)}} : ch \in Chans}
          /\ UNCHANGED <<s, lost, steps, side>>
(* VII: along the lines first, then along the columns *)
ViiRows == /\ pc = "vii" /\ pc' = "cols"
           /\ fine' = UNION {{<<n, j, c, Out(ch)>> : n \in 0..(NScans - 1), j \in FR, c \in 0..(s.cols - 1)} \cap
                             {q \in (0..(NScans - 1)) \X FR \X (0..(s.cols - 1)) \X {Out(ch)} :
                                \/ \E r \in Taps(RowPos(s, q[2]), s.rows) : Has(q[1], r, q[3], ch)
                                \/ s.carry /\ side = "left" /\ q[2] = 0 /\ Has(q[1] - 1, s.rows - 1, q[3], ch)} : ch \in Chans}
           /\ UNCHANGED <<s, lost, steps, side>>
ViiCols == /\ pc = "cols" /\ pc' = "done"
           /\ fine' = {<<p[1], p[2], p[3], o>> : p \in Pix, o \in {Out(ch) : ch \in Chans}} \cap
                      {q \in (0..(NScans - 1)) \X FR \X FC \X {Out(ch) : ch \in Chans} :
                         \E c \in Taps(ColPos(s, q[3]), s.cols) : <<q[1], q[2], c, q[4]>> \in fine}
           /\ UNCHANGED <<s, lost, steps, side>>
(* no angles: bilinear with the last column repeated, then columns and lines beyond the ties from fine ones *)
Simple == /\ pc = "simple" /\ pc' = "right"
          /\ fine' = UNION {{<<p[1], p[2], p[3], Out(ch)>> : p \in {q \in Pix :
                        \E r \in Taps(RowPos(s, q[2]), s.rows),
                           c \in IF q[3] >= (s.cols - 1) * s.k THEN {s.cols - 1} ELSE Taps(ColPos(s, q[3]), s.cols) :
                           Has(q[1], r, c, ch)}} : ch \in Chans}
          /\ UNCHANGED <<s, lost, steps, side>>
Right == /\ pc = "right" /\ pc' = "lines"
         /\ LET n == s.k - 1
                w == FineCols(s)
                from(q, i) == <<q[1], q[2], i, q[4]>> \in fine
            IN fine' = {q \in {<<p[1], p[2], p[3], o>> : p \in Pix, o \in {Out(ch) : ch \in Chans}} :
                          \/ q \in fine
                          \/ q[3] >= w - n /\ (from(q, w - n - 1) \/ from(q, w - n - 2))}
         /\ UNCHANGED <<s, lost, steps, side>>
Lines == /\ pc = "lines" /\ pc' = "done"
         /\ LET h == s.k \div 2
                m == FineRows(s)
                gap == IF s.k = 4 THEN 3 ELSE 1
                from(q, j) == <<q[1], j, q[3], q[4]>> \in fine
            IN fine' = {q \in {<<p[1], p[2], p[3], o>> : p \in Pix, o \in {Out(ch) : ch \in Chans}} :
                          IF q[2] < h THEN from(q, h) \/ from(q, h + gap)
                          ELSE IF q[2] >= m - h THEN from(q, m - h - 1) \/ from(q, m - h - 1 - gap)
                          ELSE q \in fine}
         /\ UNCHANGED <<s, lost, steps, side>>
Back == /\ pc = "done" /\ pc' = "edit" /\ fine' = {} /\ side' = "right" /\ UNCHANGED <<s, lost, steps>>
Next == Lose \/ Restore \/ Call \/ Cviirs \/ ViiRows \/ ViiCols \/ Simple \/ Right \/ Lines \/ Back
Spec == Init /\ [][Next]_vars

Outs == IF s.direct THEN s.channels ELSE {"lon", "lat"}
(* C17 *)
Enough == pc = "done" => \A p \in Pix, o \in Outs : LET q == <<p[1], p[2], p[3], o>> IN
              (\E t \in lost : Must(s, t, q)) => q \in fine
Local == pc = "done" => \A q \in fine : \E t \in lost : May(s, t, q)
Strict == pc = "done" => \A q \in fine : \E t \in lost : InCell(s, t, q)
(* what must be missing may be *)
Sane == \A t \in lost : \A p \in Pix, o \in Outs : Must(s, t, <<p[1], p[2], p[3], o>>) => May(s, t, <<p[1], p[2], p[3], o>>)
(* a tie point has some weight somewhere *)
Seen == \A t \in lost : t[4] # "satz" => \E p \in Pix, o \in Outs : Must(s, t, <<p[1], p[2], p[3], o>>)

(* -- judging recorded executions: lost values, missing and changed pixels *)
Requests == JsonDeserialize(IOEnv.REQ)
(* fine pixels that a tie point can reach along one axis *)
Reach(r, n) == {j \in 0..(FineRows(r) - 1) : n \in Near(RowPos(r, j), r.rows)}
ReachC(r, n) == LET mid == n * r.c * r.k IN
                {i \in (mid - 12 * r.c * r.k)..(mid + 12 * r.c * r.k) : /\ i \in 0..(FineCols(r) - 1)
                                                      /\ n \in Near(ColPos(r, i), r.cols) \cup {ZoneCol(r, i), ZoneCol(r, i) + 1}}
MustSet(r, t) == {q \in {t[1]} \X (IF t[4] = "satz" THEN 0..(FineRows(r) - 1) ELSE Reach(r, t[2])) \X ReachC(r, t[3])
                         \X MustHit(t[4], r.direct) : Must(r, t, q)}
Set(seq) == {seq[i] : i \in 1..Len(seq)}
Good(rec) == LET gone == Set(rec.lost)
                 miss == Set(rec.missing)
             IN /\ \A t \in gone : MustSet(rec.scheme, t) \subseteq miss
                /\ \A q \in miss : \E t \in gone : May(rec.scheme, t, q)
                /\ rec.changed = 0
JudgeInit == /\ s = <<>> /\ lost = {} /\ steps = 0 /\ pc = "judge" /\ fine = {} /\ side = "right"
EmitNext == FALSE /\ UNCHANGED vars
Judge == \A i \in DOMAIN Requests : Good(Requests[i]) \/ PrintT("@@" \o ToJson([bad |-> i]))
Judged == PrintT("@@" \o ToJson([judged |-> Len(Requests)]))
=============================================================================
