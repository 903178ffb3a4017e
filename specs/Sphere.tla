------------------------------- MODULE Sphere -------------------------------
(* Geographic interpolation of one cell on the unit sphere, exactly.       *)
(*                                                                         *)
(* Corners are points of the sphere with rational coordinates, written as  *)
(* integers over 105; a corner is known by its longitude, with any number  *)
(* of turns added, and its latitude. Weights are integers over 8 and may   *)
(* be outside of 0..8, so that positions are integers over 105*64.         *)
(* The longitude of a pixel is the direction of (x, y); its latitude comes *)
(* from z when |z| < 4/5 and from the distance to the axis otherwise.      *)
(*                                                                         *)
(* A user turns, mirrors and reverses the cell, adds turns to longitudes,  *)
(* and interpolates; the net effect is tracked apart from the positions.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Names,        \* points used, names in Point
          Weights,      \* weights, in eighths
          MaxSteps,
          Degrees       \* rotation angles of the emitted words

D == 105
E == D * 64
Point == [X |-> <<1, 0, 0, 1>>, Y |-> <<0, 1, 0, 1>>, Z |-> <<0, 0, 1, 1>>, W |-> <<-1, 0, 0, 1>>, S |-> <<0, 0, -1, 1>>,
          A |-> <<1, 2, 2, 3>>, B |-> <<2, 1, 2, 3>>, C |-> <<2, 2, 1, 3>>, D |-> <<-1, -2, 2, 3>>, E |-> <<-2, 1, 2, 3>>,
          F |-> <<-2, -1, -2, 3>>, G |-> <<2, 1, -2, 3>>, H |-> <<-2, -2, 1, 3>>, I |-> <<-1, 2, 2, 3>>, J |-> <<1, -2, 2, 3>>,
          K |-> <<2, 3, 6, 7>>, L |-> <<3, 2, 6, 7>>, M |-> <<-2, 3, 6, 7>>, N |-> <<-3, 2, 6, 7>>, O |-> <<6, 2, 3, 7>>,
          P |-> <<-6, 2, 3, 7>>, Q |-> <<-6, -2, 3, 7>>, R |-> <<-6, 2, -3, 7>>, T |-> <<-6, -2, -3, 7>>,
          U |-> <<6, 3, 2, 7>>, V |-> <<6, -3, 2, 7>>,
          a |-> <<3, 4, 0, 5>>, b |-> <<-4, 3, 0, 5>>, c |-> <<-3, 0, 4, 5>>, d |-> <<0, -3, 4, 5>>, e |-> <<-4, 0, -3, 5>>]
Vec(p) == LET q == Point[p] IN [i \in 1..3 |-> q[i] * (D \div q[4])]

AbsI(n) == IF n < 0 THEN 0 - n ELSE n
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
(* cell: <<upper left, upper right, lower left, lower right>>; s along the columns, t down the rows *)
At4(cl, s, t) == [i \in 1..3 |-> (8 - s) * (8 - t) * cl[1][i] + s * (8 - t) * cl[2][i] + (8 - s) * t * cl[3][i] + s * t * cl[4][i]]
Branch(v) == LET k == 5 * AbsI(v[3]) IN IF k < 4 * E THEN "low" ELSE IF k = 4 * E THEN "either" ELSE "high"
(* all the formulas of the conversion have a value *)
Defined(v) == IF Branch(v) = "high" THEN v[1] * v[1] + v[2] * v[2] <= E * E ELSE TRUE
InUnit(w) == 0 <= w /\ w <= 8

(* the transformations, exactly; "turn" is 90 degrees and "tilt" is the angle with cosine 3/5 and sine 4/5; with several of them
   the coordinates are no longer over 105: tilt at most once *)
Turn(v) == <<0 - v[2], v[1], v[3]>>
Tilt(v) == <<(3 * v[1] - 4 * v[2]) \div 5, (4 * v[1] + 3 * v[2]) \div 5, v[3]>>
TiltBack(v) == <<(3 * v[1] + 4 * v[2]) \div 5, (3 * v[2] - 4 * v[1]) \div 5, v[3]>>
MirrorNS(v) == <<v[1], v[2], 0 - v[3]>>
MirrorEW(v) == <<v[1], 0 - v[2], v[3]>>
Each(cl, f(_)) == [i \in 1..4 |-> f(cl[i])]
RECURSIVE Times(_, _, _)
Times(v, f(_), k) == IF k = 0 THEN v ELSE Times(f(v), f, k - 1)

VARIABLES orig, cell, wraps, net, steps
vars == <<orig, cell, wraps, net, steps>>
Hemisphere(cl) == \A i, j \in 1..4 : 0 < Dot(cl[i], cl[j])
Small(cl) == \A i, j \in 1..4 : 19 * D * D <= 20 * Dot(cl[i], cl[j])      \* 18 degrees
Divides5(v) == \A i \in 1..2 : v[i] % 5 = 0                                 \* can be tilted
Cells == {cl \in [1..4 -> {Vec(p) : p \in Names}] : Hemisphere(cl) /\ cl[1] # cl[4]}
NoNet == [turn |-> 0, tilt |-> 0, ns |-> 1, ew |-> 1, rr |-> FALSE, rc |-> FALSE]
Init == orig \in Cells /\ cell = orig /\ wraps = <<0, 0, 0, 0>> /\ net = NoNet /\ steps = 0
Tick == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED orig
DoTurn == Tick /\ cell' = Each(cell, Turn) /\ net' = [net EXCEPT !.turn = (@ + 1) % 4] /\ UNCHANGED wraps
DoTilt == Tick /\ net.tilt < 1 /\ (\A i \in 1..4 : Divides5(cell[i])) /\ cell' = Each(cell, Tilt)
          /\ net' = [net EXCEPT !.tilt = @ + 1] /\ UNCHANGED wraps
DoNS == Tick /\ cell' = Each(cell, MirrorNS) /\ net' = [net EXCEPT !.ns = 0 - @] /\ UNCHANGED wraps
(* a mirror after rotations turns them back *)
DoEW == Tick /\ cell' = Each(cell, MirrorEW)
        /\ net' = [net EXCEPT !.ew = 0 - @, !.turn = (4 - @) % 4, !.tilt = 0 - @] /\ UNCHANGED wraps
DoRows == Tick /\ cell' = <<cell[3], cell[4], cell[1], cell[2]>> /\ net' = [net EXCEPT !.rr = ~@]
          /\ wraps' = <<wraps[3], wraps[4], wraps[1], wraps[2]>>
DoCols == Tick /\ cell' = <<cell[2], cell[1], cell[4], cell[3]>> /\ net' = [net EXCEPT !.rc = ~@]
          /\ wraps' = <<wraps[2], wraps[1], wraps[4], wraps[3]>>
DoWrap == Tick /\ (\E i \in {1, 4} : wraps' = [wraps EXCEPT ![i] = @ + 1]) /\ UNCHANGED <<cell, net>>
Next == DoTurn \/ DoTilt \/ DoNS \/ DoEW \/ DoRows \/ DoCols \/ DoWrap
Spec == Init /\ [][Next]_vars

ApplyNet(v) == LET m == IF net.ew = -1 THEN MirrorEW(v) ELSE v
                   n == IF net.ns = -1 THEN MirrorNS(m) ELSE m
                   k == Times(n, Turn, net.turn)
               IN  IF net.tilt = 1 THEN Tilt(k) ELSE IF net.tilt = -1 THEN TiltBack(k) ELSE k
S1(s) == IF net.rc THEN 8 - s ELSE s
T1(t) == IF net.rr THEN 8 - t ELSE t
(* C16: the pixels of the transformed cell are the transformed pixels, in the same branch of the conversion; turns added to
   longitudes change nothing *)
Commutes == \A s, t \in Weights : LET v == At4(cell, s, t)
                                      w == At4(orig, S1(s), T1(t))
                                  IN  v = ApplyNet(w) /\ Branch(v) = Branch(w)
(* C10: inside of a cell smaller than a hemisphere, the position is inside of the sphere, not at its centre, and has a
   longitude and latitude; beyond the outer ties of a small cell too *)
InsideDefined == steps = 0 => \A s, t \in Weights : (InUnit(s) /\ InUnit(t)) =>
                    LET v == At4(orig, s, t) IN Dot(v, v) <= E * E /\ 0 < Dot(v, v) /\ Defined(v)
OutsideDefined == (steps = 0 /\ Small(orig)) => \A s, t \in Weights : LET v == At4(orig, s, t) IN Defined(v) /\ 0 < Dot(v, v)
(* why: below the radius 1.28 there is always a formula *)
Bound == steps = 0 => \A s, t \in Weights : LET v == At4(orig, s, t) IN Dot(v, v) < (E \div 25) * (E \div 25) * 1025 => Defined(v)
OnSphere == \A i \in 1..4 : Dot(cell[i], cell[i]) = D * D

----------------------------------------------------------------------------
(* Cells and pixels for the replay: corners by name, weights; exact position, branch *)
Req == JsonDeserialize(IOEnv.REQ)
Pix(q) == LET cl == [i \in 1..4 |-> Vec(q.cell[i])]
          IN  [id |-> q.id, corners |-> cl, hemisphere |-> Hemisphere(cl), small |-> Small(cl),
               pix |-> [i \in 1..Len(q.t) |-> [j \in 1..Len(q.s) |->
                    LET v == At4(cl, q.s[j], q.t[i]) IN <<v, Branch(v), Defined(v)>>]]]
OneInit == orig = <<>> /\ cell = <<>> /\ wraps = <<>> /\ net = <<>> /\ steps = 0
OneNext == UNCHANGED vars
Pixels == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Pix(Req[q])))

(* Words of transformations for the replay of C16, with their net effect on longitudes and latitudes:
   longitude -> ew * longitude + deg, latitude -> ns * latitude *)
WInit == /\ orig = <<>> /\ cell = <<>> /\ wraps = 0 /\ steps = 0
         /\ net = [deg |-> 0, ns |-> 1, ew |-> 1, rr |-> FALSE, rc |-> FALSE]
WStep(op, e) == steps < MaxSteps /\ steps' = steps + 1 /\ cell' = Append(cell, op) /\ net' = e /\ UNCHANGED <<orig, wraps>>
WNext == \/ \E g \in Degrees : WStep(<<"rotate", g>>, [net EXCEPT !.deg = (@ + g) % 360])
         \/ WStep(<<"ns">>, [net EXCEPT !.ns = 0 - @])
         \/ WStep(<<"ew">>, [net EXCEPT !.ew = 0 - @, !.deg = (360 - @) % 360])
         \/ WStep(<<"rows">>, [net EXCEPT !.rr = ~@])
         \/ WStep(<<"cols">>, [net EXCEPT !.rc = ~@])
WEmit == steps > 0 => PrintT("@@" \o ToJson([word |-> cell, net |-> net]))
=============================================================================
