------------------------------ MODULE Convert ------------------------------
(* Conversions between geographic and cartesian coordinates, exactly.      *)
(*                                                                         *)
(* A place is a point of the unit sphere with integer coordinates over D.  *)
(* Geographic coordinates of a place are the direction of its longitude    *)
(* (with any number of turns added), the sign of its latitude and the      *)
(* squared cosine of its latitude (over D*D): all integers.                *)
(* A user converts back and forth, with radii, thresholds and formulas of  *)
(* his choice, and adds turns to longitudes.                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Names, Radii,      \* radii are small integers
          Thresholds,        \* in fifths
          MaxSteps, Bug

D == 105
Point == [X |-> <<1, 0, 0, 1>>, Y |-> <<0, 1, 0, 1>>, Z |-> <<0, 0, 1, 1>>, W |-> <<-1, 0, 0, 1>>, V |-> <<0, -1, 0, 1>>, S |-> <<0, 0, -1, 1>>,
          A |-> <<1, 2, 2, 3>>, B |-> <<2, -1, 2, 3>>, C |-> <<2, 2, -1, 3>>, F |-> <<-2, -1, -2, 3>>, G |-> <<-2, 1, 2, 3>>,
          K |-> <<2, 3, 6, 7>>, L |-> <<-3, 2, -6, 7>>, M |-> <<-2, -3, 6, 7>>, P |-> <<-6, 2, 3, 7>>, Q |-> <<6, -2, -3, 7>>,
          a |-> <<3, 4, 0, 5>>, b |-> <<-4, -3, 0, 5>>, c |-> <<-3, 0, 4, 5>>, d |-> <<0, -3, -4, 5>>, e |-> <<-4, 0, -3, 5>>]
Unit(n) == LET q == Point[n] IN [i \in 1..3 |-> q[i] * (D \div q[4])]
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
AbsI(n) == IF n < 0 THEN 0 - n ELSE n

(* the formula that gives the latitude of v (over D * r): z alone, or the distance to the axis. At the threshold (equal up
   to rounding), either may. *)
Formulas(v, r, thr, low) == IF ~low THEN {"axis"}
                            ELSE IF 5 * AbsI(v[3]) < thr * D * r THEN {"z"}
                            ELSE IF 5 * AbsI(v[3]) = thr * D * r THEN {"z", "axis"} ELSE {"axis"}
(* sign and squared cosine (times (D r)^2) of the latitude that a formula gives; for radius r *)
Latitude(v, r, f) == IF f = "z" THEN <<Sign(v[3]), D * r * D * r - v[3] * v[3]>>
                     ELSE <<Sign(v[3]), v[1] * v[1] + v[2] * v[2]>>
HasLatitude(v, r, f) == Latitude(v, r, f)[2] \in 0..(D * r * D * r)

VARIABLES place,    \* where the user is
          form,     \* "geo" or "xyz"
          val,      \* geo: <<unit direction of the longitude, <<sign, squared cosine (times D^2)>>, turns>>; xyz: <<vector, radius>>
          steps
vars == <<place, form, val, steps>>
(* at a pole any longitude does: the direction is <<0, 0>>, taken for any *)
Geo(n, turns) == LET u == Unit(n) IN <<<<u[1], u[2]>>, <<Sign(u[3]), u[1] * u[1] + u[2] * u[2]>>, turns>>
Init == place \in Names /\ form = "geo" /\ val = Geo(place, 0) /\ steps = 0
Tick == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED place
(* z is the sine of the latitude; known here from the place, whose sine has the sign and square in val *)
ToXyz == /\ Tick /\ form = "geo" /\ form' = "xyz"
         /\ \E r \in Radii : val' = <<[i \in 1..3 |-> IF i < 3 THEN val[1][i] * r
                                         ELSE CHOOSE z \in (0 - D * r)..(D * r) :
                                                 Sign(z) = val[2][1] /\ z * z = r * r * (D * D - val[2][2])], r>>
ToGeo == /\ Tick /\ form = "xyz" /\ form' = "geo"
         /\ \E thr \in Thresholds, low \in BOOLEAN :
              LET v == val[1]
                  r == IF Bug = "radius" THEN 1 ELSE val[2]
              IN  \E f \in Formulas(v, r, thr, low) :
                     LET l == Latitude(v, r, f)
                     IN  val' = <<<<v[1] \div val[2], v[2] \div val[2]>>,
                                  <<IF Bug = "sign" /\ f = "axis" THEN AbsI(l[1]) ELSE l[1], l[2] \div (val[2] * val[2])>>, 0>>
AddTurn == Tick /\ form = "geo" /\ \E t \in {-1, 1} : val' = [val EXCEPT ![3] = @ + t] /\ UNCHANGED form
Next == ToXyz \/ ToGeo \/ AddTurn
Spec == Init /\ [][Next]_vars
(* wherever the user went by, he is where he was *)
Kept == /\ form = "geo" => val = Geo(place, val[3])
        /\ form = "xyz" => val[1] = [i \in 1..3 |-> Unit(place)[i] * val[2]]
(* on the sphere both formulas agree *)
Agree == form = "xyz" => Latitude(val[1], val[2], "z") = Latitude(val[1], val[2], "axis")

----------------------------------------------------------------------------
(* For the replay: vectors that are k/8 of a point of the sphere; which formulas may be used tells where they end *)
Req == JsonDeserialize(IOEnv.REQ)
One(q) == LET u == [i \in 1..3 |-> Unit(q.name)[i] * q.k]      \* over 8 D
          IN  [id |-> q.id, v |-> u, formulas |-> Formulas(u, 8, q.thr, q.low),
               ok |-> \A f \in Formulas(u, 8, q.thr, q.low) : HasLatitude(u, 8, f)]
OneInit == place = "" /\ form = "" /\ val = <<>> /\ steps = 0
OneNext == UNCHANGED vars
Vectors == \A i \in 1..Len(Req) : PrintT("@@" \o ToJson(One(Req[i])))
(* words for the replay *)
HInit == place \in Names /\ form = "geo" /\ val = <<>> /\ steps = 0
HStep(op, f) == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED place /\ val' = Append(val, op) /\ form' = f
HNext == \/ form = "geo" /\ (\E r \in Radii : HStep(<<"xyz", r>>, "xyz"))
         \/ form = "xyz" /\ (\E thr \in Thresholds, low \in BOOLEAN : HStep(<<"geo", thr, low>>, "geo"))
         \/ form = "geo" /\ (\E t \in {-1, 1} : HStep(<<"turn", t>>, "geo"))
HEmit == (form = "geo" /\ steps > 1) => PrintT("@@" \o ToJson([place |-> place, start |-> Unit(place), word |-> val]))
=============================================================================
