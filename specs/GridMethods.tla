---------------------------- MODULE GridMethods ----------------------------
(* The interpolators on rectilinear grids of tie points ("grid" classes):  *)
(* an object is made of tie rows and columns, a method and a policy for    *)
(* positions outside of the ties, and is then called any number of times,  *)
(* each call asking for fine rows and columns and maybe for another method.*)
(*                                                                         *)
(* The meaning of a position is given by the geometry alone: which ties    *)
(* count, and how much.  The machine looks cells up, computes normalised   *)
(* distances and combines along one direction then the other, position by  *)
(* position in any order.                                                  *)
EXTENDS Rat, TLC, Json, IOUtils, SequencesExt

CONSTANTS Span,        \* ties and positions are integers in 0..Span (positions one further)
          ColTies,     \* the tie columns considered: a set of sets
          Methods,     \* methods asked for
          Policies,    \* "refuse", "fill" or "extend"
          MaxCalls,    \* calls on one object
          Bug          \* "" or a wrong way of doing it

----------------------------------------------------------------------------
(* The meaning.  t: a strictly increasing sequence of integer positions    *)
Inside(t, x) == t[1] <= x /\ x <= t[Len(t)]
(* cells a position may be said to be in *)
Homes(t, x) == {i \in 1..(Len(t) - 1) :
                  /\ t[i] <= x \/ i = 1
                  /\ x <= t[i + 1] \/ i = Len(t) - 1}
(* the linear one: between the ties of the cell, so that positions are reproduced *)
LinearAt(t, x) == LET i == CHOOSE i \in Homes(t, x) : TRUE
                      d == t[i + 1] - t[i]
                  IN  Prune([j \in {i - 1, i} |-> IF j = i THEN Q(x - t[i], d) ELSE Q(t[i + 1] - x, d)])
(* the nearest ones: two when the position is half way *)
NearestAt(t, x) == {Unit(i - 1) : i \in {i \in 1..Len(t) : \A j \in 1..Len(t) : AbsI(t[i] - x) <= AbsI(t[j] - x)}}
(* what may be answered along one axis *)
AxisMeaning(m, t, x) == IF m = "linear" THEN {LinearAt(t, x)} ELSE NearestAt(t, x)

(* a pair of axis combinations is a combination of ties <<row, column>> *)
Tensor(a, b) == [p \in (DOMAIN a) \X (DOMAIN b) |-> Mul(a[p[1]], b[p[2]])]
Filled == [p \in {} |-> One]        \* no tie point counts: the fill value
Meaning(o, m, y, x) ==
    IF (Inside(o.rows, y) /\ Inside(o.cols, x)) \/ o.policy = "extend"
    THEN {Tensor(a, b) : a \in AxisMeaning(m, o.rows, y), b \in AxisMeaning(m, o.cols, x)}
    ELSE {Filled}
Refused(o, ys, xs) == o.policy = "refuse" /\ \E y \in ys, x \in xs : ~(Inside(o.rows, y) /\ Inside(o.cols, x))

----------------------------------------------------------------------------
(* The machine *)
VARIABLES obj,     \* rows, cols, method, policy
          ask,     \* the current call: ys, xs, method ("" : the one of the object), or <<>>
          done,    \* answers of the current call, by position
          method,  \* the method the object would use now
          refused, calls
vars == <<obj, ask, done, method, refused, calls>>

TieSets == {T \in SUBSET (0..Span) : Cardinality(T) >= 2}
Fines == {-1, 0, 1, Span - 1, Span, Span + 1}
Objects == [rows : {SetToSortSeq(T, <) : T \in TieSets}, cols : {SetToSortSeq(T, <) : T \in ColTies},
            method : Methods, policy : Policies]

Init == /\ obj \in Objects /\ method = obj.method
        /\ ask = <<>> /\ done = <<>> /\ refused = FALSE /\ calls = 0

Ask == /\ ask = <<>> /\ calls < MaxCalls
       /\ \E y1 \in Fines, y2 \in Fines, x \in Fines, m \in Methods \cup {""} :
             LET ys == {y1, y2} xs == {x} IN
             /\ y1 <= y2
             /\ refused' = (Bug # "lenient" /\ Refused(obj, ys, xs))
             /\ ask' = [ys |-> ys, xs |-> xs, method |-> m]
             /\ method' = IF Bug = "sticky" /\ m # "" THEN m ELSE method
       /\ done' = <<>> /\ calls' = calls + 1 /\ UNCHANGED obj

(* cell and normalised distance: the cell of the last tie at or before the position *)
Lookup(t, x) == LET n == Cardinality({i \in 1..Len(t) : t[i] <= x})
                    i == IF Bug = "last cell" THEN Max2(n, 1) ELSE Clamp(n, 1, Len(t) - 1)
                IN  IF i = Len(t) THEN <<i, Zero>> ELSE <<i, Q(x - t[i], t[i + 1] - t[i])>>
Clipped(w) == IF Bug = "clamped" THEN (IF Lt(w, Zero) THEN Zero ELSE IF Lt(One, w) THEN One ELSE w) ELSE w
Along(m, t, x) == LET c == Lookup(t, x) IN
                  IF m = "linear" THEN CLerp(Unit(c[1] - 1), Unit(c[1]), Clipped(c[2]))
                  ELSE IF Le(c[2], Q(1, 2)) THEN Unit(c[1] - 1) ELSE Unit(c[1])
Answer(o, m, y, x) ==
    IF o.policy # "extend" /\ ~(Inside(o.rows, y) /\ Inside(o.cols, x)) THEN Filled
    ELSE IF Bug = "swapped" THEN Tensor(Along(m, o.rows, x), Along(m, o.cols, y))
    ELSE Tensor(Along(m, o.rows, y), Along(m, o.cols, x))
Compute == /\ ask # <<>> /\ ~refused
           /\ \E p \in ask.ys \X ask.xs :
                 /\ p \notin DOMAIN done
                 /\ done' = (p :> Answer(obj, IF ask.method = "" THEN method ELSE ask.method, p[1], p[2])) @@ done
           /\ UNCHANGED <<obj, ask, method, refused, calls>>
Finish == /\ ask # <<>> /\ (refused \/ DOMAIN done = ask.ys \X ask.xs)
          /\ ask' = <<>> /\ done' = <<>> /\ refused' = FALSE /\ UNCHANGED <<obj, method, calls>>
Next == Ask \/ Compute \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Asked == IF ask.method = "" THEN obj.method ELSE ask.method
(* the machine does what is meant *)
Right == \A p \in DOMAIN done : done[p] \in Meaning(obj, Asked, p[1], p[2])
RefusedWhenOutside == ask # <<>> => (refused <=> Refused(obj, ask.ys, ask.xs))
(* and the meaning has the properties that are relied on *)
Proper == \A p \in DOMAIN done : done[p] # Filled =>
    LET c == done[p] d == DOMAIN done[p] IN
    /\ Weight(c) = One
    /\ Cardinality(d) <= 4
    (* reproduces ties *)
    /\ (\E i \in 1..Len(obj.rows), j \in 1..Len(obj.cols) : p = <<obj.rows[i], obj.cols[j]>>) =>
          \E i \in 1..Len(obj.rows), j \in 1..Len(obj.cols) : p = <<obj.rows[i], obj.cols[j]>> /\ c = Unit(<<i - 1, j - 1>>)
    (* reproduces data that is linear in both directions *)
    /\ Asked = "linear" =>
          /\ Eval(c, [q \in d |-> I(obj.rows[q[1] + 1])]) = I(p[1])
          /\ Eval(c, [q \in d |-> I(obj.cols[q[2] + 1])]) = I(p[2])
          /\ Eval(c, [q \in d |-> I(obj.rows[q[1] + 1] * obj.cols[q[2] + 1])]) = I(p[1] * p[2])
    (* stays between the ties inside, and never is further than half a cell when nearest *)
    /\ (Inside(obj.rows, p[1]) /\ Inside(obj.cols, p[2])) => \A q \in d : Lt(Zero, c[q])
    /\ Asked = "nearest" => \E q \in d : d = {q} /\ c[q] = One

----------------------------------------------------------------------------
(* Tables: axes with positions, per position the combinations that are right *)
Req == JsonDeserialize(IOEnv.REQ)
Row(m, t, x) == [ok |-> Inside(t, x), combs |-> SetToSeq({AsSeq(c) : c \in AxisMeaning(m, t, x)})]
Table(q) == [id |-> q.id, linear |-> [i \in 1..Len(q.fine) |-> Row("linear", q.ties, q.fine[i])],
             nearest |-> [i \in 1..Len(q.fine) |-> Row("nearest", q.ties, q.fine[i])]]
Idle == /\ obj = <<>> /\ ask = <<>> /\ done = <<>> /\ method = "" /\ refused = FALSE /\ calls = 0
TableNext == UNCHANGED vars
Tables == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Table(Req[q])))

(* Histories of calls: method asked for (or none), where the positions lie, and the method that counts; for replay *)
HistInit == /\ obj \in [method : {"linear", "nearest"}, policy : {"refuse", "fill", "extend"}]
            /\ ask = <<>> /\ done = <<>> /\ method = obj.method /\ refused = FALSE /\ calls = 0
Wheres == {"inside", "ties", "outside rows", "outside cols", "outside"}
HistNext == /\ calls < MaxCalls /\ calls' = calls + 1
            /\ \E m \in {"linear", "nearest", ""}, w \in Wheres :
                  done' = Append(done, [ask |-> m, where |-> w, method |-> IF m = "" THEN obj.method ELSE m,
                                        becomes |-> IF w \in {"inside", "ties"} \/ obj.policy = "extend" THEN "values"
                                                    ELSE IF obj.policy = "fill" THEN "filled outside" ELSE "refused"])
            /\ UNCHANGED <<obj, ask, method, refused>>
HistEmit == calls = MaxCalls => PrintT("@@" \o ToJson([method |-> obj.method, policy |-> obj.policy, calls |-> done]))
=============================================================================
