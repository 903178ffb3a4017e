---------------------------- MODULE Multilinear ----------------------------
(* The multilinear interpolator on a regular grid in 1 to 4 dimensions.    *)
(*                                                                         *)
(* Coordinates are in units of grid cells: a dimension of n points goes    *)
(* from 0 to n - 1, a rational outside of it is extrapolated from the      *)
(* nearest cell.  A result is a combination of grid points, numbered with  *)
(* the last dimension varying fastest.                                     *)
(*                                                                         *)
(* The machine is the evaluation of a batch of points by several workers:  *)
(* each takes a point, finds its cell, dimension after dimension, and      *)
(* writes the combination; meanwhile the user may set other values before  *)
(* the next batch, or enumerate the grid.                                  *)
EXTENDS Rat, TLC, Json, IOUtils

CONSTANTS Grids,       \* sequences of numbers of points per dimension
          Ticks,       \* coordinates tried in each dimension: pairs <<n, d>>
          Workers,
          Batch        \* number of points in a batch

----------------------------------------------------------------------------
(* Documented meaning *)
Inside1(t, n) == Le(Zero, t) /\ Le(t, I(n - 1))
CellOf(t, n) == Clamp(Floor(t), 0, n - 2)
RECURSIVE Stride(_, _)
Stride(g, m) == IF m = Len(g) THEN 1 ELSE g[m + 1] * Stride(g, m + 1)
Index(g, p) == LET RECURSIVE S(_)
                   S(m) == IF m = 0 THEN 0 ELSE p[m] * Stride(g, m) + S(m - 1)
               IN  S(Len(g))
(* weights of the two ends of the cell in one dimension *)
Ends(t, n) == LET q == CellOf(t, n)
                  l == Sub(t, I(q))
              IN  {<<q, Sub(One, l)>>, <<q + 1, l>>}
RECURSIVE Corners(_, _, _)   \* set of <<index, weight>>
Corners(g, p, m) == IF m = 0 THEN {<<0, One>>}
                    ELSE {<<c[1] + e[1] * Stride(g, m), Mul(c[2], e[2])>> : c \in Corners(g, p, m - 1), e \in Ends(p[m], g[m])}
Ideal(g, p) == LET C == Corners(g, p, Len(g))
               IN  Prune([i \in {c[1] : c \in C} |-> (CHOOSE c \in C : c[1] = i)[2]])
(* the grid, in order *)
RECURSIVE Size(_)
Size(g) == IF g = <<>> THEN 1 ELSE Head(g) * Size(Tail(g))
PointAt(g, i) == [m \in 1..Len(g) |-> (i \div Stride(g, m)) % g[m]]

----------------------------------------------------------------------------
VARIABLES g,         \* the grid
          pts,       \* points of the batch
          todo,      \* points not taken yet
          work,      \* worker -> <<>> or [point, dim, base, terms]: its private scratch
          out,       \* point -> combination
          values,    \* number of the values set last
          used       \* point -> values it was computed with
vars == <<g, pts, todo, work, out, values, used>>

Init == /\ g \in Grids
        /\ pts \in [1..Batch -> [1..Len(g) -> {t \in Ticks : TRUE}]]
        /\ todo = 1..Batch /\ work = [w \in Workers |-> <<>>] /\ out = <<>> /\ values = 1 /\ used = <<>>

Take(w) == /\ work[w] = <<>> /\ todo # {}
           /\ \E p \in todo : /\ todo' = todo \ {p}
                              /\ work' = [work EXCEPT ![w] = [point |-> p, dim |-> 0, terms |-> Unit(0)]]
           /\ UNCHANGED <<g, pts, out, values, used>>
(* one dimension more: index * size + offset *)
Advance(w) ==
    /\ work[w] # <<>> /\ work[w].dim < Len(g)
    /\ LET m == work[w].dim + 1
           p == pts[work[w].point]
           t == p[m]
           q == Max2(Min2(IF Lt(t, Zero) THEN -((-t[1]) \div t[2]) ELSE Floor(t), g[m] - 2), 0)
           l == Sub(t, I(q))
           T == work[w].terms
           lo == [i \in {j * g[m] + q : j \in DOMAIN T} |-> Mul(Sub(One, l), T[(i - q) \div g[m]])]
           hi == [i \in {j * g[m] + q + 1 : j \in DOMAIN T} |-> Mul(l, T[(i - q - 1) \div g[m]])]
       IN  work' = [work EXCEPT ![w] = [point |-> @.point, dim |-> m, terms |-> CAdd(lo, hi)]]
    /\ UNCHANGED <<g, pts, todo, out, values, used>>
Write(w) == /\ work[w] # <<>> /\ work[w].dim = Len(g)
            /\ LET p == work[w].point
               IN  /\ out' = [i \in DOMAIN out \cup {p} |-> IF i = p THEN work[w].terms ELSE out[i]]
                   /\ used' = [i \in DOMAIN used \cup {p} |-> IF i = p THEN values ELSE used[i]]
            /\ work' = [work EXCEPT ![w] = <<>>]
            /\ UNCHANGED <<g, pts, todo, values>>
Idle == todo = {} /\ \A w \in Workers : work[w] = <<>>
(* between two calls: other values, and the points again *)
SetValues == /\ Idle /\ values < 2
             /\ values' = values + 1 /\ todo' = 1..Batch
             /\ UNCHANGED <<g, pts, work, out, used>>
Next == (\E w \in Workers : Take(w) \/ Advance(w) \/ Write(w)) \/ SetValues
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Refines == \A p \in DOMAIN out : out[p] = Ideal(g, pts[p])
Partition == \A p \in DOMAIN out : Weight(out[p]) = One
LastValues == Idle => (DOMAIN used = 1..Batch /\ \A p \in 1..Batch : used[p] = values)
(* products of coordinates are reproduced, inside and outside *)
RECURSIVE ProdOver(_, _)
ProdOver(h, S) == IF S = {} THEN One ELSE LET x == CHOOSE x \in S : TRUE IN Mul(h[x], ProdOver(h, S \ {x}))
Multi == \A p \in DOMAIN out : \A D \in SUBSET (1..Len(g)) :
            Eval(out[p], [i \in DOMAIN out[p] |-> ProdOver([m \in 1..Len(g) |-> I(PointAt(g, i)[m])], D)])
            = ProdOver(pts[p], D)
(* grid points *)
OnGrid == \A p \in DOMAIN out : (\A m \in 1..Len(g) : pts[p][m][2] = 1 /\ Inside1(pts[p][m], g[m])) =>
             out[p] = Unit(Index(g, [m \in 1..Len(g) |-> pts[p][m][1]]))
(* inside of the grid, a convex combination *)
Convex == \A p \in DOMAIN out : (\A m \in 1..Len(g) : Inside1(pts[p][m], g[m])) =>
             \A i \in DOMAIN out[p] : Lt(Zero, out[p][i])
InRange == \A p \in DOMAIN out : \A i \in DOMAIN out[p] : i \in 0..(Size(g) - 1)
(* the enumeration of the grid is the inverse of the numbering *)
Enumerates == /\ \A i \in 0..(Size(g) - 1) : Index(g, PointAt(g, i)) = i
              /\ \A i \in 0..(Size(g) - 2) : \E m \in 1..Len(g) :
                    /\ \A k \in 1..(m - 1) : PointAt(g, i)[k] = PointAt(g, i + 1)[k]
                    /\ PointAt(g, i + 1)[m] = PointAt(g, i)[m] + 1

----------------------------------------------------------------------------
(* Tables: a request is a grid and points (per dimension <<num, den>>) *)
Req == JsonDeserialize(IOEnv.REQ)
Norm(p) == [m \in 1..Len(p) |-> Q(p[m][1], p[m][2])]
Table(q) == [id |-> q.id,
             combs |-> [i \in 1..Len(q.points) |-> AsSeq(Ideal(q.grid, Norm(q.points[i])))],
             grid |-> [i \in 1..Size(q.grid) |-> PointAt(q.grid, i - 1)]]
TableInit == g = <<2>> /\ pts = <<>> /\ todo = {} /\ work = <<>> /\ out = <<>> /\ values = 0 /\ used = <<>>
TableNext == UNCHANGED vars
Tables == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Table(Req[q])))

(* Histories of two interpolator objects, used in turns: values set and calls made, with the values each call   *)
(* must use, which are those last set on the same object                                                       *)
CONSTANT HistLen
Objects == {1, 2}
HistInit == g = <<2>> /\ pts = <<>> /\ todo = {} /\ work = <<>> /\ out = <<>> /\ values = [o \in Objects |-> 0] /\ used = <<>>
HistNext == /\ Len(out) < HistLen
            /\ \E b \in Objects, o \in {"set1", "set2", "call", "call2", "grid"} :
                  /\ o \in {"call", "call2"} => values[b] # 0
                  /\ out' = Append(out, [obj |-> b, op |-> o])
                  /\ values' = [values EXCEPT ![b] = IF o = "set1" THEN 1 ELSE IF o = "set2" THEN 2 ELSE @]
                  /\ used' = IF o \in {"call", "call2"} THEN Append(used, values[b]) ELSE used
            /\ UNCHANGED <<g, pts, todo, work>>
(* what one object is used for makes no difference to the other *)
HistLocal == \A b \in Objects :
                LET own == SelectSeq(out, LAMBDA x : x.obj = b)
                    sets == SelectSeq(own, LAMBDA x : x.op \in {"set1", "set2"})
                IN  values[b] = IF sets = <<>> THEN 0 ELSE IF sets[Len(sets)].op = "set1" THEN 1 ELSE 2
HistEmit == (Len(out) = HistLen /\ used # <<>>) => PrintT("@@" \o ToJson([hist |-> out, used |-> used]))
=============================================================================
