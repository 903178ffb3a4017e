------------------------------ MODULE TieGrid ------------------------------
(* A grid of tie points being filled at its borders and interpolated.      *)
(*                                                                         *)
(* The two directions are independent: each axis is a strictly increasing  *)
(* sequence of <<position, combination of the original ties>>.  Filling    *)
(* an axis adds border ties to each chunk of fine lines by linear          *)
(* extrapolation from the two nearest ties of the chunk.  Interpolating    *)
(* evaluates the interpolating spline of the order of the axis at the fine *)
(* positions: exact for order 1 and any number of ties, and for higher     *)
(* orders with up to order + 3 ties (solved exactly below).                *)
(*                                                                         *)
(* The machine lets a user fill and interpolate in any order, as often as  *)
(* wanted.  All properties are about combinations: they hold for all data. *)
EXTENDS Rat, TLC, Json, IOUtils, SequencesExt

CONSTANTS NFine,       \* numbers of fine lines
          Chunks,      \* chunk sizes (0: a single chunk)
          Reach,       \* how far ties may lie beyond the fine lines
          Orders,      \* interpolation orders
          MaxSteps     \* length of the histories

----------------------------------------------------------------------------
(* One axis: [fine, ties: sequences of integers, chunk, k: integer] *)
NChunks(a) == IF a.chunk = 0 THEN 1 ELSE Len(a.fine) \div a.chunk
ChunkSize(a) == IF a.chunk = 0 THEN Len(a.fine) ELSE a.chunk
FirstLine(a, g) == a.fine[(g - 1) * ChunkSize(a) + 1]
LastLine(a, g) == a.fine[g * ChunkSize(a)]
(* the ties of chunk g: all those before the next chunk begins *)
InChunk(a, g, p) == /\ (g > 1 => p >= FirstLine(a, g))
                    /\ (g < NChunks(a) => p < FirstLine(a, g + 1))
ChunkOfFine(a, i) == ((i - 1) \div ChunkSize(a)) + 1
ChunkOfTie(a, p) == CHOOSE g \in 1..NChunks(a) : InChunk(a, g, p)

Raw(a) == [i \in 1..Len(a.ties) |-> <<a.ties[i], Unit(i - 1)>>]
(* ties after filling: ties is a sequence of <<position, combination>> *)
Extrapolate(s, t, p) == CLerp(s[2], t[2], Q(p - s[1], t[1] - s[1]))
FillChunk(a, g, ties) ==
    LET mine == SelectSeq(ties, LAMBDA t : InChunk(a, g, t[1]))
        n == Len(mine)
        front == IF mine[1][1] > FirstLine(a, g)
                 THEN <<<<FirstLine(a, g), Extrapolate(mine[1], mine[2], FirstLine(a, g))>>>> ELSE <<>>
        back == IF mine[n][1] < LastLine(a, g)
                THEN <<<<LastLine(a, g), Extrapolate(mine[n - 1], mine[n], LastLine(a, g))>>>> ELSE <<>>
    IN  front \o mine \o back
RECURSIVE FillFrom(_, _, _)
FillFrom(a, g, ties) == IF g > NChunks(a) THEN <<>> ELSE FillChunk(a, g, ties) \o FillFrom(a, g + 1, ties)
Fill(a, ties) == FillFrom(a, 1, ties)
Fillable(a) == \A g \in 1..NChunks(a) : Cardinality({i \in 1..Len(a.ties) : InChunk(a, g, a.ties[i])}) >= 2

----------------------------------------------------------------------------
(* Interpolation *)
Covers(ties, fine) == ties[1][1] <= fine[1] /\ fine[Len(fine)] <= ties[Len(ties)][1]

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
(* all knots and positions are doubled, as the knots of even orders are half way *)
Plus(d, k) == IF d > 0 THEN Pow(d, k) ELSE 0
(* divided difference coefficients over points i..i+k+1 (positions p, a sequence): index -> rational *)
RECURSIVE ProdDiff(_, _, _)
ProdDiff(p, j, S) == IF S = {} THEN One
                     ELSE LET m == CHOOSE m \in S : TRUE
                          IN  Mul(Q(1, p[j] - p[m]), ProdDiff(p, j, S \ {m}))
DD(p, i, k) == [j \in i..(i + k + 1) |-> ProdDiff(p, j, (i..(i + k + 1)) \ {j})]
(* Lagrange basis on points S *)
RECURSIVE LagProd(_, _, _, _)
LagProd(p, j, S, x) == IF S = {} THEN One
                       ELSE LET m == CHOOSE m \in S : TRUE
                            IN  Mul(Q(x - p[m], p[j] - p[m]), LagProd(p, j, S \ {m}, x))
RECURSIVE CSumOver(_, _)
CSumOver(f, S) == IF S = {} THEN <<>>
                  ELSE LET m == CHOOSE m \in S : TRUE IN CAdd(f[m], CSumOver(f, S \ {m}))
Lagrange(p, S, vals, x) == CSumOver([j \in S |-> CScale(LagProd(p, j, S \ {j}, x), vals[j])], S)

(* interior knots of the interpolating spline of order k on n points (not-a-knot; half way for even orders) *)
Knot(p, k, j) == IF k % 2 = 1 THEN p[j + (k + 1) \div 2]
                 ELSE (p[j + k \div 2] + p[j + (k \div 2) + 1]) \div 2
(* value at x of the spline  poly + SUM c_j (x - knot_j)_+^k  through <<p[i], vals[i]>> *)
SplineAt(p, k, vals, x) ==
    LET n == Len(p)
        m == n - k - 1                         \* number of interior knots
        dd(i) == DD(p, i, k)
        ddv(i) == CSumOver([j \in i..(i + k + 1) |-> CScale(dd(i)[j], vals[j])], i..(i + k + 1))
        ddk(i, j) == SumOver([q \in i..(i + k + 1) |-> Mul(dd(i)[q], I(Plus(p[q] - Knot(p, k, j), k)))], i..(i + k + 1))
        det == Sub(Mul(ddk(1, 1), ddk(2, 2)), Mul(ddk(1, 2), ddk(2, 1)))
        c == IF m = 0 THEN <<>>
             ELSE IF m = 1 THEN <<CScale(Inv(ddk(1, 1)), ddv(1))>>
             ELSE <<CSub(CScale(Div(ddk(2, 2), det), ddv(1)), CScale(Div(ddk(1, 2), det), ddv(2))),
                    CSub(CScale(Div(ddk(1, 1), det), ddv(2)), CScale(Div(ddk(2, 1), det), ddv(1)))>>
        plus(z) == CSumOver([j \in 1..m |-> CScale(I(Plus(z - Knot(p, k, j), k)), c[j])], 1..m)
        base == [i \in 1..(k + 1) |-> CSub(vals[i], plus(p[i]))]
    IN  CAdd(Lagrange(p, 1..(k + 1), base, x), plus(x))

CellOf(ties, x) == CHOOSE i \in 1..(Len(ties) - 1) :
                      /\ ties[i][1] <= x
                      /\ x < ties[i + 1][1] \/ (i = Len(ties) - 1 /\ x <= ties[i + 1][1])
Linear(ties, x) == LET i == CellOf(ties, x) IN Extrapolate(ties[i], ties[i + 1], x)
Solvable(ties, k) == k = 1 \/ (Len(ties) >= k + 1 /\ Len(ties) <= k + 3)
Interp(ties, k, x) ==
    IF k = 1 THEN Linear(ties, x)
    ELSE SplineAt([i \in 1..Len(ties) |-> 2 * ties[i][1]], k, [i \in 1..Len(ties) |-> ties[i][2]], 2 * x)
InterpAxis(a, ties) == [i \in 1..Len(a.fine) |-> Interp(ties, a.k, a.fine[i])]

----------------------------------------------------------------------------
(* The lifecycle of an interpolator *)
AxesOf(n, ch, k) ==
    {a \in {[fine |-> [i \in 1..n |-> 2 * (i - 1)], ties |-> SetToSortSeq(S, <), chunk |-> ch, k |-> k] :
               S \in {T \in SUBSET ((-Reach)..(2 * (n - 1) + Reach)) : Cardinality(T) >= 2}} :
        Fillable(a) /\ Solvable(Raw(a), k)}
YAxes == UNION {AxesOf(n, ch, k) : n \in NFine, ch \in Chunks, k \in Orders}
XAxes == {[fine |-> <<0, 1, 2>>, ties |-> <<1, 2>>, chunk |-> 0, k |-> 1]}

VARIABLES ay, ax,        \* the two axes asked for
          rows, cols,    \* current ties
          out,           \* last result: <<row combinations, column combinations>>, or <<>>
          fy, fx,        \* directions filled so far
          steps
vars == <<ay, ax, rows, cols, out, fy, fx, steps>>

Init == /\ ay \in {a \in YAxes : a.chunk = 0 \/ Len(a.fine) % a.chunk = 0}
        /\ ax \in XAxes
        /\ rows = Raw(ay) /\ cols = Raw(ax) /\ out = <<>> /\ fy = FALSE /\ fx = FALSE /\ steps = 0
FillY == /\ rows' = Fill(ay, rows) /\ fy' = TRUE
         /\ UNCHANGED <<ay, ax, cols, out, fx>>
FillX == /\ cols' = Fill(ax, cols) /\ fx' = TRUE
         /\ UNCHANGED <<ay, ax, rows, out, fy>>
Interpolate == /\ Covers(rows, ay.fine) /\ Covers(cols, ax.fine)
               /\ Solvable(rows, ay.k) /\ Solvable(cols, ax.k)
               /\ out' = <<InterpAxis(ay, rows), InterpAxis(ax, cols)>>
               /\ UNCHANGED <<ay, ax, rows, cols, fy, fx>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (FillY \/ FillX \/ Interpolate)
Spec == Init /\ [][Next]_vars

(* C02 *)
Sorted(t) == \A i \in 1..(Len(t) - 1) : t[i][1] < t[i + 1][1]
Increasing == Sorted(rows) /\ Sorted(cols)
(* the original ties are all there, untouched *)
TiesKept == /\ \A i \in 1..Len(ay.ties) : \E r \in 1..Len(rows) : rows[r] = <<ay.ties[i], Unit(i - 1)>>
            /\ \A i \in 1..Len(ax.ties) : \E r \in 1..Len(cols) : cols[r] = <<ax.ties[i], Unit(i - 1)>>
(* the state only depends on the set of directions filled: neither on the order nor on repetitions *)
HistoryFree == /\ rows = IF fy THEN Fill(ay, Raw(ay)) ELSE Raw(ay)
               /\ cols = IF fx THEN Fill(ax, Raw(ax)) ELSE Raw(ax)
FillReaches == fy => \A g \in 1..NChunks(ay) :
                  LET mine == {i \in 1..Len(rows) : InChunk(ay, g, rows[i][1])} IN
                  /\ \E i \in mine : rows[i][1] <= FirstLine(ay, g)
                  /\ \E i \in mine : rows[i][1] >= LastLine(ay, g)
AffineTies(t, a) == \A i \in 1..Len(t) : /\ Weight(t[i][2]) = One
                                          /\ Eval(t[i][2], [j \in DOMAIN t[i][2] |-> I(a.ties[j + 1])]) = I(t[i][1])
Affine == AffineTies(rows, ay) /\ AffineTies(cols, ax)
(* added ties only use ties of their chunk *)
FillLocal == \A i \in 1..Len(rows) : \A j \in DOMAIN rows[i][2] :
                ChunkOfTie(ay, rows[i][1]) = ChunkOfTie(ay, ay.ties[j + 1])
(* C01, C02 on results *)
OutAffine == out = <<>> \/ \A i \in 1..Len(ay.fine) :
                /\ Weight(out[1][i]) = One
                /\ Eval(out[1][i], [j \in DOMAIN out[1][i] |-> I(ay.ties[j + 1])]) = I(ay.fine[i])
OutTies == out = <<>> \/ \A i \in 1..Len(ay.fine) : \A j \in 1..Len(ay.ties) :
              ay.fine[i] = ay.ties[j] => out[1][i] = Unit(j - 1)
(* polynomials up to the order, when no border was added *)
OutPoly == (out = <<>> \/ fy) \/ \A e \in 0..ay.k : \A i \in 1..Len(ay.fine) :
              Eval(out[1][i], [j \in DOMAIN out[1][i] |-> I(Pow(ay.ties[j + 1], e))]) = I(Pow(ay.fine[i], e))
(* order one, filled: lines only use ties of their chunk *)
OutLocal == (out # <<>> /\ fy /\ ay.k = 1 /\ rows = Fill(ay, Raw(ay)) /\ out[1] = InterpAxis(ay, rows)) =>
               \A i \in 1..Len(ay.fine) : \A j \in DOMAIN out[1][i] :
                  ChunkOfTie(ay, ay.ties[j + 1]) = ChunkOfFine(ay, i)

----------------------------------------------------------------------------
(* Tables: requests are axes (ties and fine positions as integers) *)
Req == JsonDeserialize(IOEnv.REQ)
Combs(s) == [i \in 1..Len(s) |-> AsSeq(s[i])]
OpOf(a, ties) == IF Covers(ties, a.fine) /\ Solvable(ties, a.k) THEN Combs(InterpAxis(a, ties)) ELSE <<>>
Table(q) == [id |-> q.id,
             plain |-> OpOf(q, Raw(q)),
             filled |-> IF Fillable(q) THEN OpOf(q, Fill(q, Raw(q))) ELSE <<>>,
             npos |-> IF Fillable(q) THEN Len(Fill(q, Raw(q))) ELSE 0]
TableInit == /\ ay = <<>> /\ ax = <<>> /\ rows = <<>> /\ cols = <<>> /\ out = <<>> /\ fy = FALSE /\ fx = FALSE /\ steps = 0
TableNext == UNCHANGED vars
Tables == \A q \in 1..Len(Req) : PrintT("@@" \o ToJson(Table(Req[q])))

(* Histories of the lifecycle, for replay *)
CONSTANT HistLen
Ops == {"fy", "fx", "fyx", "fxy", "i"}
HistInit == /\ ay = <<>> /\ ax = <<>> /\ rows = <<>> /\ cols = <<>> /\ out = <<>> /\ fy = FALSE /\ fx = FALSE /\ steps = 0
HistNext == /\ Len(out) < HistLen
            /\ \E o \in Ops : /\ out' = Append(out, o)
                              /\ fy' = (fy \/ o \in {"fy", "fyx", "fxy"})
                              /\ fx' = (fx \/ o \in {"fx", "fyx", "fxy"})
                              /\ rows' = IF o = "i" THEN Append(rows, <<fy, fx>>) ELSE rows
            /\ UNCHANGED <<ay, ax, cols, steps>>
HistEmit == (Len(out) > 0 /\ out[Len(out)] = "i") => PrintT("@@" \o ToJson([hist |-> out, seen |-> rows]))
=============================================================================
