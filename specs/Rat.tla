-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic and sparse linear combinations.               *)
(* A rational is a normalised pair <<n, d>> with d > 0 and gcd(n, d) = 1,  *)
(* so that equality of values is equality of pairs.  A combination is a    *)
(* function from a finite set of tie point indices to non zero rationals:  *)
(* the value  SUM_i c[i] * T[i]  of a fine pixel in terms of the (unknown, *)
(* arbitrary) tie point values T.  All the properties about positions and  *)
(* weights are therefore checked for every tie point data at once.         *)
EXTENDS Integers, Sequences, FiniteSets

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Q(n, d) == LET g == Gcd(AbsI(n), AbsI(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN  <<s * (n \div g), s * (d \div g)>>
Zero == <<0, 1>>
One == <<1, 1>>
I(n) == <<n, 1>>
Neg(a) == <<-a[1], a[2]>>
Add(a, b) == LET g == Gcd(a[2], b[2])
             IN  Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET g == Gcd(AbsI(a[1]), b[2])
                 h == Gcd(AbsI(b[1]), a[2])
             IN  Q((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
Inv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
Floor(a) == a[1] \div a[2]
IsRat(a) == a[2] > 0 /\ Gcd(AbsI(a[1]), a[2]) = 1

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN Zero
                 ELSE LET x == CHOOSE x \in S : TRUE
                      IN  Add(f[x], SumOver(f, S \ {x}))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))

----------------------------------------------------------------------------
(* Sparse combinations *)
At(c, i) == IF i \in DOMAIN c THEN c[i] ELSE Zero
Prune(c) == [i \in {j \in DOMAIN c : c[j] # Zero} |-> c[i]]
Unit(i) == [j \in {i} |-> One]
CAdd(a, b) == Prune([i \in DOMAIN a \cup DOMAIN b |-> Add(At(a, i), At(b, i))])
CScale(k, a) == Prune([i \in DOMAIN a |-> Mul(k, a[i])])
CSub(a, b) == CAdd(a, CScale(I(-1), b))
(* (1 - w) * a + w * b *)
CLerp(a, b, w) == CAdd(CScale(Sub(One, w), a), CScale(w, b))
Weight(c) == SumOver(c, DOMAIN c)
(* value of the combination when tie i holds pos[i] *)
Eval(c, pos) == SumOver([i \in DOMAIN c |-> Mul(c[i], pos[i])], DOMAIN c)
Shift(c, k) == [i \in {j + k : j \in DOMAIN c} |-> c[i - k]]

(* Linear interpolation between the ties cell and cell+1, w may be outside [0, 1] *)
Cell(cell, w) == CLerp(Unit(cell), Unit(cell + 1), w)

(* JSON friendly form: a sequence of <<index, numerator, denominator>> *)
RECURSIVE AsSeq(_)
AsSeq(c) == IF DOMAIN c = {} THEN <<>>
            ELSE LET m == CHOOSE i \in DOMAIN c : \A j \in DOMAIN c : i <= j
                 IN  <<<<m, c[m][1], c[m][2]>>>> \o AsSeq([j \in DOMAIN c \ {m} |-> c[j]])
=============================================================================
