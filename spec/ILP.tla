-------------------------------- MODULE ILP --------------------------------
(* Integer linear programs and their meaning: the ground truth for every    *)
(* other module.  All rational data are scaled to integers by the harness   *)
(* (coefficients are multiples of 1/4 or 1/10), variables are integers.     *)
EXTENDS Integers, Sequences, FiniteSets

NoFix == -999999     \* "not fixed by the user"

RECURSIVE DotTo(_, _, _)
DotTo(a, x, k) == IF k = 0 THEN 0
                  ELSE IF a[k] = 0 THEN DotTo(a, x, k - 1)
                  ELSE a[k] * x[k] + DotTo(a, x, k - 1)
Dot(a, x) == DotTo(a, x, Len(a))

\* value of a constraint  a.x + b  (sense)  0
ConVal(c, x) == Dot(c.a, x) + c.b

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a

\* violation of a constraint with sense s and value v
Viol(s, v) == IF s = 0 THEN Abs(v) ELSE IF s < 0 THEN Max2(v, 0) ELSE Max2(-v, 0)

ConSat(c, x) == Viol(c.s, ConVal(c, x)) = 0
AllSat(I, x) == \A k \in 1..Len(I.c) : ConSat(I.c[k], x)
Obj(I, x) == Dot(I.o, x) + I.oc

InBounds(I, x) == \A i \in 1..I.n : I.lb[i] <= x[i] /\ x[i] <= I.ub[i]
RespectsFix(I, x) == \A i \in 1..I.n : I.fix[i] # NoFix => x[i] = I.fix[i]
Feasible(I, x) == InBounds(I, x) /\ RespectsFix(I, x) /\ AllSat(I, x)

RECURSIVE SumViol(_, _, _)
SumViol(c, x, k) == IF k = 0 THEN 0 ELSE Viol(c[k].s, ConVal(c[k], x)) + SumViol(c, x, k - 1)
TotalViol(I, x) == SumViol(I.c, x, Len(I.c))

\* all integer points of a box, as sequences; D[k] is the domain of variable k
RECURSIVE Points(_, _)
Points(D, k) == IF k = 0 THEN {<< >>}
                ELSE {Append(p, v) : p \in Points(D, k - 1), v \in D[k]}

Dom(I, i) == IF I.fix[i] # NoFix THEN {I.fix[i]} \cap (I.lb[i]..I.ub[i]) ELSE I.lb[i]..I.ub[i]
FeasSet(I) == {x \in Points([i \in 1..I.n |-> Dom(I, i)], I.n) : AllSat(I, x)}

\* best (in the direction of the model) objective of a non-empty set of points
BestOf(sense, S) == IF sense > 0 THEN CHOOSE v \in S : \A w \in S : v <= w
                                 ELSE CHOOSE v \in S : \A w \in S : v >= w
Better(sense, v, w) == IF sense > 0 THEN v < w ELSE v > w
=============================================================================
