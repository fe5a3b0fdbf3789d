----------------------------- MODULE ClassTrace -----------------------------
(* C14.  The classes of linear constraints.  Every class has a definition in    *)
(* terms of coefficients, sense, constant and the kinds of its variables; a    *)
(* constraint belongs to the first class of the list whose definition it meets,*)
(* and some classes mark one of the variables.  Numbers are scaled by 4.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Episodes

VARIABLES ep, l
vars == <<ep, l>>
R == Eps[ep]
ONE == 4
Abs(q) == IF q < 0 THEN -q ELSE q

\* kinds of variables:  B binary, I integer, S member of a selection, DB/DI dependent
Bin(i) == R.v[i].s \in {"B", "S"}
BinD(i) == R.v[i].s \in {"B", "DB"}
IntD(i) == R.v[i].s \in {"I", "DI"}
Free(i) == ~R.v[i].fx

Sup(c) == {i \in 1..Len(R.v) : c.a[i] # 0}
Width(c) == Cardinality(Sup(c))
NoneFixed(c) == \A i \in Sup(c) : Free(i)
Unit(c, i) == Abs(c.a[i]) = ONE
Plus(c) == {i \in Sup(c) : c.a[i] = ONE}
Minus(c) == {i \in Sup(c) : c.a[i] = -ONE}
Whole(q) == q % ONE = 0
Integral(c) == Whole(c.b) /\ \A i \in Sup(c) : Whole(c.a[i])
Pos(c) == \A i \in Sup(c) : c.a[i] > 0
Neg(c) == \A i \in Sup(c) : c.a[i] < 0
Equal(c) == c.s = 0
Less(c) == c.s = -1
Greater(c) == c.s = 1

\* two variables, equation
Pair(c) == Width(c) = 2 /\ Equal(c) /\ NoneFixed(c)
SameUnits(c) == (\A i \in Sup(c) : c.a[i] = ONE) \/ (\A i \in Sup(c) : c.a[i] = -ONE)
OppUnits(c) == Cardinality(Plus(c)) = 1 /\ Cardinality(Minus(c)) = 1
PairB(c) == Pair(c) /\ \A i \in Sup(c) : BinD(i)
PairI(c) == Pair(c) /\ \A i \in Sup(c) : IntD(i)
OneUnit(c) == Cardinality({i \in Sup(c) : Unit(c, i)}) = 1
\* two variables, inequality
PairIneq(c) == Width(c) = 2 /\ ~Equal(c) /\ NoneFixed(c)
Opposite(c) == \E i, j \in Sup(c) : i # j /\ c.a[i] = -c.a[j]
SameKind(c) == \A i, j \in Sup(c) : R.v[i].s = R.v[j].s
\* x + y = 2 z
Tri(c) == /\ Width(c) = 3 /\ Equal(c) /\ c.b = 0 /\ NoneFixed(c) /\ \A i \in Sup(c) : BinD(i)
          /\ \E z \in Sup(c) : Abs(c.a[z]) = 2 * ONE /\ \A i \in Sup(c) \ {z} : 2 * c.a[i] = -c.a[z]
\* all coefficients one, all variables binary
Set(c) == \A i \in Sup(c) : c.a[i] = ONE /\ Bin(i)
\* all coefficients plus or minus one
Flow(c) == Equal(c) /\ \A i \in Sup(c) : Unit(c, i)
BFlow(c) == Flow(c) /\ \A i \in Sup(c) : Bin(i)
\* a single free variable on one side of the other terms
Lone(S) == IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0
SoftKey(c) == IF c.b # 0 THEN 0
              ELSE IF Cardinality(Plus(c)) = 1 /\ Minus(c) # {} /\ Free(Lone(Plus(c))) THEN Lone(Plus(c))
              ELSE IF Cardinality(Minus(c)) = 1 /\ Plus(c) # {} /\ Free(Lone(Minus(c))) THEN Lone(Minus(c)) ELSE 0
\* free integer variables of coefficient plus / minus one
PI(c) == {i \in Plus(c) : IntD(i) /\ Free(i)}
MI(c) == {i \in Minus(c) : IntD(i) /\ Free(i)}
Only(A, B) == Cardinality(A) = 1 /\ B = {}
Intermediate(c) == Equal(c) /\ (Cardinality(MI(c)) = 1) # (Cardinality(PI(c)) = 1)
AllBin(c) == \A i \in Sup(c) : Bin(i)
Knap(c) == (Pos(c) /\ Less(c)) \/ (Neg(c) /\ Greater(c))
\* parity equations:  sum of +-x_i  (+- 1)  =  2 z, z able to take every value needed
Two(c) == {i \in Sup(c) : Abs(c.a[i]) = 2 * ONE /\ R.v[i].s \in {"I", "B"}}
RECURSIVE Hi(_, _, _), Lo(_, _, _)
Hi(c, S, g) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN (IF g * c.a[i] > 0 THEN g * c.a[i] ELSE 0) + Hi(c, S \ {i}, g)
Lo(c, S, g) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN (IF g * c.a[i] < 0 THEN g * c.a[i] ELSE 0) + Lo(c, S \ {i}, g)
CeilHalf(q) == -((-q) \div 2)
Parity(c) ==
    /\ Equal(c) /\ c.b \in {0, ONE, -ONE} /\ NoneFixed(c)
    /\ Cardinality(Two(c)) = 1
    /\ LET z == CHOOSE i \in Two(c) : TRUE
           rest == Sup(c) \ {z}
           g == IF c.a[z] > 0 THEN -1 ELSE 1          \* 2 z = g * (rest + constant)
       IN /\ \A i \in rest : R.v[i].s = "B" /\ Unit(c, i)
          /\ R.v[z].nlb \/ R.v[z].lb <= CeilHalf((Lo(c, rest, g) + g * c.b) \div ONE)
          /\ R.v[z].nub \/ R.v[z].ub >= (((Hi(c, rest, g) + g * c.b) \div ONE) \div 2)

First(S) == CHOOSE i \in S : \A j \in S : R.v[i].nm <= R.v[j].nm
\* class and marked variable (0: none)
Class(c) ==
    CASE Width(c) = 1 -> <<"Singleton", 0>>
      [] PairB(c) /\ SameUnits(c) /\ (\A i \in Sup(c) : c.a[i] = -c.b) -> <<"XOR", First(Sup(c))>>
      [] PairB(c) /\ OppUnits(c) /\ c.b = 0 -> <<"XNOR", First(Sup(c))>>
      [] PairI(c) /\ SameUnits(c) -> <<IF c.b = 0 THEN "Inverted" ELSE "ConstSum", First(Sup(c))>>
      [] PairI(c) /\ OppUnits(c) -> <<IF c.b = 0 THEN "Balanced" ELSE "ConstDiff", First(Sup(c))>>
      [] PairI(c) /\ OneUnit(c) /\ c.b = 0 -> <<"ConstRatio", Lone({i \in Sup(c) : Unit(c, i)})>>
      [] PairI(c) /\ OneUnit(c) /\ Integral(c) -> <<"Intermediate", Lone({i \in Sup(c) : Unit(c, i)})>>
      [] Pair(c) -> <<"Aggregation", 0>>
      [] PairIneq(c) /\ Opposite(c) /\ SameKind(c) -> <<"Precedence", 0>>
      [] PairIneq(c) -> <<"VariableBound", 0>>
      [] Tri(c) -> <<"TriXNOR", CHOOSE z \in Sup(c) : Abs(c.a[z]) = 2 * ONE>>
      [] Set(c) /\ c.b = -ONE -> <<IF Equal(c) THEN "SetPartitioning" ELSE IF Less(c) THEN "SetPacking" ELSE "SetCovering", 0>>
      [] Set(c) /\ c.b <= -2 * ONE -> <<IF Equal(c) THEN "Cardinality" ELSE IF Less(c) THEN "InvKnapsack" ELSE "MultiCovering", 0>>
      [] BFlow(c) -> (IF SoftKey(c) # 0 THEN <<"SoftSelection", SoftKey(c)>> ELSE <<"BinaryFlow", 0>>)
      [] Flow(c) /\ (\A i \in Sup(c) : R.v[i].s = "I") /\ Cardinality(Plus(c)) > 1 /\ Cardinality(Minus(c)) > 1 -> <<"IntegerFlow", 0>>
      [] Integral(c) /\ Less(c) /\ Only(MI(c), PI(c)) -> <<"MinMax", Lone(MI(c))>>
      [] Integral(c) /\ Greater(c) /\ Only(PI(c), MI(c)) -> <<"MinMax", Lone(PI(c))>>
      [] Integral(c) /\ Greater(c) /\ Only(MI(c), PI(c)) -> <<"MaxMin", Lone(MI(c))>>
      [] Integral(c) /\ Less(c) /\ Only(PI(c), MI(c)) -> <<"MaxMin", Lone(PI(c))>>
      [] Integral(c) /\ Intermediate(c) -> <<"Intermediate", IF Cardinality(MI(c)) = 1 THEN Lone(MI(c)) ELSE Lone(PI(c))>>
      [] AllBin(c) /\ Equal(c) /\ (Pos(c) \/ Neg(c)) -> <<"EqKnapsack", 0>>
      [] AllBin(c) /\ Knap(c) /\ (\E i \in Sup(c) : c.a[i] = -c.b) -> <<"BinPacking", 0>>
      [] AllBin(c) /\ Knap(c) -> <<"Knapsack", 0>>
      [] ~AllBin(c) /\ Knap(c) -> <<"IntKnapsack", 0>>
      [] Parity(c) -> <<"GF2", CHOOSE i \in Two(c) : TRUE>>
      [] OTHER -> <<"General", 0>>

B2I(b) == IF b THEN 1 ELSE 0
Verdict(c) ==
    LET k == Class(c)
    IN IF c.f # <<k[1]>> THEN "a constraint is given the wrong class"
       ELSE IF c.g # <<k[1]>> THEN "a constraint is not in exactly the group of its class"
       ELSE IF c.key # k[2] THEN "the wrong variable is marked"
       ELSE IF c.all # 1 \/ c.en1 # B2I(c.en) \/ c.en0 # B2I(~c.en) THEN "the lists of constraints are wrong"
       ELSE IF c.le # B2I(c.en /\ Less(c)) \/ c.eq # B2I(c.en /\ Equal(c)) \/ c.ge # B2I(c.en /\ Greater(c)) THEN "the lists by sense are wrong"
       ELSE IF c.int # Integral(c) THEN "integrality of a constraint is wrong"
       ELSE IF \/ \E i \in Sup(c) : Abs(c.a[i]) > c.mx
               \/ c.mx # 0 /\ \A i \in Sup(c) : Abs(c.a[i]) # c.mx THEN "the largest coefficient is wrong"
       ELSE ""

Init == ep \in 1..NEps /\ l = 0
Next == \/ /\ l >= 0 /\ l < Len(R.c) /\ R.kind = "ok"
           /\ l' = (IF Verdict(R.c[l + 1]) = "" THEN l + 1 ELSE IF Reject(ep, l, Verdict(R.c[l + 1])) THEN -1 ELSE -1)
           /\ UNCHANGED ep
        \/ /\ l = 0 /\ R.kind = "crash" /\ Reject(ep, 0, "crash: " \o R.what) /\ l' = -1 /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
=============================================================================
