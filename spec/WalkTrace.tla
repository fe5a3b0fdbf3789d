------------------------------ MODULE WalkTrace ------------------------------
(* C03, C04, C08, C22.  Histories of moves on a preprocessed model.            *)
(*                                                                             *)
(* State of the specification: the point x.  A step applies one candidate      *)
(* move to x (Apply).  Everything the search believes about x is a function    *)
(* of x and of the reduced model (constraints R.rc, objective R.ro, selection  *)
(* groups R.sels); the record must agree with that function at every step:     *)
(*   score   objective, violation, penalties and feasibility of a candidate,   *)
(*           as computed incrementally and as computed from scratch;           *)
(*   state   values, constraint values, violated set, objective after update;  *)
(*   legal   what a candidate may alter;                                       *)
(*   screen  no candidate which improves is hidden by improvability screening. *)
EXTENDS ILP, Episodes

CONSTANT Aspect      \* "score" | "state" | "legal" | "screen"

VARIABLES ep, l, x
vars == <<ep, l, x>>

R == Eps[ep]
E0 == R.ev[1]

Apply(a, p) == [i \in 1..Len(p) |->
    IF \E k \in 1..Len(a) : a[k][1] = i
    THEN a[CHOOSE k \in 1..Len(a) : a[k][1] = i][2] ELSE p[i]]

RcVals(p) == [k \in 1..Len(R.rc) |-> ConVal(R.rc[k], p)]
V(k, v) == Viol(R.rc[k].s, v)
RECURSIVE TV(_, _)
TV(vals, k) == IF k = 0 THEN 0 ELSE V(k, vals[k]) + TV(vals, k - 1)
\* a positive value of an equality is penalised like <=, a negative one like >=
Coef(k, v) == IF v > 0 THEN E0.lcl[k] ELSE E0.lcg[k]
RECURSIVE LP(_, _)
LP(vals, k) == IF k = 0 THEN 0 ELSE Coef(k, vals[k]) * V(k, vals[k]) + LP(vals, k - 1)
ObjMin(p) == R.sense * (Dot(R.ro.a, p) + R.ro.b)

Score(p) ==
    LET vals == RcVals(p)
        m == Len(R.rc)
        tv == TV(vals, m)
        lp == LP(vals, m)
        o == ObjMin(p)
    IN [o |-> o, v |-> tv, f |-> (tv = 0), lp |-> lp, gp |-> E0.gc * tv, la |-> o + lp, ga |-> o + E0.gc * tv]

Core(s) == [o |-> s.o, v |-> s.v, f |-> s.f, lp |-> s.lp, gp |-> s.gp, la |-> s.la, ga |-> s.ga]

ObjImproves(p, q) == ObjMin(q) < ObjMin(p)
FeasImproves(p, q) ==      \* the violation of some constraint decreases
    LET u == RcVals(p) w == RcVals(q)
    IN \E k \in 1..Len(R.rc) : V(k, w[k]) < V(k, u[k])

------------------------------------------------------------------------------
Altered(a) == {a[k][1] : k \in 1..Len(a)}
SumOver(g, p) == LET RECURSIVE S(_)
                     S(k) == IF k = 0 THEN 0 ELSE p[g[k]] + S(k - 1)
                 IN S(Len(g))
SelOK(p) == \A s \in 1..Len(R.sels) :
              /\ SumOver(R.sels[s], p) = 1
              /\ \A k \in 1..Len(R.sels[s]) : p[R.sels[s][k]] \in {0, 1}
Support(c) == {i \in 1..Len(c.a) : c.a[i] # 0}

\* kinds which exist to keep a constraint over exactly their variables satisfied
ExactKinds == {"ExclusiveOr", "ExclusiveNor", "InvertedIntegers", "BalancedIntegers", "ConstantSumIntegers",
               "ConstantDifferenceIntegers", "ConstantRatioIntegers", "TrinomialExclusiveNor", "VariableBound"}
\* aggregations with non-unit coefficients are only kept up to rounding of one variable
AggregationKept(c, q) == \E i \in Support(c) : Abs(ConVal(c, q)) < Abs(c.a[i])
\* a relation which no integer assignment satisfies cannot be kept
Unreachable(c) == c.s = 0 /\ c.b % R.sc # 0 /\ \A i \in Support(c) : c.a[i] % R.sc = 0
KeepsStructure(c, p, q) ==
    LET over == {k \in 1..Len(R.rc) : Support(R.rc[k]) # {} /\ Support(R.rc[k]) \subseteq Altered(c.a)}
    IN /\ c.k \in ExactKinds => \E k \in over : ConSat(R.rc[k], q) \/ Unreachable(R.rc[k])
       /\ c.k = "Aggregation" => \E k \in over : AggregationKept(R.rc[k], q)
       /\ c.k = "Precedence" => /\ over # {}     \* both variables move together
                                /\ \E d \in {-1, 1} : \A i \in Altered(c.a) : q[i] = p[i] + d

LegalVerdict(c, p) ==
    LET q == Apply(c.a, p)
    IN IF \E k \in 1..Len(c.a) : c.a[k][1] = 0 THEN "a move alters an unknown variable"
       ELSE IF Cardinality(Altered(c.a)) # Len(c.a) \/ Len(c.a) = 0 THEN "a move alters a variable twice"
       ELSE IF \E i \in Altered(c.a) : E0.fx[i] = 1 THEN "a move alters a fixed variable"
       ELSE IF c.k # "TwoFlip" /\ \E i \in Altered(c.a) : R.v[i].t = "dep" THEN "a move alters a dependent variable"
       ELSE IF \E i \in Altered(c.a) : q[i] < E0.lb[i] \/ q[i] > E0.ub[i] THEN "a move leaves the bounds"
       ELSE IF q = p THEN "a move changes nothing"
       ELSE IF ~SelOK(q) THEN "a move breaks a selection"
       ELSE IF ~KeepsStructure(c, p, q) THEN "a compound move breaks the relation it exists to keep"
       ELSE ""

ScoreVerdict(c, p) ==
    LET q == Apply(c.a, p)
        t == Score(q)
        oi == ObjImproves(p, q)
        fi == FeasImproves(p, q)
    IN IF Core(c.s) # t THEN "incremental score differs from the model"
       ELSE IF Core(c.w) # t THEN "score from scratch differs from the model"
       ELSE IF c.s.oi # oi \/ c.w.oi # oi THEN "objective improvability of a score is wrong"
       ELSE IF fi /\ (~c.w.fi \/ ~c.s.fi) THEN "feasibility improvability of a score is wrong"
       ELSE ""

ScreenVerdict(c, p, e) ==
    LET q == Apply(c.a, p)
    IN IF e.scr /\ ~c.kept /\ (ObjImproves(p, q) \/ FeasImproves(p, q)) THEN "an improving move is hidden by screening"
       ELSE ""

CandVerdict(c, p, e) ==
    CASE Aspect = "score" -> ScoreVerdict(c, p)
      [] Aspect = "legal" -> LegalVerdict(c, p)
      [] Aspect = "screen" -> ScreenVerdict(c, p, e)
      [] OTHER -> ""

\* model state e recorded at the point p
Range(s) == {s[k] : k \in 1..Len(s)}
StateVerdict(e, p) ==
    IF Aspect \notin {"state", "legal"} THEN ""
    ELSE IF Aspect = "legal" THEN
        IF ~SelOK(p) THEN "a selection does not choose exactly one variable"
        ELSE IF \E s \in 1..Len(R.sels) : e.selv[s] \notin Range(R.sels[s]) \/ p[e.selv[s]] # 1 THEN "the selected variable of a selection is not the one that is set"
        ELSE IF \E i \in 1..Len(p) : R.v[i].t # "dep" /\ (p[i] < E0.lb[i] \/ p[i] > E0.ub[i]) THEN "a variable left its bounds"
        ELSE ""
    ELSE LET vals == RcVals(p)
             t == Score(p)
             viol == {k \in 1..Len(R.rc) : V(k, vals[k]) # 0}
         IN IF \E i \in 1..Len(p) : R.v[i].t # "dep" /\ e.x[i] # p[i] THEN "values differ from the applied moves"
            ELSE IF e.cv # vals THEN "constraint values are stale"
            ELSE IF Range(e.vio) # viol \/ Len(e.vio) # Cardinality(viol) THEN "violated constraints are stale"
            ELSE IF e.feas # (viol = {}) THEN "feasibility is stale"
            ELSE IF e.mo # R.sense * t.o THEN "objective value is stale"
            ELSE IF Core(e.st) # t THEN "score of the current solution is stale"
            ELSE ""

FirstBad(e, p) ==
    LET bad == {k \in 1..Len(e.cand) : CandVerdict(e.cand[k], p, e) # ""}
    IN IF bad = {} THEN "" ELSE
       LET k == CHOOSE k \in bad : \A j \in bad : k <= j
       IN CandVerdict(e.cand[k], p, e) \o " (" \o e.cand[k].k \o ")"

------------------------------------------------------------------------------
Init == ep \in 1..NEps /\ l = 0 /\ x = << >>

Start == /\ l = 0 /\ Len(R.ev) > 0
         /\ x' = E0.x
         /\ LET w == StateVerdict(E0, E0.x)
            IN IF w = "" THEN l' = 1 ELSE Reject(ep, 0, w) /\ l' = -1
         /\ UNCHANGED ep

Empty == /\ l = 0 /\ Len(R.ev) = 0
         /\ R.out = "crash" /\ Reject(ep, 0, "crash: " \o R.what)
         /\ l' = -1 /\ UNCHANGED <<ep, x>>

Step == /\ l >= 1 /\ l < Len(R.ev)
        /\ LET e == R.ev[l + 1]
               y == Apply(e.cand[e.pick].a, x)
               w1 == FirstBad(e, x)
               w == IF w1 # "" THEN w1 ELSE StateVerdict(e, y)
           IN /\ x' = y
              /\ IF w = "" THEN l' = l + 1 ELSE Reject(ep, l, w) /\ l' = -1
        /\ UNCHANGED ep

Next == Start \/ Empty \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
