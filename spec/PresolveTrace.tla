---------------------------- MODULE PresolveTrace ----------------------------
(* C02.  One record: an instance, and the model the search works on after      *)
(* preprocessing (variable bounds, fixed values, dependent variables defined   *)
(* by expressions of others, remaining constraints, objective).  The reduced   *)
(* model must be a faithful surrogate:                                         *)
(*   Sound    every point it admits is feasible for the instance and carries   *)
(*            the instance's objective value;                                  *)
(*   Complete when the instance is feasible, a point it admits attains the     *)
(*            optimum of the instance;                                         *)
(* an abort is only allowed when the instance has no feasible point.  After a  *)
(* solve (bounds may have been tightened with the incumbent) every feasible    *)
(* point better than the reported incumbent is still admitted in objective.    *)
EXTENDS ILP, Episodes

VARIABLES ep, l
vars == <<ep, l>>

\* value of a dependent variable: integer part of its expression (scaled)
Trunc(v, sc) == IF v >= 0 THEN v \div sc ELSE -((-v) \div sc)

FreeDom(v) == IF v.t = "fixed" THEN {v.val} ELSE IF v.t = "dep" THEN {0} ELSE v.lb..v.ub

\* resolve dependent variables; rounds bounds the depth of the definitions
RECURSIVE Resolve(_, _, _)
Resolve(R, x, rounds) ==
    LET y == [i \in 1..Len(x) |-> IF R.v[i].t = "dep"
                                  THEN Trunc(Dot(R.v[i].a, x) + R.v[i].b, R.sc) ELSE x[i]]
    IN IF rounds = 0 \/ y = x THEN y ELSE Resolve(R, y, rounds - 1)

DepsOf(R, i) == {j \in 1..R.I.n : R.v[i].t = "dep" /\ R.v[i].a[j] # 0}
\* definitions are integral at x
Integral(R, x) == \A i \in 1..R.I.n : R.v[i].t = "dep" => (Dot(R.v[i].a, x) + R.v[i].b) % R.sc = 0

Admitted(R) ==
    LET n == R.I.n
        P == Points([i \in 1..n |-> FreeDom(R.v[i])], n)
        Q == IF \E i \in 1..n : R.v[i].t = "dep" THEN {Resolve(R, x, n + 1) : x \in P} ELSE P
    IN {x \in Q : /\ \A i \in 1..n : R.v[i].t = "dep" => (R.v[i].lb <= x[i] /\ x[i] <= R.v[i].ub)
                  /\ \A k \in 1..Len(R.rc) : ConSat(R.rc[k], x)}

\* "" when the record conforms, otherwise the reason
Verdict(R) ==
    IF R.out = "crash" THEN "crash: " \o R.what
    ELSE IF R.skip THEN ""
    ELSE LET F == FeasSet(R.I)
             Objs(S) == {Obj(R.I, x) : x \in S}
         IN IF R.out = "exc" THEN (IF F = {} THEN "" ELSE "aborted although a feasible point exists: " \o R.what)
            ELSE LET A == Admitted(R)
                     AF == {x \in A : Feasible(R.I, x)}
                 IN IF ~R.solve /\ AF # A THEN "an admitted point is not feasible for the instance"
                    ELSE IF \E x \in AF : Dot(R.ro.a, x) + R.ro.b # R.scr * Obj(R.I, x)
                         THEN "objective changed"
                    ELSE IF F = {} THEN ""
                    ELSE LET best == BestOf(R.I.sense, Objs(F))
                         IN IF R.solve /\ R.incok = 1
                            THEN IF Better(R.I.sense, best, R.inc) /\ best \notin Objs(AF)
                                 THEN "an improving optimum is cut off" ELSE ""
                            ELSE IF best \notin Objs(AF) THEN "the optimum is cut off" ELSE ""

Init == ep \in 1..NEps /\ l = 0
Check == /\ l = 0
         /\ LET w == Verdict(Eps[ep]) IN IF w = "" THEN TRUE ELSE Reject(ep, 0, w)
         /\ l' = 1 /\ UNCHANGED ep
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
