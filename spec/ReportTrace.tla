----------------------------- MODULE ReportTrace -----------------------------
(* C01, C21.  What the user is told after a solve, in every form it is told:   *)
(* the solution object, the solution files (by name, by array, plain), the     *)
(* stored feasible solutions and the status file.  Every claim must be true of *)
(* the instance the user posed:                                                *)
(*   - the values respect bounds and user-fixed values (when preprocessing     *)
(*     turned the bound of a substituted variable into a constraint, "added",  *)
(*     an infeasible report may break it like any other constraint);           *)
(*   - "feasible" is claimed exactly when the values satisfy every constraint; *)
(*   - objective, expression, constraint and violation values are those of the *)
(*     values listed;                                                          *)
(*   - all forms tell the same story;                                          *)
(*   - giving up without an answer is allowed only for an infeasible instance. *)
EXTENDS ILP, Episodes

VARIABLES ep, l
vars == <<ep, l>>

Values(R) == {q \in 1..Len(R.reps) : R.reps[q].src \in {"api", "byname", "byarray", "sol", "arc"}}
Full(R)   == {q \in 1..Len(R.reps) : R.reps[q].src \in {"api", "byname", "byarray"}}
Main(R)   == {q \in 1..Len(R.reps) : R.reps[q].src \in {"api", "byname", "byarray", "sol"}}
Counted(R) == {q \in 1..Len(R.reps) : R.reps[q].src \in {"api", "byname", "byarray", "status"}}

One(R, p) ==
    LET I == R.I IN
    IF p.bad # "" THEN p.bad
    ELSE IF p.src = "status" THEN ""
    ELSE IF Len(p.x) # I.n THEN p.src \o ": not all variables listed"
    ELSE IF (p.feas \/ ~R.added) /\ ~InBounds(I, p.x) THEN p.src \o ": a value is outside its bounds"
    ELSE IF ~RespectsFix(I, p.x) THEN p.src \o ": a fixed variable changed"
    ELSE IF p.feas # Feasible(I, p.x) THEN p.src \o ": feasibility claim is wrong"
    ELSE IF p.src = "sol" /\ ~p.feas THEN ""
    ELSE IF p.obj # Obj(I, p.x) THEN p.src \o ": objective value is wrong"
    ELSE IF p.src = "sol" THEN ""
    ELSE IF (p.viol = 0) # Feasible(I, p.x) THEN p.src \o ": total violation is wrong"
    ELSE IF p.src = "arc" THEN (IF p.feas THEN "" ELSE "arc: an infeasible solution is stored")
    ELSE IF ~R.added /\ p.viol # TotalViol(I, p.x) THEN p.src \o ": total violation is not the sum"
    ELSE IF \E k \in 1..Len(I.c) : p.cv[k] # ConVal(I.c[k], p.x) THEN p.src \o ": a constraint value is wrong"
    ELSE IF \E k \in 1..Len(I.c) : p.vv[k] # Viol(I.c[k].s, ConVal(I.c[k], p.x)) THEN p.src \o ": a violation is wrong"
    ELSE IF Len(p.ev) # Len(R.E) THEN p.src \o ": an expression is missing"
    ELSE IF \E k \in 1..Len(R.E) : p.ev[k] # Dot(R.E[k].a, p.x) + R.E[k].b THEN p.src \o ": an expression value is wrong"
    ELSE ""

FirstBad(R) == LET B == {q \in 1..Len(R.reps) : One(R, R.reps[q]) # ""}
               IN IF B = {} THEN "" ELSE One(R, R.reps[CHOOSE q \in B : \A s \in B : q <= s])

Verdict(R) ==
    IF R.out = "crash" THEN "crash: " \o R.what
    ELSE IF R.out = "exc" THEN
         IF Feasible(R.I, R.I.wit) THEN "gave up although a feasible point exists: " \o R.what
         ELSE IF R.small /\ FeasSet(R.I) # {} THEN "gave up although a feasible point exists: " \o R.what
         ELSE ""
    ELSE IF FirstBad(R) # "" THEN FirstBad(R)
    ELSE IF Main(R) = {} THEN "nothing was reported"
    ELSE IF Cardinality({R.reps[q].x : q \in Main(R)}) # 1 THEN "the reports list different solutions"
    ELSE IF Cardinality({R.reps[q].feas : q \in Main(R) \cup Counted(R)}) # 1 THEN "the reports disagree on feasibility"
    ELSE IF \E q \in Counted(R) : R.reps[q].nv # R.I.n THEN "number of variables is wrong"
    ELSE IF \E q \in Counted(R) : R.reps[q].nc < Len(R.I.c) THEN "number of constraints is wrong"
    ELSE IF ~R.added /\ \E q \in Counted(R) : R.reps[q].nc # Len(R.I.c) THEN "number of constraints is wrong"
    ELSE IF \E q \in 1..Len(R.reps), m \in Main(R) :
               /\ R.reps[q].src = "arc" /\ R.reps[m].src # "sol"
               /\ (~R.reps[m].feas \/ Better(R.I.sense, R.reps[q].obj, R.reps[m].obj))
         THEN "a stored solution is better than the reported one"
    ELSE ""

Init == ep \in 1..NEps /\ l = 0
Check == /\ l = 0
         /\ LET w == Verdict(Eps[ep]) IN IF w = "" THEN TRUE ELSE Reject(ep, 0, w)
         /\ l' = 1 /\ UNCHANGED ep
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
