----------------------------- MODULE SearchTrace -----------------------------
(* C03, C04, C05, C06, C07, C09, C17-C20. A complete run of the solver, event by  *)
(* event.  The specification's state is                                        *)
(*   x     the point the search is at,                                         *)
(*   best  the best feasible point found so far (found, objective, point),     *)
(*   glob  the point with the least penalised objective found so far,          *)
(*   last  per variable, the iteration of its last alteration in this loop,    *)
(*   cnt   per variable, the number of its alterations in the whole run,       *)
(*   vcnt  per constraint, in how many updates it was violated,                *)
(*   run   bookkeeping of the loops: number of loops, moves of this loop, ...  *)
(*   seen  feasible points visited by moves (for the archive).                 *)
(* Each recorded event must be a step which the rules below allow.             *)
EXTENDS ILP, Episodes

CONSTANT Aspect   \* "score" "state" "incumbent" "archive" "limits" "dual" "tabu" "descent" "penalty" "switch"

VARIABLES ep, l, x, best, glob, last, cnt, vcnt, run, seen
vars == <<ep, l, x, best, glob, last, cnt, vcnt, run, seen>>

R == Eps[ep]
N == R.I.n
NEv == Len(R.ev)

Apply(a, p) == [i \in 1..Len(p) |->
    IF \E k \in 1..Len(a) : a[k][1] = i
    THEN a[CHOOSE k \in 1..Len(a) : a[k][1] = i][2] ELSE p[i]]
Altered(a) == {a[k][1] : k \in 1..Len(a)}
Range(s) == {s[k] : k \in 1..Len(s)}

RcVals(p) == [k \in 1..Len(R.rc) |-> ConVal(R.rc[k], p)]
V(k, v) == Viol(R.rc[k].s, v)
RECURSIVE TV(_, _)
TV(vals, k) == IF k = 0 THEN 0 ELSE V(k, vals[k]) + TV(vals, k - 1)
TotV(p) == TV(RcVals(p), Len(R.rc))
ObjMin(p) == R.sense * (Dot(R.ro.a, p) + R.ro.b)
Feas(p) == \A k \in 1..Len(R.rc) : V(k, ConVal(R.rc[k], p)) = 0
Violated(p) == {k \in 1..Len(R.rc) : V(k, ConVal(R.rc[k], p)) # 0}
\* penalised objective, in quarters; the coefficient is R.gc quarters (if it is a multiple)
GlobObj(p) == 4 * ObjMin(p) + R.gc * TotV(p)

\* equality of points up to dependent variables (they follow the others)
Same(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : R.v[i].t # "dep" => p[i] = q[i]

None == [f |-> FALSE, o |-> 0, x |-> << >>]
NoGlob == [f |-> FALSE, o |-> 0, x |-> << >>]

------------------------------------------------------------------------------
\* incumbents after visiting p
Visit(b, p) == IF Feas(p) /\ (~b.f \/ ObjMin(p) < b.o) THEN [f |-> TRUE, o |-> ObjMin(p), x |-> p] ELSE b
VisitG(g, p) == IF ~g.f \/ GlobObj(p) < g.o THEN [f |-> TRUE, o |-> GlobObj(p), x |-> p] ELSE g

\* the recorded incumbent, as a state of the specification
RecBest(inc) == IF inc.f THEN [f |-> TRUE, o |-> inc.fo, x |-> inc.fx] ELSE None

IncumbentValid(inc) ==
    IF ~inc.f THEN ""
    ELSE IF Len(inc.fx) # N THEN "the feasible incumbent has no values"
    ELSE IF ~Feasible(R.I, inc.fx) THEN "the feasible incumbent is not feasible"
    ELSE IF ~R.noobj /\ R.scr * Obj(R.I, inc.fx) # R.sense * inc.fo THEN "the objective of the feasible incumbent is not that of its point"
    ELSE ""

\* b: incumbent before, p: point of the event; slack: an unobserved point may have been visited too
IncumbentVerdict(e, b, g, p, slack) ==
    LET nb == Visit(b, p)
        ng == VisitG(g, p)
    IN IF e.inc.f # nb.f /\ ~slack THEN "a feasible point was found but is not held, or the reverse"
       ELSE IF nb.f /\ ~e.inc.f THEN "the feasible incumbent was lost"
       ELSE IF nb.f /\ e.inc.fo > nb.o THEN "the feasible incumbent is worse than a point visited"
       ELSE IF ~slack /\ nb.f /\ e.inc.fo # nb.o THEN "the objective of the feasible incumbent was never visited"
       ELSE IF nb.f /\ e.inc.fo = nb.o /\ ~Same(e.inc.fx, nb.x) /\ ~slack THEN "the feasible incumbent is not the best point visited"
       ELSE IF ~R.gok THEN IncumbentValid(e.inc)
       ELSE IF e.inc.gos > ng.o THEN "the penalised incumbent is worse than a point visited"
       ELSE IF ~slack /\ (e.inc.gos # ng.o \/ ~Same(e.inc.gx, ng.x)) THEN "the penalised incumbent is not the best point visited"
       ELSE IF GlobObj(e.inc.gx) # e.inc.gos THEN "the penalised incumbent objective is not that of its point"
       ELSE IncumbentValid(e.inc)

------------------------------------------------------------------------------
\* state of the model after an event
StateVerdict(e, p) ==
    LET vals == RcVals(p)
        viol == Violated(p)
    IN IF ~Same(e.x, p) THEN "values differ from the applied moves"
       ELSE IF e.cv # vals THEN "constraint values are stale"
       ELSE IF Range(e.vio) # viol \/ Len(e.vio) # Cardinality(viol) THEN "violated constraints are stale"
       ELSE IF e.feas # (viol = {}) THEN "feasibility is stale"
       ELSE IF ~R.noobj /\ e.mo # R.sense * ObjMin(p) THEN "objective value is stale"
       ELSE IF e.st.o # ObjMin(p) \/ e.st.v # TotV(p) \/ e.st.f # (viol = {}) \/ (R.gok /\ e.st.gs # GlobObj(p)) THEN "the score of the current point is stale"
       ELSE IF \E k \in 1..Len(R.sels) : LET on == {i \in Range(R.sels[k]) : e.x[i] = 1} IN Cardinality(on) = 1 /\ e.selv[k] \notin on THEN "the selected variable of a selection is not the one that is set"
       ELSE ""

CandScore(c, p) ==
    LET q == Apply(c.a, p)
    IN IF c.s.o # ObjMin(q) \/ c.s.v # TotV(q) \/ c.s.f # Feas(q) \/ (R.gok /\ c.s.gs # GlobObj(q))
       THEN "score of a candidate differs from the model (" \o c.k \o ")" ELSE ""
FirstBadScore(e, p) ==
    LET bad == {k \in 1..Len(e.cand) : CandScore(e.cand[k], p) # ""}
    IN IF bad = {} THEN "" ELSE CandScore(e.cand[CHOOSE k \in bad : \A j \in bad : k <= j], p)

------------------------------------------------------------------------------
\* tabu rule.  A variable is tabu while it - tenure < last alteration.
IsTabu(i, it, ten, lst) == it - ten < lst[i]
Permissible(c, it, ten, lst, any) ==
    IF ~any /\ c.k # "Selection" THEN \E i \in Altered(c.a) : ~IsTabu(i, it, ten, lst)
                                 ELSE \A i \in Altered(c.a) : ~IsTabu(i, it, ten, lst)
\* special moves must promise an improvement
Handicap(c) == IF c.sp /\ ~(c.s.oi \/ c.s.fi) THEN 2 ELSE IF ~c.pm THEN 1 ELSE 0

SelectVerdict(e, s0, lst) ==
    LET sel == e.cand[e.sel]
        K == 1..Len(e.cand)
        hs == Handicap(sel)
        best0 == {k \in K : Handicap(e.cand[k]) = 0}
        improving == \E k \in K : e.cand[k].asp
    IN IF \E k \in K : e.cand[k].pm # Permissible(e.cand[k], e.it, e.ten, lst, s0.any) THEN "tabu status of a candidate is wrong"
       ELSE IF \E k \in K : ~e.cand[k].av THEN "a candidate is not available"
       ELSE IF e.aspd /\ (sel.pm \/ ~s0.asp) THEN "aspiration without need"
       ELSE IF ~e.full THEN ""
       ELSE IF s0.asp /\ improving THEN
            (IF sel.gk # 0 THEN "the candidate which improves the incumbent most is not taken" ELSE "")
       ELSE IF hs > 0 /\ best0 # {} THEN "a forbidden candidate is taken although a permitted one exists"
       ELSE IF hs = 0 /\ \E k \in best0 : e.cand[k].rk < sel.rk THEN "a permitted candidate with a better score is passed over"
       ELSE IF hs = 2 /\ \E k \in K : Handicap(e.cand[k]) < 2 THEN "a special move without improvement is taken"
       ELSE ""

\* memory after altering A at iteration it with randomisation width w
MemoryVerdict(e, A, it, w, lst, c0) ==
    IF \E i \in 1..N : i \notin A /\ e.last[i] # lst[i] THEN "the tabu memory of an unaltered variable changed"
    ELSE IF \E i \in A : e.last[i] < it - w \/ e.last[i] > (IF w = 0 THEN it ELSE it + w - 1) THEN "the tabu memory of an altered variable is wrong"
    ELSE IF \E i \in 1..N : e.cnt[i] # c0[i] + (IF i \in A THEN 1 ELSE 0) THEN "the update count of a variable is wrong"
    ELSE ""

\* an integer move which improves the incumbent may be extended, never worsened
MovedVerdict(e, p) ==
    IF e.a = run.sel.a THEN ""
    ELSE IF ~(run.s0.ssa /\ run.sel.k = "Integer" /\ run.imp) THEN "the move applied is not the move selected"
    ELSE IF Altered(e.a) # Altered(run.sel.a) THEN "step size adjustment alters another variable"
    ELSE IF R.gok /\ GlobObj(Apply(e.a, p)) > GlobObj(Apply(run.sel.a, p)) THEN "step size adjustment worsens the move"
    ELSE IF \E i \in Altered(e.a) : LET q == Apply(e.a, p) IN q[i] < run.s0.lb[i] \/ q[i] > run.s0.ub[i] THEN "step size adjustment leaves the bounds"
    ELSE ""

TenureVerdict(e, s0) ==
    LET o == s0.ten
    IN IF e.ten > Max2(Max2(s0.nmut, 1), o) \/ e.ten < Min2(o, Max2(1, o \div 2)) THEN "tabu tenure out of range" ELSE ""

------------------------------------------------------------------------------
\* stopping
Reached == best.f /\ R.htar /\ best.o <= R.sense * R.tar * R.sc
\* beyond doubt: with decimal fractions the code may miss the target by a rounding error
Dyadic == R.I.den = 4
Passed == Reached /\ (Dyadic \/ best.o < R.sense * R.tar * R.sc)
\* Time. Runs with a clock advance it by one at every reading; the code reads it at
\* least once per step. Slack covers the readings around an observation.
Slack == 5
PhaseLimit(ph) == IF ph = "local" THEN R.lt ELSE IF ph = "dual" THEN R.dt ELSE R.tt
PrevT == IF l = 0 THEN 0 ELSE R.ev[l].t
\* time was over already at the previous observation
StepTime(ph) == IF ~R.clk THEN ""
                ELSE IF PrevT > R.gt + Slack THEN "a step after the time limit"
                ELSE IF PrevT - run.t0 > PhaseLimit(ph) + Slack THEN "a step after the time limit of the phase" ELSE ""
BeginTime(e) == IF R.clk /\ PrevT > R.gt + Slack THEN "a phase starts after the time limit" ELSE ""
OverTime(e, ph) == IF e.term # "TIME_OVER" THEN ""
                   ELSE IF ~R.clk \/ (e.t <= R.gt /\ e.t - run.t0 + Slack <= PhaseLimit(ph)) THEN "time limit reported although it is far away" ELSE ""
EndVerdict(e) ==
    LET it == e.it
        moves == run.moves
    IN IF it > run.s0.imax THEN "more iterations than allowed"
       ELSE IF it # (IF e.term = "PENALTY" THEN moves - 1 ELSE moves) THEN "the iteration count is not the number of moves"
       ELSE IF e.term = "ITERATION_OVER" /\ it < run.s0.imax THEN "iteration limit reported before it was reached"
       ELSE IF e.term = "REACH_TARGET" /\ ~Reached THEN "target reported but not reached"
       ELSE IF OverTime(e, "tabu") # "" THEN OverTime(e, "tabu")
       ELSE IF Passed /\ e.term \notin {"REACH_TARGET", "ITERATION_OVER", "PENALTY", "TIME_OVER"} THEN "target reached but not reported"
       ELSE ""
StartVerdict(e) ==
    IF run.loops >= R.gmax THEN "more loops than allowed"
    ELSE IF run.loops > 0 /\ run.stop THEN "the search goes on although it should have stopped"
    ELSE IF e.imax > Max2(R.imax, R.tten) THEN "the iteration limit of a loop exceeds the one set"
    ELSE IF run.loops = 0 /\ e.imax # R.imax THEN "the iteration limit of the first loop is not the one set"
    ELSE BeginTime(e)
SelectLimit(e) == IF e.it # run.moves THEN "iteration number is wrong"
                  ELSE IF e.it >= run.s0.imax THEN "a move beyond the iteration limit"
                  ELSE IF Passed THEN "a move after the target was reached" ELSE StepTime("tabu")

------------------------------------------------------------------------------
\* switches: which phases run and which kinds of moves are in use.
\* nb[k] = <<asked for, present, in use>>; kinds 1-3 are in use from the start, the
\* others are called in together when a full loop brought no improvement and sent
\* away when one did (chains, kind 17, are collected while searching)
Kinds == <<"Binary", "Integer", "Selection", "ExclusiveOr", "ExclusiveNor", "InvertedIntegers", "BalancedIntegers", "ConstantSumIntegers", "ConstantDifferenceIntegers", "ConstantRatioIntegers", "Aggregation", "Precedence", "VariableBound", "TrinomialExclusiveNor", "SoftSelection", "TwoFlip", "Chain", "UserDefined">>
Ready(nb, k) == nb[k][1] = 1 /\ nb[k][2] = 1
Used(nb, k) == nb[k][3] = 1
SwitchVerdict(e) ==
    LET nb == e.nb
        sp == {k \in 4..16 : Ready(nb, k)}
        late == R.clk /\ e.t + Slack >= R.gt
    IN IF run.loops = 0 /\ R.lse /\ "local" \notin run.ph /\ ~Reached /\ ~late THEN "the local search asked for does not run"
       ELSE IF run.loops = 0 /\ R.lde /\ "dual" \notin run.ph /\ ~Reached /\ ~late /\ R.sels = << >> /\ R.ndep = 0 THEN "the relaxation asked for is not solved"
       ELSE IF \E k \in 1..18 : nb[k][1] = 0 /\ Used(nb, k) THEN "a kind of move is in use which is switched off"
       ELSE IF \E k \in 1..3 : Ready(nb, k) /\ ~Used(nb, k) THEN "a kind of move asked for is not in use"
       ELSE IF run.loops = 0 /\ \E k \in sp : Used(nb, k) THEN "special moves are in use from the start"
       ELSE IF run.loops > 0 /\ R.gok /\ run.imp2 /\ \E k \in sp \cup {17} : Used(nb, k) THEN "special moves stay in use after an improvement"
       ELSE IF run.loops > 0 /\ R.gok /\ ~run.imp2 /\ run.pit = R.imax /\ \E k \in sp : ~Used(nb, k) THEN "special moves are not called in although the search stagnates"
       ELSE IF run.loops > 0 /\ R.gok /\ ~run.imp2 /\ run.pit # R.imax /\ \E k \in sp : Used(nb, k) # Used(run.nb, k) THEN "special moves are switched without a reason"
       ELSE ""
KindsVerdict(e) ==
    LET bad == {q \in 1..Len(e.cand) : \A k \in 1..18 : Kinds[k] # e.cand[q].k \/ ~Used(run.nb, k)}
    IN IF bad # {} THEN "a move of a kind which is not in use is a candidate (" \o e.cand[CHOOSE q \in bad : TRUE].k \o ")" ELSE ""

FinLimits ==
    LET f == R.fin
    IN IF f.loops # run.loops THEN "reported number of loops is wrong"
       ELSE IF f.cb # run.loops THEN "the callback is not called once per loop"
       ELSE IF f.iters # run.iters THEN "reported number of iterations is wrong"
       ELSE IF run.loops < R.gmax /\ ~run.stop /\ ~Reached /\ ~(R.clk /\ f.t > R.gt) THEN "the search stopped without a reason"
       ELSE IF R.clk /\ (f.et > f.t \/ f.et < R.ev[NEv].t - Slack) THEN "the reported elapsed time is wrong"
       ELSE IF f.uc # cnt THEN "reported update counts are wrong"
       ELSE IF f.lsi # run.lsi \/ f.ldi # run.ldi THEN "the reported iterations of a phase are wrong"
       ELSE IF \E k \in 1..Len(R.rc) : f.cid[k] # 0 /\ f.vc[f.cid[k]] # vcnt[k] THEN "reported violation counts are wrong"
       ELSE ""

FinIncumbent ==
    LET f == R.fin
    IN IF f.found # best.f THEN "reported status differs from what was found"
       ELSE IF f.feas # best.f THEN "reported solution differs in feasibility from what was found"
       ELSE IF f.inc.f # best.f \/ (best.f /\ f.inc.fo # best.o) THEN "the final incumbent is not the best point found"
       ELSE IF best.f /\ f.obj # R.sense * best.o THEN "the reported objective is not that of the best point found"
       ELSE IF best.f /\ f.x # f.inc.fx THEN "the reported solution is not the incumbent"
       ELSE IF best.f /\ ~Feasible(R.I, f.x) THEN "the reported solution is not feasible"
       ELSE IF f.feas # Feasible(R.I, f.x) THEN "the reported feasibility is not that of the reported point"
       ELSE IF ~best.f /\ f.x # f.inc.gx THEN "the reported solution is not the best penalised point"
       ELSE IF (f.viol = 0) # Feasible(R.I, f.x) THEN "the reported violation disagrees with the feasibility of the reported point"
       \* constraints which presolve merged into a new one are counted beside it
       ELSE IF (\A k \in 1..Len(R.rc) : f.cid[k] # 0) /\ f.viol # R.scr * TotalViol(R.I, f.x) THEN "the reported violation is not that of the reported point"
       ELSE IF ~R.noobj /\ f.obj # R.scr * Obj(R.I, f.x) THEN "the reported objective is not that of the reported point"
       ELSE ""

\* better-or-equal in the direction of the model (archives hold original objective values)
NoWorse(a, b) == R.sense * a <= R.sense * b
FinArchive ==
    LET A == R.fin.fa
        B == R.fin.ia
    IN IF \E k \in 1..Len(A) : ~A[k].f \/ A[k].v # 0 \/ ~Feasible(R.I, A[k].x) THEN "an archived feasible solution is not feasible"
       ELSE IF ~R.noobj /\ \E k \in 1..Len(A) : A[k].o # R.scr * Obj(R.I, A[k].x) THEN "the objective of an archived solution is not that of its point"
       ELSE IF \E k \in 1..Len(A) - 1 : ~NoWorse(A[k].o, A[k + 1].o) THEN "archived solutions are not sorted"
       ELSE IF R.fin.cap > 0 /\ Len(A) > R.fin.cap THEN "more archived solutions than allowed"
       ELSE IF ~R.fin.store /\ A # << >> THEN "solutions archived although not asked for"
       ELSE IF \E k \in 1..Len(A) : \A p \in seen : ~Same(p, A[k].x) THEN "an archived solution was never visited"
       ELSE IF R.fin.store /\ \E p \in seen : /\ \A k \in 1..Len(A) : ~Same(p, A[k].x)
                                            /\ \/ R.fin.cap = 0 \/ Len(A) < R.fin.cap
                                               \/ ~NoWorse(A[Len(A)].o, R.sense * ObjMin(p))
            THEN "a visited feasible solution is missing from the archive"
       ELSE IF \E k \in 1..Len(B) : B[k].f # Feasible(R.I, B[k].x) THEN "an archived incumbent has the wrong feasibility"
       ELSE IF ~R.noobj /\ \E k \in 1..Len(B) : B[k].o # R.scr * Obj(R.I, B[k].x) THEN "the objective of an archived incumbent is not that of its point"
       ELSE ""

------------------------------------------------------------------------------
\* bounds proved during the run (instances small enough to enumerate)
Opt == LET F == FeasSet(R.I) IN IF F = {} THEN [f |-> FALSE, o |-> 0]
                                ELSE [f |-> TRUE, o |-> R.scr * BestOf(R.sense, {Obj(R.I, p) : p \in F})]
DualOK(inc, opt) == ~opt.f \/ (IF R.sense > 0 THEN inc.dbf <= opt.o ELSE inc.dbc >= opt.o)
DualVerdict(inc, term) ==
    LET opt == Opt
    IN IF ~DualOK(inc, opt) THEN "the dual bound cuts off the optimum"
       ELSE IF term = "OPTIMAL" /\ ~inc.f THEN "optimality reported without a feasible point"
       ELSE IF term = "OPTIMAL" /\ (~opt.f \/ R.sense * inc.fo # opt.o) /\ ~R.noobj THEN "optimality reported for a point which is not optimal"
       ELSE ""

------------------------------------------------------------------------------
\* Penalty coefficients between two loops: reset, or raised for what the best point of the
\* loop violates, or lowered for what it satisfies.  p: that point; dl, dg: direction in which
\* the coefficients of the two sides of each constraint changed.
Over(k, p) == R.rc[k].s <= 0 /\ ConVal(R.rc[k], p) > 0
Under(k, p) == R.rc[k].s >= 0 /\ ConVal(R.rc[k], p) < 0
Resetting(e) == \A k \in 1..Len(R.rc) : e.peq[k] = 1
Tightening(e, p) == \A k \in 1..Len(R.rc) :
    /\ e.dl[k] >= 0 /\ e.dg[k] >= 0
    /\ R.grp \/ ((e.dl[k] = 1 => Over(k, p)) /\ (e.dg[k] = 1 => Under(k, p)))
Relaxing(e, p) == \A k \in 1..Len(R.rc) :
    /\ e.dl[k] <= 0 /\ e.dg[k] <= 0
    /\ (e.dl[k] = -1 => ~Over(k, p)) /\ (e.dg[k] = -1 => ~Under(k, p))
\* objective range over the bounds of the variables
RECURSIVE Spread(_, _, _)
Spread(lb, ub, i) == IF i = 0 THEN 0 ELSE Abs(R.ro.a[i]) * (ub[i] - lb[i]) + Spread(lb, ub, i - 1)
PenaltyVerdict(e, p) ==
    IF \E k \in 1..Len(R.rc) : e.pbad[k] = 1 THEN "a penalty coefficient is outside its range"
    ELSE IF e.gbad THEN "the global penalty coefficient is outside its range"
    ELSE IF run.loops = 0 THEN
        (IF ~Resetting(e) THEN "the penalty coefficients do not start at the global one"
         ELSE IF e.gsmall /\ e.gcf < Spread([i \in 1..N |-> IF R.v[i].t = "free" THEN e.lb[i] ELSE 0], [i \in 1..N |-> IF R.v[i].t = "free" THEN e.ub[i] ELSE 0], N) THEN "the penalty coefficient is reduced below the range of the objective" ELSE "")
    ELSE IF ~(Resetting(e) \/ Tightening(e, p) \/ Relaxing(e, p)) THEN
        (IF \E k \in 1..Len(R.rc) : (e.dl[k] = -1 /\ Over(k, p)) \/ (e.dg[k] = -1 /\ Under(k, p)) THEN "the penalty of a violated constraint is lowered"
         ELSE "penalty coefficients change in the wrong direction")
    ELSE ""

------------------------------------------------------------------------------
Zero == [i \in 1..N |-> 0]
Init == /\ ep \in 1..NEps /\ l = 0
        /\ x = << >> /\ best = None /\ glob = NoGlob /\ last = << >> /\ cnt = << >> /\ vcnt = << >> /\ seen = {}
        /\ run = [loops |-> 0, moves |-> 0, iters |-> 0, stop |-> FALSE, s0 |-> << >>, sel |-> << >>, imp |-> FALSE, mods |-> 0, fresh |-> TRUE, lsi |-> 0, ldi |-> 0, t0 |-> 0, lx |-> << >>, ph |-> {}, nb |-> << >>, imp2 |-> FALSE, pit |-> 0, g |-> 0]

E == R.ev[l + 1]
Then(w) == IF w = "" THEN l' = l + 1 ELSE Reject(ep, l, w) /\ l' = -1

BumpViol(p) == [k \in 1..Len(R.rc) |-> vcnt[k] + (IF k \in Violated(p) THEN 1 ELSE 0)]

\* initial modification of a loop: moves made before the loop proper
Modified ==
    /\ E.e = "modified"
    /\ x' = E.x
    /\ best' = RecBest(E.inc) /\ glob' = [f |-> TRUE, o |-> E.inc.gos, x |-> E.inc.gx]
    /\ last' = E.last /\ cnt' = E.cnt
    /\ vcnt' = (IF vcnt = << >> THEN [k \in 1..Len(R.rc) |-> IF k \in Violated(E.x) THEN 1 ELSE 0] ELSE BumpViol(E.x))
    /\ run' = [run EXCEPT !.mods = @ + 1, !.fresh = FALSE]
    /\ seen' = seen
    /\ Then(CASE Aspect = "incumbent" -> (IF l = 0 THEN IncumbentValid(E.inc) ELSE IncumbentVerdict(E, best, glob, E.x, run.fresh))
              [] Aspect = "state" -> (IF ~run.fresh /\ ~Same(E.x, Apply(E.a, x)) THEN "values differ from the applied moves" ELSE StateVerdict(E, E.x))
              [] Aspect = "tabu" -> (IF cnt = << >> THEN "" ELSE IF \E i \in 1..N : E.cnt[i] # cnt[i] + (IF i \in Altered(E.a) THEN 1 ELSE 0) THEN "the update count of a variable is wrong" ELSE "")
              [] OTHER -> "")

\* The phases before the tabu search: relaxation ("dual") and local search ("local").
WithinBounds(p, s0) == \A i \in 1..N : R.v[i].t = "dep" \/ s0.fx[i] = 1 \/ (s0.lb[i] <= p[i] /\ p[i] <= s0.ub[i])
\* a step of the local search: legal and downhill
\* (with fractional coefficients equal values may differ by rounding in the code)
Tie == IF Dyadic THEN 0 ELSE 1
DescentVerdict(e, p) ==
    LET q == Apply(e.a, p)
        s0 == run.s0
    IN IF Cardinality(Altered(e.a)) # Len(e.a) \/ 0 \in Altered(e.a) THEN "a variable is altered twice"
       ELSE IF \E i \in Altered(e.a) : s0.fx[i] = 1 \/ R.v[i].t = "dep" THEN "a variable which is not free is altered"
       ELSE IF ~WithinBounds(q, s0) THEN "a step leaves the bounds"
       ELSE IF \E k \in 1..Len(R.sels) : Cardinality({i \in Range(R.sels[k]) : p[i] = 1}) = 1 /\ Cardinality({i \in Range(R.sels[k]) : q[i] = 1}) # 1 THEN "a step breaks a selection"
       ELSE IF s0.ssa THEN ""
       ELSE IF Feas(q) THEN (IF Feas(p) /\ ObjMin(q) >= ObjMin(p) + Tie THEN "a step of the local search does not improve" ELSE "")
       ELSE IF TotV(q) >= TotV(p) + Tie THEN "a step of the local search does not reduce the violation"
       ELSE ""
PStart ==
    /\ E.e = "pstart"
    /\ x' = E.x
    /\ best' = RecBest(E.inc) /\ glob' = [f |-> TRUE, o |-> E.inc.gos, x |-> E.inc.gx]
    /\ last' = E.last /\ cnt' = E.cnt
    /\ vcnt' = (IF vcnt = << >> THEN [k \in 1..Len(R.rc) |-> 0] ELSE vcnt)
    /\ run' = [run EXCEPT !.moves = 0, !.s0 = [imax |-> E.imax, lb |-> E.lb, ub |-> E.ub, fx |-> E.fx, ssa |-> E.ssa], !.fresh = TRUE, !.t0 = E.t, !.ph = @ \cup {E.ph}]
    /\ seen' = seen
    /\ Then(CASE Aspect = "incumbent" -> (IF l = 0 THEN IncumbentValid(E.inc) ELSE IncumbentVerdict(E, best, glob, E.x, FALSE))
              [] Aspect = "state" -> StateVerdict(E, E.x)
              [] Aspect = "limits" -> (IF Passed THEN "a phase starts although the target was reached" ELSE BeginTime(E))
              [] Aspect = "switch" -> (IF (E.ph = "local" /\ ~R.lse) \/ (E.ph = "dual" /\ ~R.lde) THEN "a phase runs which is switched off"
                                       ELSE IF E.ph = "dual" /\ "local" \in run.ph THEN "the phases run in the wrong order" ELSE "")
              [] Aspect = "tabu" -> (IF cnt = << >> THEN (IF \E i \in 1..N : E.cnt[i] # 0 THEN "update counts do not start at zero" ELSE "")
                                     ELSE IF E.cnt # cnt THEN "update counts changed between phases" ELSE "")
              [] OTHER -> "")
PMove ==
    /\ E.e = "pmove"
    /\ LET y == IF E.ph = "local" THEN Apply(E.a, x) ELSE E.x
       IN /\ x' = y
          /\ best' = Visit(best, y) /\ glob' = VisitG(glob, y)
          /\ last' = E.last
          /\ cnt' = [i \in 1..N |-> cnt[i] + (IF i \in Altered(E.a) THEN 1 ELSE 0)]
          /\ vcnt' = (IF E.ph = "local" THEN BumpViol(y) ELSE vcnt)
          /\ run' = [run EXCEPT !.moves = @ + 1]
          /\ seen' = (IF Aspect = "archive" /\ Feas(y) THEN seen \cup {y} ELSE seen)
          /\ Then(CASE Aspect = "incumbent" -> IncumbentVerdict(E, best, glob, y, FALSE)
                    [] Aspect = "state" -> (LET w == StateVerdict(E, y) IN IF w = "" /\ ~WithinBounds(y, run.s0) THEN "a value is out of its bounds" ELSE w)
                    [] Aspect = "tabu" -> MemoryVerdict(E, Altered(E.a), E.it, 0, last, cnt)
                    [] Aspect = "limits" -> (IF E.it # run.moves THEN "iteration number is wrong"
                                             ELSE IF E.it >= run.s0.imax THEN "a step beyond the iteration limit"
                                             ELSE IF Passed THEN "a step after the target was reached" ELSE StepTime(E.ph))
                    [] Aspect = "descent" -> (IF E.ph = "local" THEN DescentVerdict(E, x) ELSE "")
                    [] OTHER -> "")
PEnd ==
    /\ E.e = "pend"
    /\ run' = [run EXCEPT !.lsi = @ + (IF E.ph = "local" THEN E.it ELSE 0), !.ldi = @ + (IF E.ph = "dual" THEN E.it ELSE 0)]
    /\ UNCHANGED <<x, best, glob, last, cnt, vcnt, seen>>
    /\ Then(CASE Aspect = "limits" -> (IF E.term = "ITERATION_OVER" /\ E.it < run.s0.imax THEN "iteration limit reported before it was reached"
                                      ELSE IF E.it # (IF E.term = "CONVERGE" THEN run.moves - 1 ELSE run.moves) THEN "the iteration count is not the number of steps"
                                      ELSE IF E.term = "REACH_TARGET" /\ ~Reached THEN "target reported but not reached"
                                      ELSE OverTime(E, E.ph))
              [] Aspect = "dual" -> DualVerdict(E.inc, E.term)
              [] OTHER -> "")

Start ==
    /\ E.e = "start"
    /\ x' = E.x
    /\ best' = RecBest(E.inc) /\ glob' = [f |-> TRUE, o |-> E.inc.gos, x |-> E.inc.gx]
    /\ last' = E.last /\ cnt' = E.cnt
    /\ vcnt' = (IF vcnt = << >> THEN [k \in 1..Len(R.rc) |-> 0] ELSE vcnt)
    /\ run' = [run EXCEPT !.moves = 0, !.s0 = [any |-> E.any, asp |-> E.asp, imax |-> E.imax, ten |-> Min2(E.iten, E.nmut), nmut |-> E.nmut, rr |-> E.rr, ssa |-> E.ssa, lb |-> E.lb, ub |-> E.ub], !.fresh = TRUE, !.t0 = E.t, !.nb = E.nb, !.g = (IF run.loops = 0 THEN E.inc.gos ELSE @)]
    /\ seen' = seen
    /\ Then(CASE Aspect = "incumbent" -> (IF l = 0 THEN IncumbentValid(E.inc) ELSE IncumbentVerdict(E, best, glob, E.x, run.fresh))
              [] Aspect = "state" -> (IF ~run.fresh /\ ~Same(E.x, x) THEN "values differ from the applied moves" ELSE StateVerdict(E, E.x))
              [] Aspect = "limits" -> StartVerdict(E)
              [] Aspect = "switch" -> SwitchVerdict(E)
              [] Aspect = "penalty" -> PenaltyVerdict(E, run.lx)
              [] Aspect = "tabu" -> (IF run.fresh /\ E.ten # Min2(E.iten, E.nmut) THEN "initial tabu tenure is wrong"
                                     ELSE IF TenureVerdict(E, [ten |-> Min2(E.iten, E.nmut), nmut |-> E.nmut]) # "" THEN "tabu tenure out of range"
                                     ELSE IF cnt = << >> THEN (IF run.mods = 0 /\ \E i \in 1..N : E.cnt[i] # 0 THEN "update counts do not start at zero" ELSE "")
                                     ELSE IF E.cnt # cnt THEN "update counts changed between loops"
                                     ELSE IF run.fresh /\ \E i \in 1..N : E.last[i] > -1000 THEN "tabu memory survives into the next loop" ELSE "")
              [] OTHER -> "")

Select ==
    /\ E.e = "select"
    /\ run' = [run EXCEPT !.sel = E.cand[E.sel], !.imp = E.imp]
    /\ UNCHANGED <<x, best, glob, last, cnt, vcnt, seen>>
    /\ Then(CASE Aspect = "score" -> FirstBadScore(E, x)
              [] Aspect = "tabu" -> (LET w == TenureVerdict(E, run.s0) IN IF w # "" THEN w ELSE SelectVerdict(E, run.s0, last))
              [] Aspect = "limits" -> SelectLimit(E)
              [] Aspect = "switch" -> KindsVerdict(E)
              [] OTHER -> "")

Moved ==
    /\ E.e = "moved"
    /\ LET y == Apply(E.a, x)
       IN /\ x' = y
          /\ best' = Visit(best, y) /\ glob' = VisitG(glob, y)
          /\ last' = E.last
          /\ cnt' = [i \in 1..N |-> cnt[i] + (IF i \in Altered(E.a) THEN 1 ELSE 0)]
          /\ vcnt' = BumpViol(y)
          /\ run' = [run EXCEPT !.moves = @ + 1]
          /\ seen' = (IF Aspect = "archive" /\ Feas(y) THEN seen \cup {y} ELSE seen)
          /\ Then(CASE Aspect = "incumbent" -> IncumbentVerdict(E, best, glob, y, FALSE)
                    [] Aspect = "state" -> StateVerdict(E, y)
                    [] Aspect = "tabu" -> (LET w == MovedVerdict(E, x)
                                               width == (run.s0.rr * R.ev[l].ten) \div 1000
                                           IN IF w # "" THEN w ELSE MemoryVerdict(E, Altered(E.a), E.it, width, last, cnt))
                    [] OTHER -> "")

End ==
    /\ E.e = "end"
    /\ run' = [run EXCEPT !.loops = @ + 1, !.iters = @ + E.it, !.stop = (E.term = "OPTIMAL" \/ Reached), !.lx = E.lx, !.imp2 = (E.inc.gos < run.g), !.pit = E.it, !.g = E.inc.gos]
    /\ UNCHANGED <<x, best, glob, last, cnt, vcnt, seen>>
    /\ Then(CASE Aspect = "limits" -> EndVerdict(E)
              [] Aspect = "dual" -> DualVerdict(E.inc, E.term)
              [] OTHER -> "")

Event == /\ l >= 0 /\ l < NEv
         /\ PStart \/ PMove \/ PEnd \/ Modified \/ Start \/ Select \/ Moved \/ End
         /\ UNCHANGED ep

\* after the last event: the final report
Final == /\ l = NEv /\ NEv > 0
         /\ l' = (LET w == IF R.trunc THEN "" ELSE
                           CASE Aspect = "limits" -> FinLimits
                             [] Aspect = "incumbent" -> FinIncumbent
                             [] Aspect = "archive" -> FinArchive
                             [] Aspect = "dual" -> DualVerdict(R.fin.inc, "")
                             [] OTHER -> ""
                  IN IF w = "" THEN NEv + 1 ELSE IF Reject(ep, l, w) THEN -1 ELSE -1)
         /\ UNCHANGED <<ep, x, best, glob, last, cnt, vcnt, run, seen>>

Crash == /\ l = 0 /\ NEv = 0 /\ R.out = "crash"
         /\ Reject(ep, 0, "crash: " \o R.what) /\ l' = -1
         /\ UNCHANGED <<ep, x, best, glob, last, cnt, vcnt, run, seen>>

Next == Event \/ Final \/ Crash
Spec == Init /\ [][Next]_vars
=============================================================================
