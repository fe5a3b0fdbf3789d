------------------------------ MODULE MpsTrace ------------------------------
(* C10, C11.  The meaning of an MPS file, line by line.  The state is the part *)
(* of the model which the lines read so far define:                            *)
(*   sec   the section, obj the name of the objective row, free the other N rows *)
(*   rows  per row name: its sense; cols: the columns in order;                *)
(*   int   integrality, co coefficients, rhs right hand sides, rng ranges,     *)
(*   bnd   bounds given so far; err: a reason why the file is malformed.       *)
(* At the end the model which the real code built from the file must be the    *)
(* one of the state; a malformed file must have been refused.  For files which *)
(* the real code wrote, the state must be the model that was to be written.    *)
(* Numbers are thousandths; bounds are integers, with Inf for no bound.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Episodes

VARIABLES ep, l, m
vars == <<ep, l, m>>
R == Eps[ep]
Inf == 1000000000
BadNum == 2000000001
Huge(v) == v >= 2000000000
NHuge(v) == v <= -2000000000

Empty == [sec |-> "", obj |-> "", free |-> {}, rows |-> << >>, cols |-> << >>, mark |-> FALSE,
          ints |-> {}, co |-> << >>, rhs |-> << >>, rng |-> << >>, bnd |-> << >>, err |-> "", done |-> FALSE]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
RowNames(s) == {s.rows[i].n : i \in 1..Len(s.rows)}

Sections == {"ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA"}

CeilK(v)  == -((-v) \div 1000)
FloorK(v) == v \div 1000

\* entries of a data line: pairs (name, value) from the second token on
NPairs(t) == (Len(t) - 1) \div 2
RECURSIVE Entries(_, _, _, _)
Entries(s, t, v, i) ==
    IF i > NPairs(t) \/ s.err # "" THEN s
    ELSE LET nm == t[2 * i]
             x == v[2 * i + 1]
             s1 == CASE s.sec = "COLUMNS" ->
                          IF x = 0 THEN s
                          ELSE IF nm = s.obj \/ nm \in RowNames(s) THEN [s EXCEPT !.co = Put(@, <<nm, t[1]>>, x)]
                          ELSE IF nm \in s.free THEN s
                          ELSE [s EXCEPT !.err = "undefined row"]
                     [] s.sec = "RHS" -> IF nm \in s.free THEN s ELSE [s EXCEPT !.rhs = Put(@, nm, x)]
                     [] s.sec = "RANGES" -> [s EXCEPT !.rng = Put(@, nm, x)]
                     [] OTHER -> s
         IN Entries(s1, t, v, i + 1)

Default == [lb |-> 0, ub |-> Inf, lbd |-> FALSE]
Lower(v) == IF NHuge(v) THEN -Inf ELSE CeilK(v)
Upper(v) == IF Huge(v) THEN Inf ELSE FloorK(v)
Bound(s, t, v) ==
    LET x == t[3]
        old == Get(s.bnd, x, Default)
        B(b) == [s EXCEPT !.bnd = Put(@, x, b)]
        I(s1) == [s1 EXCEPT !.ints = @ \cup {x}]
    IN IF ~InSeq(s.cols, x) THEN [s EXCEPT !.err = "undefined column"]
       ELSE CASE t[1] = "FR" -> B([old EXCEPT !.lb = -Inf, !.ub = Inf])
              [] t[1] = "BV" -> I(B([old EXCEPT !.lb = 0, !.ub = 1]))
              [] t[1] = "MI" -> B([old EXCEPT !.lb = -Inf, !.ub = 0])   \* this reader's reading of MI
              [] t[1] = "PL" -> B([old EXCEPT !.ub = Inf])
              [] t[1] = "LO" -> B([old EXCEPT !.lb = Lower(v[4])])
              [] t[1] = "LI" -> I(B([old EXCEPT !.lb = Lower(v[4])]))
              [] t[1] = "UP" -> B([old EXCEPT !.ub = Upper(v[4])])
              [] t[1] = "UI" -> I(B([old EXCEPT !.ub = Upper(v[4])]))
              [] t[1] = "FX" -> B([old EXCEPT !.lb = Lower(v[4]), !.ub = Upper(v[4])])
              [] OTHER -> s

Step(s, ln) ==
    LET t == ln.t
        v == ln.v
    IN IF s.done \/ s.err # "" \/ ln.c \/ t = << >> THEN s
       ELSE IF t[1] = "NAME" THEN [s EXCEPT !.sec = "NAME"]
       ELSE IF Len(t) = 1 /\ t[1] \in Sections THEN [s EXCEPT !.sec = t[1], !.done = (t[1] = "ENDATA")]
       ELSE CASE s.sec = "ROWS" ->
                   IF t[1] = "N" THEN (IF s.obj = "" THEN [s EXCEPT !.obj = t[2]] ELSE [s EXCEPT !.free = @ \cup {t[2]}])
                   ELSE IF t[1] \in {"L", "E", "G"} THEN [s EXCEPT !.rows = Append(@, [n |-> t[2], s |-> t[1]])]
                   ELSE [s EXCEPT !.err = "unknown kind of row"]
              [] s.sec = "COLUMNS" ->
                   IF t[3] = "'INTORG'" THEN [s EXCEPT !.mark = TRUE]
                   ELSE IF t[3] = "'INTEND'" THEN [s EXCEPT !.mark = FALSE]
                   ELSE LET s1 == IF InSeq(s.cols, t[1]) THEN s
                                  ELSE [s EXCEPT !.cols = Append(@, t[1]), !.ints = IF s.mark THEN @ \cup {t[1]} ELSE @]
                        IN Entries(s1, t, v, 1)
              [] s.sec \in {"RHS", "RANGES"} -> Entries(s, t, v, 1)
              [] s.sec = "BOUNDS" -> Bound(s, t, v)
              [] OTHER -> s

------------------------------------------------------------------------------
\* the model of a final state
VarsOf(s) == [i \in 1..Len(s.cols) |->
    LET x == s.cols[i]
        d == IF x \in s.ints THEN [lb |-> 0, ub |-> 1, lbd |-> FALSE] ELSE Default
        b == Get(s.bnd, x, d)
    IN [n |-> x, lb |-> b.lb, ub |-> b.ub]]
Terms(s, row) == {<<s.cols[i], s.co[<<row, s.cols[i]>>]>> : i \in {i \in 1..Len(s.cols) : <<row, s.cols[i]>> \in DOMAIN s.co}}
Abs(v) == IF v < 0 THEN -v ELSE v
Halves(s, i) ==
    LET r == s.rows[i]
        T == Terms(s, r.n)
        b == Get(s.rhs, r.n, 0)
        ranged == r.n \in DOMAIN s.rng
        g == Get(s.rng, r.n, 0)
        lo == CASE r.s = "G" -> b [] r.s = "E" -> (IF ranged /\ g < 0 THEN b - Abs(g) ELSE b) [] OTHER -> b - Abs(g)
        hi == CASE r.s = "L" -> b [] r.s = "E" -> (IF ranged /\ g > 0 THEN b + Abs(g) ELSE b) [] OTHER -> b + Abs(g)
    IN (IF r.s \in {"G", "E"} \/ ranged THEN {<<T, 1, lo>>} ELSE {}) \cup (IF r.s \in {"L", "E"} \/ ranged THEN {<<T, -1, hi>>} ELSE {})
HalvesOf(s) == UNION {Halves(s, i) : i \in 1..Len(s.rows)}
ObjOf(s) == <<Terms(s, s.obj), -Get(s.rhs, s.obj, 0)>>

\* the same of a recorded model
TermSet(t) == {<<t[i].n, t[i].a>> : i \in 1..Len(t)}
GHalves(c) == (IF c.s >= 0 THEN {<<TermSet(c.t), 1, c.r>>} ELSE {}) \cup (IF c.s <= 0 THEN {<<TermSet(c.t), -1, c.r>>} ELSE {})
GHalvesOf(g) == UNION {GHalves(g.c[i]) : i \in 1..Len(g.c)}
GObj(g) == LET sg == IF g.o.min THEN 1 ELSE -1 IN <<{<<p[1], sg * p[2]>> : p \in TermSet(g.o.t)}, sg * g.o.c>>
Inexact(g) == \/ \E i \in 1..Len(g.c) : Abs(g.c[i].r) = BadNum \/ \E q \in 1..Len(g.c[i].t) : Abs(g.c[i].t[q].a) = BadNum
              \/ \E q \in 1..Len(g.o.t) : Abs(g.o.t[q].a) = BadNum

Continuous(s) == \E i \in 1..Len(s.cols) : s.cols[i] \notin s.ints
EmptyBox(s) == LET V == VarsOf(s) IN \E i \in 1..Len(V) : V[i].lb > V[i].ub
\* fractional values a fixed integer variable cannot take; outside what is decided
Compare(s, g, who) ==
    LET V == VarsOf(s)
        W == g.v
    IN IF Len(V) # Len(W) \/ \E i \in 1..Len(V) : V[i].n # W[i].n THEN who \o ": variables differ"
       ELSE IF \E i \in 1..Len(V) : V[i].lb # W[i].lb \/ V[i].ub # W[i].ub THEN who \o ": bounds of a variable differ"
       ELSE IF HalvesOf(s) # GHalvesOf(g) THEN who \o ": constraints differ"
       ELSE IF ObjOf(s) # GObj(g) THEN who \o ": the objective differs"
       ELSE ""

Malformed(s) == s.err # "" \/ ~s.done
Verdict(s) ==
    IF R.out = "crash" THEN "crash: " \o R.what
    ELSE IF R.kind = "write" THEN
         (IF R.out = "exc" THEN "a written file cannot be read back: " \o R.what
          ELSE IF Malformed(s) THEN "a written file is malformed"
          ELSE LET w == Compare(s, R.want, "written file") IN IF w # "" THEN w ELSE Compare(s, R.got, "model read back"))
    ELSE IF Malformed(s) THEN (IF R.out = "exc" THEN "" ELSE "a malformed file is accepted")
    ELSE IF Continuous(s) /\ ~R.accept THEN (IF R.out = "exc" THEN "" ELSE "continuous variables are accepted")
    ELSE IF EmptyBox(s) THEN ""
    ELSE IF R.out = "exc" THEN "a well-formed file is refused: " \o R.what
    ELSE Compare(s, R.got, "model read")

Init == ep \in 1..NEps /\ l = 0 /\ m = Empty
Line == /\ l >= 0 /\ l < Len(R.lines)
        /\ m' = Step(m, R.lines[l + 1]) /\ l' = l + 1 /\ UNCHANGED ep
Done == /\ l = Len(R.lines)
        /\ LET w == Verdict(m) IN IF w = "" THEN l' = l + 1 ELSE Reject(ep, l, w) /\ l' = -1
        /\ UNCHANGED <<ep, m>>
Next == Line \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
