--------------------------- MODULE ContainerTrace ---------------------------
(* C16.  The data structures below the solver.  Stateful structures (bounded  *)
(* queue, disjoint sets, one-to-one map, learner) are abstract machines whose state    *)
(* evolves with the recorded operations and must explain every answer; lookup *)
(* tables, matrices over GF(2), sparse matrices, vectors, graphs and set      *)
(* operations are compared with their mathematical definition.  Entries of    *)
(* real vectors are in quarters.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Episodes

VARIABLES ep, l, st
vars == <<ep, l, st>>
R == Eps[ep]
Abs(v) == IF v < 0 THEN -v ELSE v
Max(S) == CHOOSE v \in S : \A w \in S : w <= v
Min(S) == CHOOSE v \in S : \A w \in S : w >= v
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Fn(n, Op(_)) == [i \in 1..n |-> Op(i)]

------------------------------------------------------------------------------
\* bounded queue: the last cap elements pushed since the last setup, oldest first
Push(q, cap, v) == LET s == Append(q, v) IN IF Len(s) > cap THEN Tail(s) ELSE s
QueueAfter(o) == IF o.o = "setup" THEN [cap |-> o.a, q |-> << >>] ELSE [cap |-> st.cap, q |-> Push(st.q, st.cap, o.a)]
QueueVerdict(o, s) ==
    IF o.q # s.q THEN "the queue does not hold the most recent elements in order"
    ELSE IF o.n # Len(s.q) \/ o.cap # s.cap THEN "the size of the queue is wrong"
    ELSE IF Len(s.q) > 0 /\ (o.mn # Min(Range(s.q)) \/ o.mx # Max(Range(s.q)) \/ o.sum # Sum(s.q)) THEN "minimum, maximum or average of the queue is wrong"
    ELSE ""
\* disjoint sets: st maps every element to its class
SetsAfter(o) == IF o.o = "unite" THEN [i \in DOMAIN st |-> IF st[i] = st[o.a] THEN st[o.b] ELSE st[i]] ELSE st
SetsVerdict(o) ==
    CASE o.o = "unite" -> (IF o.r # (st[o.a] # st[o.b]) THEN "uniting two sets answers wrongly" ELSE "")
      [] o.o = "same" -> (IF o.r # (st[o.a] = st[o.b]) THEN "two elements are wrongly said to be in one set or not" ELSE "")
      [] OTHER -> (IF \E i, k \in DOMAIN st : (o.c[i] = o.c[k]) # (st[i] = st[k]) THEN "the representatives do not tell the sets apart"
                   ELSE IF \E i \in DOMAIN st : o.c[i] \notin DOMAIN st \/ st[o.c[i]] # st[i] THEN "the representative is not an element of the set" ELSE "")
\* one-to-one map: st is the sequence of pairs inserted
MapVerdict(o, s) ==
    IF o.n # Len(s) \/ o.e \/ o.x THEN "the size or the keys of the map are wrong"
    ELSE IF \E i \in 1..Len(s) : o.f[i] # s[i][2] THEN "a forward lookup is wrong"
    ELSE IF \E i \in 1..Len(s) : o.r[i] # s[i][1] THEN "a reverse lookup is wrong"
    ELSE ""

\* learner: st counts the trials of every alternative; the alternative announced is
\* tried next, alternatives never tried come first, then one with the largest bound
LearnAfter(o) == [st EXCEPT ![o.a] = @ + 1]
LearnVerdict(o, s) ==
    LET un == {i \in DOMAIN s : s[i] = 0}
    IN IF o.a \notin DOMAIN st \/ o.b \notin DOMAIN s THEN "an alternative is chosen which does not exist"
       ELSE IF o.ns # s \/ o.tot # Sum(s) THEN "the number of trials is wrong"
       ELSE IF un # {} /\ o.b \notin un THEN "an alternative never tried is passed over"
       ELSE IF un = {} /\ \E i \in DOMAIN s : o.up[i] > o.up[o.b] THEN "the alternative chosen has not the largest bound"
       ELSE ""

TextVerdict ==
    LET s == R.s
        ink == {i \in 1..Len(s) : s[i] # 32}
        NoSp(c) == c # 32
        NoEol(c) == c \notin {10, 13}
    IN IF R.tr # (IF ink = {} THEN << >> ELSE SubSeq(s, Min(ink), Max(ink))) THEN "trimming a text is wrong"
       ELSE IF R.ds # SelectSeq(s, NoSp) \/ R.hs # (\E i \in 1..Len(s) : s[i] = 32) THEN "removing blanks is wrong"
       ELSE IF R.cr # SelectSeq(s, NoEol) THEN "removing the end of a line is wrong"
       ELSE IF R.rx # R.dir \o R.stem \/ R.rp # R.stem \o <<46>> \o R.ext \/ R.bn # R.stem THEN "taking a file name apart is wrong"
       ELSE ""

------------------------------------------------------------------------------
HashVerdict ==
    IF R.g # R.v THEN "a stored value is not found"
    ELSE IF \E i \in 1..Len(R.ab) : R.ab[i] # 0 THEN "a value is found for an absent key"
    ELSE IF R.bk < Len(R.v) THEN "the table is too small" ELSE ""

Par(v) == v % 2
Xor(a, b) == [i \in 1..Len(a) |-> Par(a[i] + b[i])]
RECURSIVE Comb(_, _)
Comb(A, T) == IF T = {} THEN [i \in 1..R.n |-> 0] ELSE LET t == CHOOSE t \in T : TRUE IN Xor(A[t], Comb(A, T \ {t}))
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
Prod(A, B, i, k, m) == Par(Sum([t \in 1..m |-> A[i][t] * B[t][k]]))
Ident(i, k) == IF i = k THEN 1 ELSE 0
\* a path of at least one arc
RECURSIVE Close(_, _)
Close(P, t) == IF t = 0 THEN P ELSE Close([i \in 1..R.n |-> [k \in 1..R.n |-> IF P[i][k] = 1 \/ (\E u \in 1..R.n : P[i][u] = 1 /\ P[u][k] = 1) THEN 1 ELSE 0]], t - 1)
GfVerdict ==
    LET n == R.n
        span == {Comb(R.A, T) : T \in SUBSET (1..n)}
    IN IF Cardinality(span) # Pow2(R.rk) THEN "the rank is wrong"
       ELSE IF R.rk = n /\ \E i, k \in 1..n : Prod(R.A, R.inv, i, k, n) # Ident(i, k) THEN "the inverse is not an inverse"
       ELSE IF \E i \in 1..n : R.w[i] # Par(Sum([t \in 1..n |-> R.A[i][t] * R.v[t]])) THEN "the product with a vector is wrong"
       ELSE IF \E i \in 1..n, k \in 1..R.cc : R.P[i][k] # Prod(R.A, R.C, i, k, n) THEN "the product of matrices is wrong"
       ELSE IF \E i, k \in 1..n : R.Id[i][k] # Ident(i, k) THEN "the identity is wrong"
       ELSE IF R.R # Close(R.A, 3) THEN "reachability is wrong"
       ELSE ""

Row(A, i, x) == Sum([k \in 1..R.m |-> A[i][k] * x[k]])
SparseVerdict ==
    LET n == R.n
        m == R.m
        Ax == [i \in 1..n |-> Row(R.A, i, R.x)]
        col(k) == Sum([i \in 1..n |-> Abs(R.A[i][k])])
        row(i) == Sum([k \in 1..m |-> Abs(R.A[i][k])])
        lin(b, g) == [i \in 1..n |-> R.al * Ax[i] + b * R.y[i] + g * R.z[i]]
    IN IF R.Ax # Ax THEN "the product of a sparse matrix with a vector is wrong"
       ELSE IF R.tr # m \/ R.tc # n \/ R.Aty # [k \in 1..m |-> Sum([i \in 1..n |-> R.A[i][k] * R.y[i]])] THEN "the transposed matrix is wrong"
       ELSE IF R.n1 # 4 * Max({col(k) : k \in 1..m}) \/ R.tn1 # 4 * Max({row(i) : i \in 1..n}) THEN "the norm of a matrix is wrong"
       ELSE IF R.l2 # lin(R.be, 0) \/ R.l3 # lin(R.be, R.ga) \/ R.l4 # lin(R.be, R.ga) THEN "a linear combination is wrong"
       ELSE IF 4 * R.dd # Sum([i \in 1..n |-> R.y[i] * Ax[i]]) THEN "the bilinear form is wrong"
       ELSE IF R.SRx # [i \in 1..n |-> R.dr[i] * Ax[i]] THEN "scaling of rows is wrong"
       ELSE IF R.SCx # [i \in 1..n |-> Sum([k \in 1..m |-> R.A[i][k] * R.dc[k] * R.x[k]])] THEN "scaling of columns is wrong"
       ELSE IF R.Dx # [k \in 1..m |-> R.dc[k] * R.x[k]] THEN "the product with a diagonal matrix is wrong"
       ELSE IF R.A2 # Ax THEN "an operation changed its operand"
       ELSE IF ~R.pos \/ \E i \in 1..n, k \in 1..m : Abs(R.back[i][k] - 1000000 * R.A[i][k]) > 10 THEN "the scaled matrix with its scalers is not the matrix"
       ELSE IF Abs(R.wn - R.wc) > 10 + R.wc \div 100000 THEN "the norm of a scaled matrix is wrong"
       ELSE ""

VectorVerdict ==
    LET n == R.n
        x == R.x
        y == R.y
        s == 4 * R.s
        F(Op(_)) == [i \in 1..n |-> Op(i)]
    IN IF R.add # [i \in 1..n |-> x[i] + y[i]] \/ R.s1 # R.add \/ R.sub # [i \in 1..n |-> x[i] - y[i]] \/ R.s2 # R.sub THEN "a sum or difference of vectors is wrong"
       ELSE IF R.neg # [i \in 1..n |-> -x[i]] THEN "the negative of a vector is wrong"
       ELSE IF R.adds # [i \in 1..n |-> x[i] + s] \/ R.sadd # R.adds \/ R.subs # [i \in 1..n |-> x[i] - s] \/ R.ssub # [i \in 1..n |-> s - x[i]] THEN "adding a number to a vector is wrong"
       ELSE IF R.mul # [i \in 1..n |-> R.s * x[i]] \/ R.mul2 # R.mul \/ R.half # x THEN "a multiple of a vector is wrong"
       ELSE IF R.cl # [i \in 1..n |-> IF x[i] < R.lo[i] THEN R.lo[i] ELSE IF x[i] > R.hi[i] THEN R.hi[i] ELSE x[i]] THEN "clamping a vector is wrong"
       ELSE IF R.cp # [i \in 1..n |-> IF x[i] < 0 THEN 0 ELSE x[i]] \/ R.cn # [i \in 1..n |-> IF x[i] > 0 THEN 0 ELSE x[i]] THEN "the positive or negative part of a vector is wrong"
       ELSE IF R.dot # Sum([i \in 1..n |-> x[i] * y[i]]) THEN "an inner product is wrong"
       ELSE IF R.sq # Sum([i \in 1..n |-> x[i] * x[i]]) \/ R.nn # R.sq \/ R.n1 # Sum([i \in 1..n |-> Abs(x[i])]) \/ R.di # Sum([i \in 1..n |-> (x[i] - y[i]) * (x[i] - y[i])]) THEN "a norm or distance is wrong"
       ELSE IF R.mx # Max(Range(x)) \/ R.mn # Min(Range(x)) THEN "the largest or smallest entry is wrong"
       ELSE IF R.ext # x \o y THEN "appending a vector is wrong"
       ELSE IF R.le # R.add THEN "the moving average is wrong"
       ELSE IF R.s3 # [i \in 1..n |-> R.al * x[i] + R.be * y[i]] \/ R.s4 # [i \in 1..n |-> R.al * x[i] + R.be * y[i] + R.ga * R.lo[i]] THEN "a linear combination is wrong"
       ELSE IF R.z # [i \in 1..n |-> 0] \/ R.same # x \/ R.x2 # x THEN "assigning operations are wrong"
       ELSE ""

\* the class of a node when only the arcs up to weight w count
RECURSIVE Reach(_, _, _)
Reach(Es, w, S) == LET N2 == S \cup {e[2] : e \in {e \in Es : e[3] <= w /\ e[1] \in S}} \cup {e[1] : e \in {e \in Es : e[3] <= w /\ e[2] \in S}}
                   IN IF N2 = S THEN S ELSE Reach(Es, w, N2)
GraphVerdict ==
    LET N == Range(R.N)
        E == Range(R.E)
        T == Range(R.T)
        classes == {Reach(E, 100, {v}) : v \in N}
    IN IF Range(R.gn) # N \/ Len(R.gn) # Cardinality(N) \/ R.ge # Len(R.E) THEN "nodes or edges of the graph are lost"
       ELSE IF Range(R.tn) # N \/ Len(R.tn) # Cardinality(N) THEN "the nodes of the spanning tree are not those of the graph"
       ELSE IF ~(T \subseteq E) THEN "the spanning tree has an edge of its own"
       ELSE IF Len(R.T) # Cardinality(N) - Cardinality(classes) THEN "the spanning tree has a wrong number of edges"
       ELSE IF \E e \in E : e[2] \notin Reach(T, e[3], {e[1]}) THEN "the spanning tree is not minimal"
       ELSE IF \E i \in 1..Len(R.N) : R.gd[i] # Cardinality({k \in 1..Len(R.E) : R.N[i] \in {R.E[k][1], R.E[k][2]}}) THEN "the edges listed for a node of the graph are wrong"
       ELSE IF ~R.inc \/ \E i \in 1..Len(R.N) : R.deg[i] # Cardinality({k \in 1..Len(R.T) : R.N[i] \in {R.T[k][1], R.T[k][2]}}) THEN "the edges listed for a node are wrong"
       ELSE ""

At(f, i) == IF \E p \in Range(f) : p[1] = i THEN (CHOOSE p \in Range(f) : p[1] = i)[2] ELSE 0
Has(f, i) == \E p \in Range(f) : p[1] = i
IsSet(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)
UtilVerdict ==
    LET A == Range(R.a)
        B == Range(R.b)
        W == Range(R.w)
        K == {i \in 1..5 : Has(R.f, i) \/ Has(R.g, i)}
    IN IF ~IsSet(R.in, A \cap B) \/ ~IsSet(R.in2, A \cap B) THEN "an intersection is wrong"
       ELSE IF ~IsSet(R.un, A \cup B) \/ ~IsSet(R.un2, A \cup B) THEN "a union is wrong"
       ELSE IF ~IsSet(R.tv, A) \/ ~IsSet(R.fv, W) THEN "the conversion between set and array is wrong"
       ELSE IF R.l1 # Sum([i \in 1..5 |-> Abs(At(R.f, i) - At(R.g, i))]) THEN "the distance of two maps is wrong"
       ELSE IF R.l0 # Cardinality({i \in K : ~(Has(R.f, i) /\ Has(R.g, i) /\ At(R.f, i) = At(R.g, i))}) THEN "the number of different entries of two maps is wrong"
       ELSE IF ~IsSet(R.fp, Range(R.f)) THEN "the conversion of a map is wrong"
       ELSE IF R.cnt # Cardinality({i \in 1..Len(R.w) : R.w[i] = R.c}) \/ R.dup # Len(R.w) - Cardinality(W) THEN "counting entries is wrong"
       ELSE IF R.wmin # Min(W) \/ R.wmax # Max(W) \/ R.wabs # Max({Abs(v) : v \in W}) THEN "the extreme entries are wrong"
       ELSE IF R.amin # Min({i \in 1..Len(R.w) : R.w[i] = Min(W)}) - 1 \/ R.amax # Min({i \in 1..Len(R.w) : R.w[i] = Max(W)}) - 1 THEN "the position of an extreme entry is wrong"
       ELSE IF R.rmin # Min(W) \/ R.rmax # Max(W) \/ R.rr # Max(W) - Min(W) \/ R.rabs # Max({Abs(v) : v \in W}) THEN "a range is wrong"
       ELSE IF R.seq # [i \in 1..(R.hi - R.lo) |-> R.lo + i - 1] \/ R.seq0 # [i \in 1..(R.hi - R.lo) |-> i - 1] THEN "a sequence is wrong"
       ELSE ""

------------------------------------------------------------------------------
After(o) == CASE R.kind = "queue" -> QueueAfter(o) [] R.kind = "sets" -> SetsAfter(o) [] R.kind = "learner" -> LearnAfter(o) [] OTHER -> Append(st, <<o.a, o.b>>)
StepVerdict(o) == CASE R.kind = "queue" -> QueueVerdict(o, QueueAfter(o))
                    [] R.kind = "sets" -> SetsVerdict(o)
                    [] R.kind = "learner" -> LearnVerdict(o, LearnAfter(o))
                    [] OTHER -> MapVerdict(o, Append(st, <<o.a, o.b>>))
Machine == R.kind \in {"queue", "sets", "bimap", "learner"}
Verdict == CASE R.kind = "hash" -> HashVerdict [] R.kind = "gf2" -> GfVerdict [] R.kind = "sparse" -> SparseVerdict
             [] R.kind = "vector" -> VectorVerdict [] R.kind = "graph" -> GraphVerdict [] R.kind = "util" -> UtilVerdict [] R.kind = "text" -> TextVerdict
             [] R.kind = "crash" -> "crash: " \o R.what

Start == IF R.kind = "queue" THEN [cap |-> R.cap0, q |-> << >>] ELSE IF R.kind = "sets" THEN [i \in 1..R.n |-> i] ELSE IF R.kind = "learner" THEN [i \in 1..R.n |-> 0] ELSE << >>
Init == ep \in 1..NEps /\ l = 0 /\ st = << >>
Goto(why, next) == l' = (IF why = "" THEN next ELSE IF Reject(ep, l, why) THEN -1 ELSE -1)
Next == \/ l = 0 /\ Machine /\ l' = 1 /\ st' = Start /\ UNCHANGED ep
        \/ l = 0 /\ ~Machine /\ Goto(Verdict, 1) /\ UNCHANGED <<ep, st>>
        \/ /\ Machine /\ l >= 1 /\ l <= Len(R.ops)
           /\ Goto(StepVerdict(R.ops[l]), l + 1)
           /\ st' = After(R.ops[l])
           /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
=============================================================================
