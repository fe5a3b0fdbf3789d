---------------------------- MODULE AlgebraTrace ----------------------------
(* C13.  The modelling layer as a register machine.  State: variables (bounds, *)
(* fixing, value), registers holding linear forms (local expressions and       *)
(* elements of expression arrays) and constraints.  Every modelling operation  *)
(* has its textbook meaning, changes its target only, and a refused operation  *)
(* changes nothing.  Numbers are scaled by 64.  A linear form over nv          *)
(* variables is a sequence of nv+1 integers, the constant last; a constraint   *)
(* is a linear form followed by its sense.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Episodes

VARIABLES ep, l, st, ok
vars == <<ep, l, st, ok>>
SC == 64
BIGB == 1000000000

E == Eps[ep]
NV == E.nv
Zero(k) == [i \in 1..k |-> 0]
Plus(a, b) == [i \in 1..(NV + 1) |-> a[i] + b[i]]
Times(f, a) == [i \in 1..(NV + 1) |-> f * a[i]]
DivBy(a, f) == [i \in 1..(NV + 1) |-> IF f > 0 THEN a[i] \div f ELSE -(a[i] \div (-f))]
Unit(i) == [j \in 1..(NV + 1) |-> IF j = i THEN SC ELSE 0]
Const(c) == [j \in 1..(NV + 1) |-> IF j = NV + 1 THEN c ELSE 0]
Reg(q) == st[NV + q]
\* linear form of an operand
Val(o) == IF o.t = "s" THEN Const(o.i) ELSE IF o.t = "v" THEN Unit(o.i) ELSE Reg(o.i)

\* row-major enumeration of an array: indices of element f (from 0) and membership in a pattern
RECURSIVE Stride(_, _)
Stride(shape, d) == IF d = Len(shape) THEN 1 ELSE shape[d + 1] * Stride(shape, d + 1)
Size(shape) == IF Len(shape) = 0 THEN 1 ELSE shape[1] * Stride(shape, 1)
Index(shape, f, d) == (f \div Stride(shape, d)) % shape[d]
Selected(shape, pat) == {f \in 0..(Size(shape) - 1) : \A d \in 1..Len(shape) : pat[d] < 0 \/ Index(shape, f, d) = pat[d]}
Rank(S, f) == Cardinality({g \in S : g < f}) + 1
RECURSIVE SumOver(_, _, _)
SumOver(S, e, form) == IF S = {} THEN Zero(NV + 1)
                       ELSE LET f == CHOOSE g \in S : TRUE IN Plus(form[f], SumOver(S \ {f}, e, form))
\* sum / dot product over the selected part
Fold(e, dot) == LET S == Selected(e.shape, e.pat)
                    base(f) == IF e.vars THEN Unit(e.base + f + 1) ELSE Reg(3 + e.base + f + 1)
                IN SumOver(S, e, [f \in S |-> IF dot THEN Times(e.co[Rank(S, f)], base(f)) ELSE base(f)])

Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
B(x) == IF x THEN 1 ELSE 0
\* a variable: lb, ub, fixed, value, binary, can decrease, can increase
Var(lb, ub, fx, v, bin) == <<lb, ub, fx, v, bin, B(v > lb), B(v < ub)>>
SetBound(s, a, b) == Var(a, b, s[3], Clamp(s[4], a, b), B(a >= 0 /\ b <= 1))

Put(q, v) == [st EXCEPT ![NV + q] = v]
PutC(c, v) == [st EXCEPT ![NV + E.nr + c] = v]

Refused(e) == \/ e.op \in {"sum", "dot"} /\ e.wrong
              \/ e.op = "vbound" /\ e.a > e.b
              \/ e.op = "abound" /\ e.a2 > e.b2
              \/ e.op = "vset" /\ st[e.i][3] = 1 /\ st[e.i][4] # e.a

After(e) ==
    CASE e.op = "add"  -> Put(e.dst, Plus(Val(e.l), Val(e.r)))
      [] e.op = "sub"  -> Put(e.dst, Plus(Val(e.l), Times(-1, Val(e.r))))
      [] e.op = "mul"  -> Put(e.dst, Times(e.f, Val(e.l)))
      [] e.op = "div"  -> Put(e.dst, DivBy(Val(e.l), e.f))
      [] e.op = "neg"  -> Put(e.dst, Times(-1, Val(e.l)))
      [] e.op = "pos"  -> Put(e.dst, Val(e.l))
      [] e.op = "iadd" -> Put(e.dst, Plus(Reg(e.dst), Val(e.l)))
      [] e.op = "isub" -> Put(e.dst, Plus(Reg(e.dst), Times(-1, Val(e.l))))
      [] e.op = "imul" -> Put(e.dst, Times(e.f, Reg(e.dst)))
      [] e.op = "idiv" -> Put(e.dst, DivBy(Reg(e.dst), e.f))
      [] e.op = "sum"  -> Put(e.dst, Fold(e, FALSE))
      [] e.op = "dot"  -> Put(e.dst, Fold(e, TRUE))
      [] e.op = "solve" -> LET a == Reg(e.src) IN Put(e.dst, Times(IF a[e.i] > 0 THEN -1 ELSE 1, [a EXCEPT ![e.i] = 0]))
      [] e.op = "subst" -> LET a == Reg(e.dst) IN Put(e.dst, Plus([a EXCEPT ![e.i] = 0], Times(a[e.i] \div SC, Reg(e.src))))
      [] e.op = "con"  -> PutC(e.c, Append(Plus(Val(e.l), Times(-1, Val(e.r))), e.s))
      [] e.op = "ccopy" -> PutC(e.c, st[NV + E.nr + e.c2])
      [] e.op = "csel" -> PutC(e.c, Append(Plus(Fold(e, FALSE), Const(-SC)), 0))
      [] e.op = "vbound" -> [st EXCEPT ![e.i] = SetBound(@, e.a, e.b)]
      [] e.op = "abound" -> [q \in 1..Len(st) |-> IF q > e.base /\ q <= e.base + e.n THEN SetBound(st[q], e.a2, e.b2) ELSE st[q]]
      [] e.op = "vfix"   -> [st EXCEPT ![e.i] = Var(@[1], @[2], 1, e.a, @[5])]
      [] e.op = "vunfix" -> [st EXCEPT ![e.i] = Var(@[1], @[2], 0, @[4], @[5])]
      [] e.op = "vset"   -> [st EXCEPT ![e.i] = Var(@[1], @[2], @[3], e.a, @[5])]
      [] e.op = "vreset" -> [st EXCEPT ![e.i] = Var(-BIGB, BIGB, @[3], @[4], 0)]
      [] OTHER -> st

\* constraints are compared up to the side everything was moved to
SameCon(a, b) == a = b \/ (/\ a[NV + 2] = -b[NV + 2] /\ \A i \in 1..(NV + 1) : a[i] = -b[i])
Same(q, a, b) == IF q > NV + E.nr THEN SameCon(a, b) ELSE a = b

RECURSIVE DotV(_, _)
DotV(a, k) == IF k = 0 THEN a[NV + 1] ELSE a[k] * st[k][4] + DotV(a, k - 1)
Lo(a, k) == IF st[k][3] = 1 THEN a[k] * st[k][4] ELSE IF a[k] > 0 THEN a[k] * st[k][1] ELSE a[k] * st[k][2]
Hi(a, k) == IF st[k][3] = 1 THEN a[k] * st[k][4] ELSE IF a[k] > 0 THEN a[k] * st[k][2] ELSE a[k] * st[k][1]
RECURSIVE LoSum(_, _), HiSum(_, _)
LoSum(a, k) == IF k = 0 THEN a[NV + 1] ELSE (IF a[k] = 0 THEN 0 ELSE Lo(a, k)) + LoSum(a, k - 1)
HiSum(a, k) == IF k = 0 THEN a[NV + 1] ELSE (IF a[k] = 0 THEN 0 ELSE Hi(a, k)) + HiSum(a, k - 1)

Verdict(e, new) ==
    IF e.op = "crash" THEN "crash: " \o E.what
    ELSE IF Refused(e) THEN
         IF e.out = "exc" THEN IF Len(e.chg) = 0 THEN "" ELSE e.op \o ": a refused operation changed something"
         ELSE e.op \o ": an invalid operation was accepted"
    ELSE IF e.out = "exc" THEN e.op \o ": a valid operation was refused"
    ELSE IF \E c \in 1..Len(e.chg) : ~Same(e.chg[c].q, e.chg[c].v, new[e.chg[c].q]) THEN e.op \o ": wrong result"
    ELSE IF \E q \in 1..Len(st) : new[q] # st[q] /\ ~Same(q, new[q], st[q]) /\ \A c \in 1..Len(e.chg) : e.chg[c].q # q THEN e.op \o ": target did not change"
    ELSE IF e.op = "eval" /\ e.v # DotV(Reg(e.dst), NV) THEN "eval: wrong value"
    ELSE IF e.op = "eval" /\ e.fin /\ (e.lo # LoSum(Reg(e.dst), NV) \/ e.hi # HiSum(Reg(e.dst), NV)) THEN "eval: wrong range"
    ELSE IF e.op = "names" /\ (e.empty \/ e.distinct # e.total) THEN "names: elements of the model share a name"
    ELSE ""

Init == ep \in 1..NEps /\ l = 0 /\ st = E.init /\ ok = TRUE
Step == /\ ok /\ l < Len(E.ev)
        /\ LET e == E.ev[l + 1]
               new == IF e.op = "crash" \/ Refused(e) THEN st ELSE After(e)
               w == Verdict(e, new)
               \* follow the code's side for constraints
               next == [q \in 1..Len(st) |-> IF \E c \in 1..Len(e.chg) : e.chg[c].q = q /\ q > NV + E.nr
                                             THEN (CHOOSE c \in {e.chg[d] : d \in 1..Len(e.chg)} : c.q = q).v
                                             ELSE new[q]]
           IN IF w = "" THEN ok' = TRUE /\ st' = next ELSE Reject(ep, l + 1, w) /\ ok' = FALSE /\ st' = st
        /\ l' = l + 1 /\ UNCHANGED ep
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
