---------------------------- MODULE OptionTrace ----------------------------
(* C12 (options).  State: the value of every option.  A file either is taken  *)
(* as a whole - what it mentions has the given value, everything else the     *)
(* default - or is refused and changes nothing; it is refused exactly when a  *)
(* value has the wrong type or names no known mode.  What is written or       *)
(* printed are the values in effect, and what was written reads back.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Episodes

VARIABLES ep, l, st, ok
vars == <<ep, l, st, ok>>
E == Eps[ep]
Ev == E.ev[l]
Def == E.init

Mode(i, s) == \E q \in 1..Len(E.enums[i]) : E.enums[i][q] = s.v
Legal(s) == CASE E.kinds[s.i] = "b" -> s.t = "b"
              [] E.kinds[s.i] = "i" -> s.t = "i"
              [] E.kinds[s.i] = "d" -> s.t \in {"d", "i"}
              [] E.kinds[s.i] = "e" -> s.t = "i" \/ (s.t = "s" /\ Mode(s.i, s))
\* modes may be given by their number
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Meaning(s) == IF E.kinds[s.i] = "e" /\ s.t = "i"
              THEN E.enums[s.i][CHOOSE q \in 1..Len(E.enums[s.i]) : Digits[q] = s.v] ELSE s.v
Given(set) == {set[q].i : q \in 1..Len(set)}
For(set, i) == set[CHOOSE q \in 1..Len(set) : set[q].i = i]
Loaded(set) == [i \in 1..Len(Def) |-> IF i \in Given(set) THEN Meaning(For(set, i)) ELSE Def[i]]

LegalLoad(e) == \A q \in 1..Len(e.set) : Legal(e.set[q])
After(e) == CASE e.op = "load" -> IF LegalLoad(e) THEN Loaded(e.set) ELSE st
              [] e.op = "assign" -> [st EXCEPT ![e.i] = e.v]
              [] e.op = "reset" -> Def
              [] OTHER -> st

Diff(a, b) == {i \in 1..Len(a) : a[i] # b[i]}
First(a, b) == LET i == CHOOSE i \in Diff(a, b) : \A j \in Diff(a, b) : i <= j IN <<E.names[i], a[i], b[i]>>
Good(e, n, why, got) == IF got = n THEN TRUE
                        ELSE Reject(ep, l, IF Len(got) = Len(n) THEN <<why, First(n, got)>> ELSE <<why>>) /\ FALSE
Verdict(e, n) ==
    CASE e.op = "crash" -> Reject(ep, l, e.why) /\ FALSE
      [] e.op = "load" -> IF e.out = "ok" /\ ~LegalLoad(e) THEN Reject(ep, l, <<"an option file with an ill-typed value was accepted", {E.names[e.set[q].i] : q \in {q \in 1..Len(e.set) : ~Legal(e.set[q])}}>>) /\ FALSE
                          ELSE IF e.out # "ok" /\ LegalLoad(e) THEN Reject(ep, l, "a valid option file was refused") /\ FALSE
                          ELSE Good(e, n, "an option file was not taken as written", e.o)
      [] e.op = "save" -> /\ Good(e, n, "the option values written differ from those in effect", e.f)
                          /\ IF e.out # "ok" THEN Reject(ep, l, "written options cannot be read") /\ FALSE
                             ELSE Good(e, n, "written options read back differently", e.o)
      [] e.op = "print" -> Good(e, n, "the option values printed differ from those in effect", e.f)
      [] OTHER -> Good(e, n, "an option changed by itself", e.o)

Init == ep \in 1..NEps /\ l = 1 /\ st = Def /\ ok = TRUE
Next == /\ ok /\ l <= Len(E.ev)
        /\ ep' = ep
        /\ l' = l + 1
        /\ st' = After(Ev)
        /\ ok' = Verdict(Ev, After(Ev))
=============================================================================
