----------------------------- MODULE JsonTrace -----------------------------
(* C12 (documents).  The JSON grammar as a push-down automaton over lexemes.  *)
(* A document is its sequence of events: brackets, keys and values.  What the *)
(* library writes is grammatical and denotes the document given to it; what   *)
(* it reads from a grammatical text is the document the text denotes; a text  *)
(* with unbalanced brackets is refused.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Episodes

VARIABLES ep, l, ok
vars == <<ep, l, ok>>
E == Eps[ep]
Ev == E.ev[l]

Values == {"string", "int", "double", "bool", "null"}
\* m: what may come next ("V" a value, "V]" a value or ], "K" a key, "K}" a key or }, ":" a colon,
\* ",}" or ",]" a comma or the end, "E" nothing); s: stack of open brackets; o: events; g: still grammatical
Cont(s) == IF s = <<>> THEN "E" ELSE IF s[Len(s)] = "{" THEN ",}" ELSE ",]"
Push(c, x) == [m |-> IF x = "{" THEN "K}" ELSE "V]", s |-> Append(c.s, x), o |-> Append(c.o, <<x, "">>), g |-> TRUE]
Pop(c, x) == LET t == SubSeq(c.s, 1, Len(c.s) - 1) IN [m |-> Cont(t), s |-> t, o |-> Append(c.o, <<x, "">>), g |-> TRUE]
Fail(c) == [c EXCEPT !.g = FALSE]
Step(c, x) ==
    LET t == x[1] IN
    IF ~c.g THEN c
    ELSE IF c.m \in {"V", "V]"} /\ t \in {"{", "["} THEN Push(c, t)
    ELSE IF c.m \in {"V", "V]"} /\ t \in Values THEN [c EXCEPT !.m = Cont(c.s), !.o = Append(c.o, x)]
    ELSE IF c.m \in {"V]", ",]"} /\ t = "]" THEN Pop(c, "]")
    ELSE IF c.m \in {"K}", ",}"} /\ t = "}" THEN Pop(c, "}")
    ELSE IF c.m \in {"K", "K}"} /\ t = "string" THEN [c EXCEPT !.m = ":", !.o = Append(c.o, <<"key", x[2]>>)]
    ELSE IF c.m = ":" /\ t = ":" THEN [c EXCEPT !.m = "V"]
    ELSE IF c.m = ",}" /\ t = "," THEN [c EXCEPT !.m = "K"]
    ELSE IF c.m = ",]" /\ t = "," THEN [c EXCEPT !.m = "V"]
    ELSE Fail(c)
RECURSIVE Run(_, _, _)
Run(c, lex, i) == IF i > Len(lex) THEN c ELSE Run(Step(c, lex[i]), lex, i + 1)
Parse(lex) == Run([m |-> "V", s |-> <<>>, o |-> <<>>, g |-> TRUE], lex, 1)
Grammatical(p) == p.g /\ p.m = "E"
Count(lex, x) == Cardinality({i \in 1..Len(lex) : lex[i][1] = x})
Balanced(lex) == Count(lex, "{") = Count(lex, "}") /\ Count(lex, "[") = Count(lex, "]")

Expect(cond, why) == IF cond THEN TRUE ELSE Reject(ep, l, why) /\ FALSE
Verdict(e) ==
    IF e.op = "crash" THEN Reject(ep, l, e.why) /\ FALSE
    ELSE LET p == Parse(e.lex) IN
    /\ e.op = "write" => /\ Expect(Grammatical(p), "the file written is not JSON")
                         /\ Expect(p.o = E.doc, "the file written is another document")
    /\ (e.op = "read" /\ "damaged" \notin DOMAIN e) => Expect(Grammatical(p) /\ p.o = E.doc, "TOOL: the generated text is wrong")
    /\ Grammatical(p) => /\ Expect(e.out = "ok", "a valid file was refused")
                         /\ Expect(e.got = p.o, "a document was read differently from what the file says")
                         /\ Expect(e.look, "looking up a key gives another value")
    /\ ~Balanced(e.lex) => Expect(e.out = "refused", "a file with unbalanced brackets was accepted")

Init == ep \in 1..NEps /\ l = 1 /\ ok = TRUE
Next == /\ ok /\ l <= Len(E.ev)
        /\ ep' = ep
        /\ l' = l + 1
        /\ ok' = Verdict(Ev)
=============================================================================
