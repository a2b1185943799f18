----------------------------- MODULE MCSymbols ------------------------------
(* Building the table card by card, from two files, over a small universe   *)
(* of cards; every history up to MaxCards cards.                            *)
EXTENDS Symbols
CONSTANTS MaxCards
VARIABLES b, seg, n, defs, skipped
C(col8, label, op, a) == [col8 |-> col8, label |-> label, lab |-> "", op |-> op, a |-> a, b |-> <<>>, c |-> <<>>,
                          lognum |-> <<>>, file |-> <<"f">>, num |-> 0, text |-> ""]
Ops == {<<"TS">>, <<"ASSIGN">>, <<"EQUALS">>}
Universe == {C(<<>>, l, o, a) : l \in {<<"A">>, <<"F, A">>, <<"B A">>}, o \in Ops, a \in {<<>>, <<"1">>}}
       \cup {C(<<>>, l, <<"TS">>, <<>>) : l \in {<<>>, <<"a">>, <<"A,B,C">>, <<"Q,A">>, <<"L,A">>}}
       \cup {C(<<>>, <<"A">>, <<>>, <<>>), C(<<"*">>, <<"A">>, <<"TS">>, <<>>), C(<<>>, <<>>, <<"SETLOC,2">>, <<>>),
             C(<<>>, <<"A">>, <<"SETLOC">>, <<>>), C(<<"*">>, <<>>, <<"SETLOC,3">>, <<>>)}
Init == b = Start(<<>>) /\ seg = "f" /\ n = 0 /\ defs = 0 /\ skipped = 0
Card1 == /\ n < MaxCards
         /\ \E c \in Universe :
              LET q == CardStep(b, seg, [c EXCEPT !.num = n + 1]) IN
              /\ b' = q /\ n' = n + 1 /\ UNCHANGED seg
              /\ defs' = defs + (IF c.col8 # <<"*">> /\ c.label # <<>> THEN 1 ELSE 0)
              /\ skipped' = skipped + (IF c.col8 # <<"*">> /\ c.label # <<>> /\ q.errs = b.errs /\ q.tab = b.tab THEN 1 ELSE 0)
NextFile == /\ n > 0 /\ n < MaxCards /\ seg = "f"
            /\ seg' = "g" /\ b' = [b EXCEPT !.sub = "1"] /\ UNCHANGED <<n, defs, skipped>>
Next == Card1 \/ NextFile
vars == <<b, seg, n, defs, skipped>>
Spec == Init /\ [][Next]_vars
\* every labelled card is either recorded, or an error, or an equivalent EQUALS
Accounted == Cardinality(DOMAIN b.tab) + Len(b.errs) + skipped = defs
\* what is recorded stays as it was first recorded; errors are never forgotten
FirstStays == [][/\ \A k \in DOMAIN b.tab : k \in DOMAIN b'.tab /\ b'.tab[k] = b.tab[k]
                 /\ SubSeq(b'.errs, 1, Len(b.errs)) = b.errs]_vars
OneStep == [][Cardinality(DOMAIN b'.tab) + Len(b'.errs) <= Cardinality(DOMAIN b.tab) + Len(b.errs) + 1]_vars
WellFormed == \A k \in DOMAIN b.tab : /\ ~Has(k[1], ",") /\ ~Has(k[1], " ") /\ ~AnyLower(k[1])
                                     /\ k[4] \in {"simple", "complex"} /\ b.tab[k].op # <<>>
                                     /\ b.tab[k].tag \in (Prefixes \ Unsupported) \cup {" "}
                                     /\ (k[4] = "complex") = (b.tab[k].op = <<"ASSIGN">>)
OnlyEquals == skipped > 0 => \E k \in DOMAIN b.tab : b.tab[k].op = <<"EQUALS">>
Queries == Absolute(b.tab) \cap ComplexOnly(b.tab) = {} /\ Absolute(b.tab) \cup ComplexOnly(b.tab) = NamesOf(b.tab)
ASSUME SegOf("./f.arg") = "./f" /\ SegOf("a.b/c") = "a.b/c" /\ SegOf(".hid") = ".hid" /\ SegOf("g.h.arg") = "g.h" /\ SegOf("x/.y.z") = "x/.y"
=============================================================================
