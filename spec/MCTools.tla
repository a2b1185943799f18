------------------------------ MODULE MCTools -------------------------------
(* Every tool run on every small set of source files, in any order.         *)
EXTENDS Tools
CONSTANTS MaxLines, MaxRuns
VARIABLES src, fs, runs
OpCard(op, col8, lab) == "       " \o col8 \o PadRight(lab, 11) \o op
Lines1 == {OpCard("TS", " ", "A"), OpCard("TS,M", "*", ""), OpCard("XX", " ", "B,A"), OpCard("ASSIGN", " ", "A"),
           "# Pages: 2-3", "L      @LOG", "$b"}
Lines2 == {OpCard("TS , M", " ", "A"), "R" \o OpCard("TS", "", "A"), ""}
Texts(S, m) == {TextOfLines(x) : x \in UNION {[1..n -> S] : n \in 0..m}}
Init == /\ src \in {("a.x" :> t) @@ ("b" :> u) : t \in Texts(Lines1, MaxLines), u \in Texts(Lines2, 1)}
        /\ fs = src /\ runs = 0
Args == {<<"a.x">>, <<"b">>, <<"a.x", "b">>}
\* the tools that write
List == \E a \in Args : fs' = Listed(fs, a, 1).fs
Page == \E n \in {"a.x", "b"} : fs' = Paged(fs, n)
Next == runs < MaxRuns /\ runs' = runs + 1 /\ UNCHANGED src /\ (List \/ Page)
vars == <<src, fs, runs>>
Spec == Init /\ [][Next]_vars
\* sources are never lost: only appended to; new files are listings
Sources == \A n \in DOMAIN src : Starts(fs[n], src[n])
Listings == DOMAIN fs \subseteq DOMAIN src \cup {"a.lst", "b.lst"}
\* what the tools say, about the files as they are
DS(a) == Digests(CardsOf(fs, a))
Counts == \A a \in Args : LET ds == DS(a) IN
   /\ Total(ds) = NumberOf(ds, Valid1) + NumberOf(ds, Invalid) + NumberOf(ds, LAMBDA d : HasInstr(d) /\ d.off)
   /\ Sum([i \in 1..Len(VocabSorted) |-> Tally(ds, VocabSorted[i])]) = NumberOf(ds, Valid1)
   /\ Len(Body(ds, FALSE, FALSE)) = 2 * NumberOf(ds, Invalid)
\* being verbose only adds lines
Verbosity == \A a \in Args : LET ds == DS(a) IN
   /\ Len(Body(ds, FALSE, TRUE)) = Len(Body(ds, FALSE, FALSE)) + 2 * NumberOf(ds, LAMBDA d : HasInstr(d) /\ d.off)
   /\ Len(ListInstr(ds, "TS", FALSE, TRUE)) = Len(ListInstr(ds, "TS", FALSE, FALSE)) + 2 * NumberOf(ds, LAMBDA d : d.op # "" /\ d.off)
Additive == Built(fs, <<"a.x", "b">>).errs[1] = Built(fs, <<"a.x">>).errs[1]
            /\ DS(<<"a.x", "b">>) = DS(<<"a.x">>) \o DS(<<"b">>)
Subset == \A a \in Args : LET ds == DS(a) IN
   /\ \A o \in {"TS", "TS,", "TS,M"} : Len(ListInstr(ds, o, FALSE, FALSE)) = Len(ListInstr(ds, o, TRUE, FALSE))
   /\ Len(ListInstr(ds, "TS,M", FALSE, FALSE)) <= Len(ListInstr(ds, "TS,", FALSE, FALSE))
   /\ Len(ListInstr(ds, "TS,", FALSE, FALSE)) <= Len(ListInstr(ds, "TS", FALSE, FALSE))
   /\ Len(ListInstr(ds, "TS", FALSE, FALSE)) = Tally(ds, "TS")
SymbolsShown == \A a \in Args : LET t == Built(fs, a).tab IN
   Len(SelectSeq(ListSymbols(t), LAMBDA l : Starts(l, "        <"))) = Cardinality(DOMAIN t)
\* pages: every page once, in order
PageLines(n) == Len(SelectSeq(LinesOf(fs[n]), LAMBDA l : Starts(l, "# Page ")))
Pages == \A n \in {"a.x", "b"} : PageLines(n) % 2 = 0
\* line numbers
ASSUME Percent(1, 3) = "33.33" /\ Percent(2, 3) = "66.67" /\ Percent(1, 32) = "3.12" /\ Percent(3, 32) = "9.38" /\ Percent(7, 7) = "100.00"
ASSUME \A a \in 0..12, b \in 0..12, s \in {-3, -1, 1, 2, 5} : LET r == Range(a, b, s) IN
   /\ \A i \in 1..Len(r) : r[i] = a + (i - 1) * s
   /\ (s > 0 => (Len(r) > 0 <=> a <= b)) /\ (Len(r) > 0 => IF s > 0 THEN r[Len(r)] <= b /\ b < r[Len(r)] + s ELSE r[Len(r)] >= b /\ b > r[Len(r)] + s)
ASSUME \A n \in {0, 7, 99, 1000, 99999}, f \in 1..3, l \in 6..9 :
   LET w == Max2(4, Len(Num(n))) t == GenLine(n, w, f, l) IN
   f + w - 1 <= l + 1 => Len(t) = l + 1 /\ Number(Strip(t)) = n /\ Cols(t, f, f + w - 1) = ZeroLeft(Num(n), w)
=============================================================================
