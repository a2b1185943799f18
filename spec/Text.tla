-------------------------------- MODULE Text --------------------------------
(* Strings as the card code sees them.  Columns count from 1.               *)
EXTENDS Integers, Sequences, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* columns i..j of s, cut to what is there
Cols(s, i, j) == LET a == Max2(i, 1) b == Min2(j, Len(s)) IN IF a > b THEN "" ELSE SubSeq(s, a, b)
At(s, i) == SubSeq(s, i, i)

White == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE First(_, _)
First(s, i) == IF i > Len(s) THEN i ELSE IF At(s, i) \in White THEN First(s, i + 1) ELSE i
RECURSIVE Last(_, _)
Last(s, i) == IF i < 1 THEN 0 ELSE IF At(s, i) \in White THEN Last(s, i - 1) ELSE i
Strip(s) == Cols(s, First(s, 1), Last(s, Len(s)))
\* blank text is "nothing" (<<>>), other text is <<text>>
OrNothing(s) == LET t == Strip(s) IN IF t = "" THEN <<>> ELSE <<t>>

\* position of the first c at or after i; 0 if there is none
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE Find(s, c, i + 1)
Has(s, c) == Find(s, c, 1) > 0
Starts(s, p) == Len(p) <= Len(s) /\ Cols(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ Cols(s, Len(s) - Len(p) + 1, Len(s)) = p
\* s without any character c
RECURSIVE Without(_, _)
Without(s, c) == LET k == Find(s, c, 1) IN
                 IF k = 0 THEN s ELSE Cols(s, 1, k - 1) \o Without(Cols(s, k + 1, Len(s)), c)
\* s split at every c
RECURSIVE Split(_, _)
Split(s, c) == LET k == Find(s, c, 1) IN
               IF k = 0 THEN <<s>> ELSE <<Cols(s, 1, k - 1)>> \o Split(Cols(s, k + 1, Len(s)), c)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
\* the words of s
RECURSIVE WordsFrom(_, _)
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) \/ At(s, Min2(i, Len(s))) \in White THEN i - 1 ELSE WordEnd(s, i + 1)
WordsFrom(s, i) == LET a == First(s, i) IN
                   IF a > Len(s) THEN <<>> ELSE <<Cols(s, a, WordEnd(s, a))>> \o WordsFrom(s, WordEnd(s, a) + 1)
WordsOf(s) == WordsFrom(s, 1)

\* printing
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE IF n % 2 = 1 THEN c \o Rep(c, n - 1) ELSE LET h == Rep(c, n \div 2) IN h \o h
PadRight(s, n) == s \o Rep(" ", n - Len(s))
PadLeft(s, n)  == Rep(" ", n - Len(s)) \o s
ZeroLeft(s, n) == Rep("0", n - Len(s)) \o s

\* order of strings (by character code; the characters of the test alphabet)
Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {At(Chars, i) : i \in 1..Len(Chars)} |-> Find(Chars, c, 1)]
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i > Len(b) THEN FALSE
                   ELSE IF i > Len(a) THEN TRUE
                   ELSE IF At(a, i) = At(b, i) THEN LessAt(a, b, i + 1)
                   ELSE Code[At(a, i)] < Code[At(b, i)]
Less(a, b) == LessAt(a, b, 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Less(x, y) IN <<m>> \o Sorted(S \ {m})
Lower == {At("abcdefghijklmnopqrstuvwxyz", i) : i \in 1..26}
AnyLower(s) == \E i \in 1..Len(s) : At(s, i) \in Lower
RECURSIVE Number(_)        \* decimal digits -> number
Number(s) == IF s = "" THEN 0 ELSE Number(Cols(s, 1, Len(s) - 1)) * 10 + Find("0123456789", At(s, Len(s)), 1) - 1
Digits(s) == s # "" /\ \A i \in 1..Len(s) : Has("0123456789", At(s, i))
=============================================================================
