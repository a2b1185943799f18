------------------------------ MODULE Charset -------------------------------
(* The H-800/1800 character set (high-speed printer): 64 six-bit codes.     *)
(* A character is shown by its code point; <<>> is a code without one.      *)
EXTENDS Integers, Sequences, FiniteSets
Graphics == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Ord(c) == <<31 + CHOOSE i \in 1..Len(Graphics) : SubSeq(Graphics, i, i) = c>>
Block == <<9608>>
NewLine == <<10>>
Blanks == {13, 14, 31, 46, 47, 48, 62, 63}
\* digits, and the three zones of letters
Zoned(c) == CASE c \in 0..9   -> <<48 + c>>
              [] c \in 17..25 -> <<65 + c - 17>>
              [] c \in 33..41 -> <<74 + c - 33>>
              [] c \in 50..57 -> <<83 + c - 50>>
Special == [c \in {10, 11, 12, 15, 16, 26, 27, 28, 29, 32, 42, 43, 45, 49, 58, 59, 60} |->
  Ord(CASE c = 10 -> "'" [] c = 11 -> "=" [] c = 12 -> ":" [] c = 15 -> "&" [] c = 16 -> "+" [] c = 26 -> ";" [] c = 27 -> "."
        [] c = 28 -> ")" [] c = 29 -> "%" [] c = 32 -> "-" [] c = 42 -> "#" [] c = 43 -> "$" [] c = 45 -> "\"" [] c = 49 -> "/"
        [] c = 58 -> "@" [] c = 59 -> "," [] c = 60 -> "(")]
Codes == 0..63
Char(c) == IF c \in Blanks THEN <<32>> ELSE IF c = 30 THEN Block ELSE IF c = 44 THEN <<>> ELSE IF c = 61 THEN NewLine
           ELSE IF c \in DOMAIN Special THEN Special[c] ELSE Zoned(c)
\* from characters back to codes: unique except for blanks
CodesOf(ch) == {c \in Codes : Char(c) = ch}
Alphabet == {Char(c) : c \in Codes}
Unambiguous == \A ch \in Alphabet \ {<<32>>} : Cardinality(CodesOf(ch)) = 1
AlphaNumeric == \A p \in (48..57) \cup (65..90) : <<p>> \in Alphabet
\* the collating order of digits and letters is that of their codes
Collates == \A c, d \in Codes : c < d /\ Char(c) # <<>> /\ Char(d) # <<>>
              /\ Char(c)[1] \in 65..90 /\ Char(d)[1] \in 65..90 => Char(c)[1] < Char(d)[1]
=============================================================================
