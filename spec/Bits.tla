-------------------------------- MODULE Bits --------------------------------
(* Unbounded integers as sign + bits, because a word of the machine has 48  *)
(* bits, a bit-field up to 64, and callers may offer anything.              *)
(* An integer is [neg |-> BOOLEAN, bits |-> Seq({0,1})]: the magnitude,     *)
(* least significant bit first, with no zero in the highest place.          *)
EXTENDS Integers, Sequences

RECURSIVE Trim(_)
Trim(b) == IF b = <<>> THEN b
           ELSE IF b[Len(b)] = 1 THEN b
           ELSE Trim(SubSeq(b, 1, Len(b) - 1))

Nat2(b)    == [neg |-> FALSE, bits |-> Trim(b)]     \* bit string -> integer
Pad(b, w)  == [k \in 1..w |-> IF k <= Len(b) THEN b[k] ELSE 0]
Fits(v, w) == ~v.neg /\ Len(v.bits) <= w            \* 0 <= v < 2^w
Zeros(w)   == [k \in 1..w |-> 0]
Ones(w)    == [k \in 1..w |-> 1]
IsZero(v)  == v.bits = <<>>
IsOne(v)   == ~v.neg /\ v.bits = <<1>>
IsBitVal(v) == IsZero(v) \/ IsOne(v)

\* small non-negative machine integers, for constants written in the specification
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o BitsOf(n \div 2)
IntOf(n)  == IF n < 0 THEN [neg |-> TRUE, bits |-> BitsOf(-n)] ELSE [neg |-> FALSE, bits |-> BitsOf(n)]
RECURSIVE Small(_)
Small(b)  == IF b = <<>> THEN 0 ELSE b[1] + 2 * Small(Tail(b))

\* most significant first, as digits
Rev(b) == [k \in 1..Len(b) |-> b[Len(b) + 1 - k]]
=============================================================================
