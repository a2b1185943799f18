------------------------------- MODULE Memory -------------------------------
(* Main memory: a bank is BankSize words of 48 bits; a module is 4 banks,   *)
(* an expansion module 8.  A word is an octal numeral without leading       *)
(* zeros; the memory is kept sparsely, as the words that are not zero, and  *)
(* word a of bank b has key b * BankSize + a.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BankSize, Digits          \* 2048 words of 16 octal digits

Banks(kind) == CASE kind = "bank" -> 1 [] kind = "module" -> 4 [] kind = "expansion" -> 8
Key(b, a)   == b * BankSize + a
ValidAddr(a) == a >= 0 /\ a < BankSize
ValidBank(kind, b) == b >= 0 /\ b < Banks(kind)
ValidWord(v) == Len(v) <= Digits /\ SubSeq(v, 1, 1) # "-"        \* 0 <= v < 8^Digits

New(kind) == [kind |-> kind, mem |-> <<>>]
Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE "0"
Put(m, k, v) == IF v = "0" THEN [j \in DOMAIN m \ {k} |-> m[j]] ELSE (k :> v) @@ m
PutAll(m, ks, v) == IF v = "0" THEN [j \in DOMAIN m \ ks |-> m[j]]
                    ELSE [j \in (DOMAIN m \cup ks) |-> IF j \in ks THEN v ELSE m[j]]
BankKeys(b) == Key(b, 0)..Key(b, BankSize - 1)
\* the non-zero words of a bank, as a set of <<address, word>>
NonZero(o, b) == {<<k - Key(b, 0), o.mem[k]>> : k \in DOMAIN o.mem \cap BankKeys(b)}

\* ---- which calls are acceptable ------------------------------------------
SliceOk(x) == x.s >= x.e \/ (ValidAddr(x.s) /\ ValidAddr(x.e - 1))    \* [s, e): both ends in the bank, or empty
Legal(o, x) ==
  CASE x.op = "read"  -> ValidBank(o.kind, x.b) /\ ValidAddr(x.a)
    [] x.op = "write" -> ValidBank(o.kind, x.b) /\ ValidAddr(x.a) /\ ValidWord(x.v)
    [] x.op = "slice" -> ValidBank(o.kind, x.b) /\ SliceOk(x)
    [] x.op = "fill"  -> ValidBank(o.kind, x.b) /\ SliceOk(x) /\ (x.s >= x.e \/ ValidWord(x.v))
    [] x.op = "iterset" -> ValidBank(o.kind, x.b) /\ ValidAddr(x.a) /\ ValidWord(x.v)
    [] x.op \in {"size", "banks"} -> TRUE
    [] x.op = "bankslice" -> x.s >= x.e \/ (ValidBank(o.kind, x.s) /\ ValidBank(o.kind, x.e - 1))
    [] OTHER -> ValidBank(o.kind, x.b)
After(o, x) ==
  CASE x.op \in {"write", "iterset"} -> [o EXCEPT !.mem = Put(o.mem, Key(x.b, x.a), x.v)]
    [] x.op = "fill"  -> [o EXCEPT !.mem = PutAll(o.mem, {Key(x.b, a) : a \in x.s..(x.e - 1)}, x.v)]
    [] x.op = "clear" -> [o EXCEPT !.mem = PutAll(o.mem, BankKeys(x.b) \cap DOMAIN o.mem, "0")]
    [] OTHER -> o
Read(o, x)  == Get(o.mem, Key(x.b, x.a))
Slice(o, x) == [k \in 1..(IF x.e > x.s THEN x.e - x.s ELSE 0) |-> Get(o.mem, Key(x.b, x.s + k - 1))]
=============================================================================
