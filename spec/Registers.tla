----------------------------- MODULE Registers ------------------------------
(* The register file: NGroups groups of NRegs registers of 16 or 24 bits,   *)
(* or a single group, or a single register.  Bits are numbered from 1, the  *)
(* most significant.  Registers are also known by name.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NGroups, NRegs          \* 8 and 32
CONSTANT WidthsC                  \* {16, 24}

RegNames == << "AU1", "AU2", "SC", "CSC", "SH", "CSH", "UTR", "MXR",
               "X0", "X1", "X2", "X3", "X4", "X5", "X6", "X7",
               "R0", "R1", "R2", "R3", "R4", "R5", "R6", "R7",
               "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7" >>
AliasNames == << "RAC", "DRAC", "WAC", "DWAC" >>        \* of registers 28..31
NameSet  == {RegNames[k] : k \in 1..32}
AliasSet == {AliasNames[k] : k \in 1..4}
Number(n) == IF n \in NameSet THEN (CHOOSE k \in 1..32 : RegNames[k] = n) - 1
                              ELSE 27 + (CHOOSE k \in 1..4 : AliasNames[k] = n)
NameOf(k)  == RegNames[k + 1]
AliasOf(k) == IF k >= 28 THEN AliasNames[k - 27] ELSE RegNames[k + 1]

Groups(kind) == IF kind = "file" THEN NGroups ELSE 1
Regs(kind)   == IF kind = "reg" THEN 1 ELSE NRegs
Key(g, r)    == g * NRegs + r
ValidGroup(o, g) == g >= 0 /\ g < Groups(o.kind)
ValidReg(o, r)   == r >= 0 /\ r < Regs(o.kind)
FitsIn(v, w)     == v >= 0 /\ v < 2 ^ w

New(kind, w) == [kind |-> kind, w |-> w, v |-> [k \in 0..(Groups(kind) * Regs(kind) - 1) |-> 0]]
\* ---- bits ------------------------------------------------------------------
ValidBit(w, i) == i >= 1 /\ i <= w
ValidRange(w, s, e) == ValidBit(w, s) /\ ValidBit(w, e) /\ s <= e
GetRange(v, w, s, e) == (v \div 2 ^ (w - e)) % 2 ^ (e - s + 1)
PutRange(v, w, s, e, n) == v - GetRange(v, w, s, e) * 2 ^ (w - e) + n * 2 ^ (w - e)

\* ---- calls -------------------------------------------------------------------
\* the register a call means: by number (x.r) or by name (x.n, when x.byname)
KnownName(x) == ~x.byname \/ x.n \in NameSet
RegOf(x) == IF x.byname THEN Number(x.n) ELSE x.r
Reach(o, x) == ValidGroup(o, x.g) /\ (o.kind = "reg" \/ (KnownName(x) /\ ValidReg(o, RegOf(x))))
KeyOf(o, x) == IF o.kind = "reg" THEN 0 ELSE Key(x.g, RegOf(x))
RegOps == {"get", "put", "getbit", "putbit", "getrange", "putrange", "clear", "name", "width", "len", "repr"}
Legal(o, x) ==
  CASE x.op = "put"      -> Reach(o, x) /\ FitsIn(x.v, o.w)
    [] x.op = "getbit"   -> Reach(o, x) /\ ValidBit(o.w, x.i)
    [] x.op = "putbit"   -> Reach(o, x) /\ ValidBit(o.w, x.i) /\ x.v \in {0, 1}
    [] x.op = "getrange" -> Reach(o, x) /\ ValidRange(o.w, x.s, x.e)
    [] x.op = "putrange" -> Reach(o, x) /\ ValidRange(o.w, x.s, x.e) /\ FitsIn(x.v, x.e - x.s + 1)
    [] x.op = "replace"  -> o.kind # "reg" /\ Reach(o, x) /\ FitsIn(x.v, o.w)    \* group[r] = another register
    [] x.op \in {"clear", "get", "name", "rwidth", "rlen", "rrepr"} -> Reach(o, x)
    [] x.op \in {"itergroupset", "replacegroup"} -> ValidGroup(o, x.g) /\ FitsIn(x.v, o.w)
    [] x.op \in {"cleargroup", "itergroup", "glen", "gwidth", "grepr"} -> ValidGroup(o, x.g)
    [] OTHER -> TRUE
After(o, x) ==
  CASE x.op \in {"put", "replace"} -> [o EXCEPT !.v[KeyOf(o, x)] = x.v]
    [] x.op = "putbit"     -> [o EXCEPT !.v[KeyOf(o, x)] = PutRange(@, o.w, x.i, x.i, x.v)]
    [] x.op = "putrange"   -> [o EXCEPT !.v[KeyOf(o, x)] = PutRange(@, o.w, x.s, x.e, x.v)]
    [] x.op = "clear"      -> [o EXCEPT !.v[KeyOf(o, x)] = 0]
    [] x.op = "cleargroup" -> [o EXCEPT !.v = [k \in DOMAIN o.v |-> IF k \div NRegs = x.g THEN 0 ELSE o.v[k]]]
    [] x.op = "replacegroup" -> [o EXCEPT !.v = [k \in DOMAIN o.v |-> IF k \div NRegs = x.g THEN x.v ELSE o.v[k]]]
    [] x.op = "itergroupset" -> [o EXCEPT !.v[Key(x.g, x.r)] = x.v]
    [] x.op = "clearall"   -> [o EXCEPT !.v = [k \in DOMAIN o.v |-> 0]]
    [] OTHER -> o
Get(o, x) == o.v[KeyOf(o, x)]
GroupVals(o, g) == [k \in 1..NRegs |-> o.v[Key(g, k - 1)]]
=============================================================================
