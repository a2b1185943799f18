------------------------------ MODULE BitField ------------------------------
(* A bit-field object: a configuration (width, numbering scheme, order) and *)
(* its stored bits, kept by weight (bits[k] has weight 2^(k-1)).            *)
(* Apply(o, c) is the one transition: what call c does to the object and    *)
(* what it answers.  A rejected call answers "ValueError" and changes       *)
(* nothing.                                                                 *)
EXTENDS Bits, FiniteSets

Numberings == {"LSB0", "LSB1", "MSB0", "MSB1"}
Orders     == {"MSBLEFT", "LSBLEFT"}
MaxWidth   == 64

\* ---- geometry: which weight an index names ------------------------------
Weight(c, i) == CASE c.num = "LSB0" -> i
                  [] c.num = "LSB1" -> i - 1
                  [] c.num = "MSB0" -> c.w - 1 - i
                  [] c.num = "MSB1" -> c.w - i
ValidIndex(c, i) == Weight(c, i) >= 0 /\ Weight(c, i) < c.w
\* the index that names a weight
IndexOf(c, k) == CASE c.num = "LSB0" -> k
                   [] c.num = "LSB1" -> k + 1
                   [] c.num = "MSB0" -> c.w - 1 - k
                   [] c.num = "MSB1" -> c.w - k
\* indices as drawn from left to right
Indices(c) == IF c.ord = "MSBLEFT" THEN [p \in 1..c.w |-> IndexOf(c, c.w - p)]
                                   ELSE [p \in 1..c.w |-> IndexOf(c, p - 1)]
\* a range is written left to right, both ends included
ValidRange(c, s, e) ==
    /\ ValidIndex(c, s) /\ ValidIndex(c, e)
    /\ IF c.ord = "MSBLEFT" THEN Weight(c, s) >= Weight(c, e)
                            ELSE Weight(c, s) <= Weight(c, e)
Lo(c, s, e) == IF Weight(c, s) < Weight(c, e) THEN Weight(c, s) ELSE Weight(c, e)
Hi(c, s, e) == IF Weight(c, s) < Weight(c, e) THEN Weight(c, e) ELSE Weight(c, s)
RWidth(c, s, e) == Hi(c, s, e) - Lo(c, s, e) + 1

\* ---- contents ------------------------------------------------------------
GetBit(o, i)        == o.bits[Weight(o.c, i) + 1]
RangeBits(o, s, e)  == SubSeq(o.bits, Lo(o.c, s, e) + 1, Hi(o.c, s, e) + 1)
PutBit(o, i, b)     == [o EXCEPT !.bits[Weight(o.c, i) + 1] = b]
PutRange(o, s, e, v) ==
    LET lo == Lo(o.c, s, e)  hi == Hi(o.c, s, e) IN
    [o EXCEPT !.bits = [k \in 1..o.c.w |->
        IF k - 1 >= lo /\ k - 1 <= hi
        THEN IF k - lo <= Len(v.bits) THEN v.bits[k - lo] ELSE 0
        ELSE o.bits[k]]]
AllBits(o, s, e, b) == \A k \in 1..RWidth(o.c, s, e) : RangeBits(o, s, e)[k] = b

\* ---- answers ---------------------------------------------------------------
Ok        == [k |-> "ok"]
Rejected  == [k |-> "ValueError"]
AnsInt(v) == [k |-> "int", v |-> v]
AnsBool(b) == [k |-> "bool", v |-> b]
AnsInts(s) == [k |-> "ints", v |-> s]
AnsNum(n) == [k |-> "int", v |-> IntOf(n)]

\* ---- construction ----------------------------------------------------------
NewLegal(c, v) == c.w <= MaxWidth /\ Fits(v, c.w)
NewObj(c, v)   == [c |-> c, bits |-> Pad(v.bits, c.w)]

Mutators == {"setbit", "setrange", "setvalue", "setall", "clearall", "set", "clear"}
Queries  == {"getbit", "getrange", "value", "int", "index", "width", "len", "maxval", "indices",
             "lsb", "msb", "repr", "isbit", "isbitset", "isbitclr", "isrange", "israngeset",
             "israngeclr", "numbering", "order"}

\* Is the call acceptable in this configuration?
Legal(c, x) ==
  CASE x.op \in {"getbit", "isbit", "isbitset", "isbitclr", "set", "clear"} -> ValidIndex(c, x.i)
    [] x.op = "setbit"   -> ValidIndex(c, x.i) /\ IsBitVal(x.v)
    [] x.op \in {"getrange", "israngeset", "israngeclr"} -> ValidRange(c, x.s, x.e)
    [] x.op = "isrange"  -> ValidRange(c, x.s, x.e) /\ IsBitVal(x.v)
    [] x.op = "setrange" -> ValidRange(c, x.s, x.e) /\ Fits(x.v, RWidth(c, x.s, x.e))
    [] x.op = "setvalue" -> Fits(x.v, c.w)
    [] OTHER -> TRUE

\* The object after an acceptable call
After(o, x) ==
  CASE x.op = "setbit"   -> PutBit(o, x.i, IF IsOne(x.v) THEN 1 ELSE 0)
    [] x.op = "set"      -> PutBit(o, x.i, 1)
    [] x.op = "clear"    -> PutBit(o, x.i, 0)
    [] x.op = "setrange" -> PutRange(o, x.s, x.e, x.v)
    [] x.op = "setvalue" -> [o EXCEPT !.bits = Pad(x.v.bits, o.c.w)]
    [] x.op = "setall"   -> [o EXCEPT !.bits = Ones(o.c.w)]
    [] x.op = "clearall" -> [o EXCEPT !.bits = Zeros(o.c.w)]
    [] OTHER -> o

Answer(o, x) ==
  CASE x.op = "getbit"     -> AnsNum(GetBit(o, x.i))
    [] x.op = "getrange"   -> AnsInt(Nat2(RangeBits(o, x.s, x.e)))
    [] x.op \in {"value", "int", "index"} -> AnsInt(Nat2(o.bits))
    [] x.op \in {"width", "len"} -> AnsNum(o.c.w)
    [] x.op = "maxval"     -> AnsInt(Nat2(Ones(o.c.w)))
    [] x.op = "indices"    -> AnsInts(Indices(o.c))
    [] x.op = "lsb"        -> AnsNum(IndexOf(o.c, 0))
    [] x.op = "msb"        -> AnsNum(IndexOf(o.c, o.c.w - 1))
    [] x.op = "repr"       -> AnsInts(Rev(o.bits))
    [] x.op = "isbit"      -> AnsBool(IntOf(GetBit(o, x.i)) = x.v)
    [] x.op = "isbitset"   -> AnsBool(GetBit(o, x.i) = 1)
    [] x.op = "isbitclr"   -> AnsBool(GetBit(o, x.i) = 0)
    [] x.op = "isrange"    -> AnsBool(AllBits(o, x.s, x.e, IF IsOne(x.v) THEN 1 ELSE 0))
    [] x.op = "israngeset" -> AnsBool(AllBits(o, x.s, x.e, 1))
    [] x.op = "israngeclr" -> AnsBool(AllBits(o, x.s, x.e, 0))
    [] x.op = "numbering"  -> AnsNum(CASE o.c.num = "LSB0" -> 0 [] o.c.num = "LSB1" -> 1
                                       [] o.c.num = "MSB0" -> 2 [] o.c.num = "MSB1" -> 3)
    [] x.op = "order"      -> AnsNum(IF o.c.ord = "MSBLEFT" THEN 0 ELSE 1)
    [] OTHER -> Ok

Apply(o, x) == IF Legal(o.c, x) THEN [o |-> After(o, x), r |-> Answer(o, x)]
                                ELSE [o |-> o, r |-> Rejected]
=============================================================================
