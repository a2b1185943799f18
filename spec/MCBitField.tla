----------------------------- MODULE MCBitField -----------------------------
(* Exhaustive design check of BitField for every configuration of width     *)
(* 1..MaxW, every stored value and every call with an index just outside    *)
(* the range and a value just outside what fits.                            *)
EXTENDS BitField, TLC, Json, IOUtils
CONSTANT MaxW
VARIABLE o

Configs == [w : 1..MaxW, num : Numberings, ord : Orders]
IdxsOf(w) == -1..(w + 1)
ValsOf(w) == {IntOf(n) : n \in -1..(2 ^ w + 1)}
CallsOf(w) ==
       [op : {"getbit", "isbitset", "isbitclr", "set", "clear"}, i : IdxsOf(w)]
  \cup [op : {"setbit", "isbit"}, i : IdxsOf(w), v : {IntOf(n) : n \in -1..2}]
  \cup [op : {"getrange", "israngeset", "israngeclr"}, s : IdxsOf(w), e : IdxsOf(w)]
  \cup [op : {"isrange"}, s : IdxsOf(w), e : IdxsOf(w), v : {IntOf(n) : n \in -1..2}]
  \cup [op : {"setrange"}, s : IdxsOf(w), e : IdxsOf(w), v : ValsOf(w)]
  \cup [op : {"setvalue"}, v : ValsOf(w)]
  \cup [op : {"setall", "clearall", "value", "int", "index", "width", "len", "maxval", "indices",
              "lsb", "msb", "repr", "numbering", "order"}]

Init == \E c \in Configs, n \in 0..(2 ^ MaxW - 1) :
           NewLegal(c, IntOf(n)) /\ o = NewObj(c, IntOf(n))
Next == \E x \in CallsOf(o.c.w) : o' = Apply(o, x).o
Spec == Init /\ [][Next]_o

TypeOK == /\ o.c \in Configs /\ DOMAIN o.bits = 1..o.c.w
          /\ \A k \in 1..o.c.w : o.bits[k] \in {0, 1}

\* the scheme is a numbering: one index per bit, and left-to-right order is
\* exactly the order of the drawn indices
Geometry ==
  LET c == o.c  ix == Indices(c) IN
  /\ Cardinality({ix[p] : p \in 1..c.w}) = c.w
  /\ \A i \in IdxsOf(c.w) : ValidIndex(c, i) <=> \E p \in 1..c.w : ix[p] = i
  /\ \A s, e \in IdxsOf(c.w) :
       ValidRange(c, s, e) <=> \E p, q \in 1..c.w : p <= q /\ ix[p] = s /\ ix[q] = e
  /\ Weight(c, IndexOf(c, 0)) = 0
  /\ ix[IF c.ord = "MSBLEFT" THEN c.w ELSE 1] = IndexOf(c, 0)
  /\ ix[IF c.ord = "MSBLEFT" THEN 1 ELSE c.w] = IndexOf(c, c.w - 1)

\* what is written is read back, nothing else moves, and a range is its bits
ReadBack ==
  \A x \in {y \in CallsOf(o.c.w) : y.op \in {"setrange", "setbit"}} :
    LET a == Apply(o, x) IN
    IF ~Legal(o.c, x) THEN a.o = o /\ a.r = Rejected
    ELSE IF x.op = "setrange" THEN
           /\ Answer(a.o, [op |-> "getrange", s |-> x.s, e |-> x.e]).v = x.v
           /\ \A i \in {i \in IdxsOf(o.c.w) : ValidIndex(o.c, i)} :
                (Weight(o.c, i) < Lo(o.c, x.s, x.e) \/ Weight(o.c, i) > Hi(o.c, x.s, x.e))
                   => GetBit(a.o, i) = GetBit(o, i)
         ELSE /\ IntOf(GetBit(a.o, x.i)) = x.v
              /\ \A i \in {i \in IdxsOf(o.c.w) : ValidIndex(o.c, i)} :
                    i # x.i => GetBit(a.o, i) = GetBit(o, i)
RangeIsItsBits ==
  LET c == o.c  ix == Indices(c) IN
  /\ Nat2(RangeBits(o, ix[1], ix[c.w])) = Nat2(o.bits)
  /\ \A i \in IdxsOf(c.w) : ValidIndex(c, i) => RangeBits(o, i, i) = <<GetBit(o, i)>>
  /\ \A s, e \in IdxsOf(c.w) : ValidRange(c, s, e) =>
       /\ Small(RangeBits(o, s, e)) = (Small(o.bits) \div (2 ^ Lo(c, s, e))) % (2 ^ RWidth(c, s, e))
       /\ AllBits(o, s, e, 1) <=> Small(RangeBits(o, s, e)) = 2 ^ RWidth(c, s, e) - 1
       /\ AllBits(o, s, e, 0) <=> Small(RangeBits(o, s, e)) = 0
ValueInRange == Small(o.bits) >= 0 /\ Small(o.bits) < 2 ^ o.c.w
\* queries and refused calls never change the object
QueryPure == \A x \in CallsOf(o.c.w) : (x.op \in Queries \/ ~Legal(o.c, x)) => Apply(o, x).o = o

\* ---- the same call space, exported for replay against the implementation ----
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Export == TLCGet("stats").distinct > 0 /\ ("VERIF_GEN" \in DOMAIN IOEnv =>
            JsonSerialize(IOEnv.VERIF_GEN, [w \in 1..MaxW |-> SetSeq(CallsOf(w))]))
=============================================================================
