---------------------------- MODULE MCRegisters -----------------------------
(* A small register file: every history, every call.                        *)
EXTENDS Registers
CONSTANT Kinds
VARIABLES o
Id(op, g, r) == [op |-> op, g |-> g, r |-> r, byname |-> FALSE, n |-> ""]
Vs(w) == -1..(2 ^ w)
Calls(q) ==
  LET Gs == -1..Groups(q.kind)  Rs == -1..Regs(q.kind) IN
       [op : {"put", "replace"}, g : Gs, r : Rs, byname : {FALSE}, n : {""}, v : Vs(q.w)]
  \cup [op : {"put"}, g : Gs, r : {0}, byname : {TRUE}, n : {"AU1", "AU2", "??"}, v : {1}]
  \cup [op : {"putbit"}, g : Gs, r : Rs, byname : {FALSE}, n : {""}, i : 0..(q.w + 1), v : -1..2]
  \cup [op : {"putrange"}, g : Gs, r : Rs, byname : {FALSE}, n : {""}, s : 0..(q.w + 1), e : 0..(q.w + 1), v : Vs(q.w)]
  \cup [op : {"clear"}, g : Gs, r : Rs, byname : {FALSE}, n : {""}]
  \cup [op : {"cleargroup"}, g : Gs] \cup [op : {"replacegroup"}, g : Gs, v : {1}] \cup [op : {"clearall"}]
Init == \E k \in Kinds, w \in WidthsC : o = New(k, w)
Next == \E x \in Calls(o) : o' = IF Legal(o, x) THEN After(o, x) ELSE o
Spec == Init /\ [][Next]_o
TypeOK == \A k \in DOMAIN o.v : FitsIn(o.v[k], o.w)
Keys(q) == DOMAIN q.v
Isolation == \A x \in Calls(o) : LET n == IF Legal(o, x) THEN After(o, x) ELSE o IN
  \A k \in Keys(o) : n.v[k] # o.v[k] =>
     CASE x.op = "clearall" -> TRUE
       [] x.op \in {"cleargroup", "replacegroup"} -> k \div NRegs = x.g
       [] OTHER -> o.kind = "reg" \/ (k \div NRegs = x.g /\ k % NRegs = RegOf(x))
\* bit 1 is the most significant; ranges read back what was put and keep the other bits
Bits == \A k \in Keys(o), s, e \in 1..o.w : s <= e =>
   /\ GetRange(o.v[k], o.w, 1, o.w) = o.v[k]
   /\ \A n \in 0..(2 ^ (e - s + 1) - 1) :
        LET p == PutRange(o.v[k], o.w, s, e, n) IN
        /\ GetRange(p, o.w, s, e) = n
        /\ \A i \in 1..o.w : (i < s \/ i > e) => GetRange(p, o.w, i, i) = GetRange(o.v[k], o.w, i, i)
        /\ FitsIn(p, o.w)
ASSUME Cardinality(NameSet) = 32 /\ NameSet \cap AliasSet = {}
ASSUME \A k \in 0..31 : Number(NameOf(k)) = k /\ Number(AliasOf(k)) = k
=============================================================================
