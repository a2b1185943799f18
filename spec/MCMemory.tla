------------------------------ MODULE MCMemory ------------------------------
(* Every history of a small memory (BankSize words of one octal digit).     *)
EXTENDS Memory
CONSTANTS Kinds, Words
VARIABLES o, last
Bs == -1..8
As == -1..BankSize
Calls(kind) ==
  LET B == -1..Banks(kind) IN
       [op : {"write", "iterset"}, b : B, a : As, v : Words \cup {"10", "-1"}]
  \cup [op : {"fill"}, b : B, s : As, e : -1..(BankSize + 1), v : Words \cup {"10"}]
  \cup [op : {"clear"}, b : B]
Init == o \in {New(k) : k \in Kinds} /\ last = [op |-> "none"]
Next == \E x \in Calls(o.kind) : /\ last' = x
                                 /\ o' = IF Legal(o, x) THEN After(o, x) ELSE o
Spec == Init /\ [][Next]_<<o, last>>
View == o
TypeOK == DOMAIN o.mem \subseteq 0..(Banks(o.kind) * BankSize - 1) /\ \A k \in DOMAIN o.mem : o.mem[k] # "0" /\ ValidWord(o.mem[k])
\* a write is read back and moves no other word of any bank; refused calls move none
Isolation == \A x \in Calls(o.kind) :
  LET n == IF Legal(o, x) THEN After(o, x) ELSE o IN
  \A b \in 0..(Banks(o.kind) - 1), a \in 0..(BankSize - 1) :
    LET hit == /\ Legal(o, x) /\ x.b = b
               /\ CASE x.op \in {"write", "iterset"} -> x.a = a
                    [] x.op = "fill" -> a >= x.s /\ a < x.e
                    [] OTHER -> TRUE IN
    Get(n.mem, Key(b, a)) = IF hit THEN (IF x.op = "clear" THEN "0" ELSE x.v) ELSE Get(o.mem, Key(b, a))
SliceReads == \A b \in 0..(Banks(o.kind) - 1), s, e \in 0..BankSize :
  Legal(o, [op |-> "slice", b |-> b, s |-> s, e |-> e]) =>
    \A k \in 1..Len(Slice(o, [b |-> b, s |-> s, e |-> e])) :
       Slice(o, [b |-> b, s |-> s, e |-> e])[k] = Read(o, [b |-> b, a |-> s + k - 1])
=============================================================================
