------------------------------- MODULE MCWord -------------------------------
(* Words of 4*G bits for small G: every word, every call.                   *)
EXTENDS Word
VARIABLE o
GVals == {IntOf(n) : n \in -1..(2 ^ G + 1)}
WVals == {IntOf(n) : n \in {-1, 0, 1, 2 ^ (4 * G) - 1, 2 ^ (4 * G), 2 ^ (4 * G) + 1}}
Calls == [op : {"setgroup"}, g : Groups, v : GVals] \cup [op : {"setvalue"}, v : WVals]
   \cup [op : {"value", "emit"}] \cup [op : {"group"}, g : Groups]
   \cup [op : {"setbit"}, i : 0..(4 * G + 1), v : {IntOf(0), IntOf(1)}]
Init == \E x \in [op : {"newiw"}, command : GVals, a : {IntOf(0), IntOf(1)}, b : {IntOf(0)}, c : GVals]
                 \cup [op : {"newword", "newconst"}, v : WVals] : WordLegal(x) /\ o = WordNew(x)
Next == \E x \in Calls : o' = IF WordLegal(x) THEN WordAfter(o, x) ELSE o
Spec == Init /\ [][Next]_o
\* the four groups partition the word: together they are the word, and no two share a bit
Partition == /\ \A g, h \in Groups : g # h => First(g)..Last(g) \cap First(h)..Last(h) = {}
             /\ UNION {First(g)..Last(g) : g \in Groups} = 1..(4 * G)
             /\ Small(o.bits) = Small(GroupVal(o, "command").bits) * 2 ^ (3 * G) + Small(GroupVal(o, "a").bits) * 2 ^ (2 * G)
                                + Small(GroupVal(o, "b").bits) * 2 ^ G + Small(GroupVal(o, "c").bits)
\* writing a group is read back and moves no other group
OneGroup == \A g \in Groups, v \in GVals : Fits(v, G) =>
    LET n == WordAfter(o, [op |-> "setgroup", g |-> g, v |-> v]) IN
    GroupVal(n, g) = v /\ \A h \in Groups \ {g} : GroupVal(n, h) = GroupVal(o, h)
Rebuild == NewIW([command |-> GroupVal(o, "command"), a |-> GroupVal(o, "a"), b |-> GroupVal(o, "b"), c |-> GroupVal(o, "c")]) = o
=============================================================================
