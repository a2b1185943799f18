------------------------------ MODULE MCSymTab ------------------------------
(* The symbol table object: every history of calls; resolving is done pass  *)
(* by pass, as the loop does it, and compared with its one-step meaning.    *)
EXTENDS Symbols
CONSTANTS Names, MaxOps, MaxPasses
VARIABLES o, n, pass, prev, goal
vars == <<o, n, pass, prev, goal>>
Idle == pass = -1
Init == o = Empty /\ n = 0 /\ pass = -1 /\ prev = 0 /\ goal = Empty
Vals == {<<>>, <<0>>, <<1>>}
Types == {<<>>, <<"absolute">>}
Do(c) == o' = After(o, c) /\ n' = n + 1 /\ UNCHANGED <<pass, prev, goal>>
E(name, v, t) == [name |-> name, value |-> v, type |-> t, file |-> "f", line |-> 1, seg |-> <<>>, sub |-> <<>>]
Call == /\ Idle /\ n < MaxOps
        /\ \/ \E x \in Names, v \in Vals, t \in Types : Do([op |-> "add"] @@ E(x, v, t))
           \/ \E x \in Names, v \in Vals \ {<<>>}, t \in Types : Do([op |-> "update"] @@ E(x, v, t))
           \/ Do([op |-> "prune"])
           \/ \E x \in Names : Do([op |-> "refer", name |-> x, ref |-> n])
BeginResolve == /\ Idle /\ n < MaxOps
                /\ \E p \in 0..MaxPasses : pass' = p /\ goal' = Resolve(o, p)
                /\ prev' = Len(o.undefs) /\ n' = n + 1 /\ UNCHANGED o
\* one pass: nothing left, or prune and stop where that made no progress
Pass == /\ pass > 0 /\ o.undefs # <<>>
        /\ o' = Prune(o) /\ prev' = Len(Prune(o).undefs)
        /\ pass' = IF Len(Prune(o).undefs) = prev THEN 0 ELSE pass - 1
        /\ UNCHANGED <<n, goal>>
EndResolve == /\ pass = 0 \/ (pass > 0 /\ o.undefs = <<>>)
              /\ pass' = -1 /\ UNCHANGED <<o, n, prev, goal>>
Next == Call \/ BeginResolve \/ Pass \/ EndResolve
Spec == Init /\ [][Next]_vars /\ WF_vars(Pass \/ EndResolve)
NoDup == \A i, j \in 1..Len(o.undefs) : i # j => o.undefs[i] # o.undefs[j]
UndefsKnown == \A i \in 1..Len(o.undefs) : o.undefs[i] \in DOMAIN o.syms
\* a symbol without a value is always on the list of undefined ones
NothingLost == \A x \in DOMAIN o.syms : ~Valid(o.syms[x]) => \E i \in 1..Len(o.undefs) : o.undefs[i] = x
ResolveMeaning == pass = 0 \/ (pass > 0 /\ o.undefs = <<>>) => o = goal
Resolves == (pass >= 0) ~> Idle
Monotone == [][DOMAIN o.syms \subseteq DOMAIN o'.syms]_vars
=============================================================================
