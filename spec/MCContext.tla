----------------------------- MODULE MCContext ------------------------------
(* Two contexts and a few records: every history of assignments, saves,     *)
(* loads and resets; the character set's laws as invariants of the model.   *)
EXTENDS Context
S == INSTANCE Charset
CONSTANTS Recs, Values, Touched, MaxOps
VARIABLES ctx, rec, n
vars == <<ctx, rec, n>>
G == [f \in Given |-> "given"]
None == [f \in {} |-> ""]
Init == ctx = [i \in 1..2 |-> New(G)] /\ rec = [r \in Recs |-> None] /\ n = 0
Assign(i) == \E f \in Touched, v \in Values : ctx' = [ctx EXCEPT ![i] = Put(@, f, v)] /\ UNCHANGED rec
DoSave(i) == \E r \in Recs : rec' = [rec EXCEPT ![r] = Save(ctx[i])] /\ UNCHANGED ctx
DoLoad(i) == \E r \in Recs : rec[r] # None /\ ctx' = [ctx EXCEPT ![i] = Load(@, rec[r])] /\ UNCHANGED rec
DoReset(i) == ctx' = [ctx EXCEPT ![i] = Reset(@)] /\ UNCHANGED rec
Next == n < MaxOps /\ n' = n + 1 /\ \E i \in 1..2 : Assign(i) \/ DoSave(i) \/ DoLoad(i) \/ DoReset(i)
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..2 : DOMAIN ctx[i] = Fields
Fixed == \A i \in 1..2 : \A f \in Given : ctx[i][f] = "given"
RoundTrip == \A i \in 1..2 : Load(Reset(ctx[i]), Save(ctx[i])) = [f \in Fields |-> IF f \in Saved THEN ctx[i][f] ELSE Reset(ctx[i])[f]]
ResetAgain == \A i \in 1..2 : Reset(Reset(ctx[i])) = Reset(ctx[i])
LoadThenSave == \A r \in Recs : rec[r] # None => \A i \in 1..2 : Save(Load(ctx[i], rec[r])) = rec[r]
\* a load changes nothing that is not saved; only one context changes at a time
Frame == [][\E i \in 1..2 : ctx'[i] = ctx[i]]_vars
RecordsKept == [][\A r \in Recs : rec'[r] # rec[r] => ctx' = ctx]_vars
CharsetLaws == n = 0 => S!Unambiguous /\ S!AlphaNumeric /\ S!Collates
=============================================================================
