--------------------------- MODULE BitFieldTrace ----------------------------
(* Traces of real BitField objects against BitField.  The specification     *)
(* state is a function from object number to its object (or "lost", after   *)
(* the real object left the state space of the specification).              *)
EXTENDS BitField, TraceRun

Reads == {"getbit", "getrange", "value", "int", "index"}
Lost == [lost |-> TRUE]
IsLost(x) == "lost" \in DOMAIN x
Answers(a, b) == a.k = b.k /\ ("v" \in DOMAIN b => a.v = b.v)

Observed(ev, id) == SelectSeq(ev.obs, LAMBDA q : q.id = id)[1]
Resync(s, ev) == [id \in {ev.obs[k].id : k \in 1..Len(ev.obs)} |->
    LET q == Observed(ev, id)
        c == IF id \in DOMAIN s /\ ~IsLost(s[id]) THEN s[id].c ELSE ev.c IN
    IF (id \in DOMAIN s /\ IsLost(s[id])) \/ ~q.ok THEN Lost ELSE [c |-> c, bits |-> q.bits]]

\* clauses about objects the call was not addressed to
Bystanders(s, ev) ==
  IF \E k \in 1..Len(ev.obs) : LET q == ev.obs[k] IN
        q.id # ev.id /\ q.id \in DOMAIN s /\ ~IsLost(s[q.id]) /\ (~q.ok \/ q.bits # s[q.id].bits)
  THEN <<"bf.frame">> ELSE <<>>

NewClauses(s, ev) ==
  LET legal == ev.c.num \in Numberings /\ ev.c.ord \in Orders /\ NewLegal(ev.c, ev.v)
      made  == ev.res.k = "ok" IN
  IF ~legal THEN IF ev.res.k = "ValueError" THEN <<>> ELSE <<"bf.refuse">>
  ELSE IF ~made THEN <<"bf.accept.write">>
  ELSE LET q == Observed(ev, ev.id) IN
       IF ~q.ok THEN <<"bf.range">>
       ELSE IF q.bits # NewObj(ev.c, ev.v).bits THEN <<"bf.store">> ELSE <<>>

CallClauses(s, ev) ==
  LET o == s[ev.id]
      a == Apply(o, ev)
      q == Observed(ev, ev.id)
      same == q.ok /\ q.bits = a.o.bits
      legal == Legal(o.c, ev)
      range == IF q.ok THEN <<>> ELSE <<"bf.range">> IN
  range \o
  (IF ~legal
   THEN (IF ev.res.k = "ValueError" THEN <<>> ELSE <<"bf.refuse">>)
        \o (IF same THEN <<>> ELSE <<"bf.refused-change">>)
   ELSE IF ev.op \in Mutators
   THEN (IF ev.res.k # "ok" THEN <<"bf.accept.write">> ELSE <<>>)
        \o (IF same THEN <<>> ELSE <<"bf.store">>)
   ELSE (IF Answers(ev.res, a.r) THEN <<>>
         ELSE IF ev.res.k \in {"ValueError", "exc", "hang"}
              THEN IF ev.op \in Reads THEN <<"bf.accept.read">> ELSE <<"bf.accept.query">>
         ELSE IF ev.op \in Reads THEN <<"bf.read">> ELSE <<"bf.query">>)
        \o (IF same THEN <<>> ELSE <<"bf.pure">>))

BFStep(s, ev) ==
  IF ev.op = "reset" THEN [st |-> <<>>, bad |-> <<>>]
  ELSE IF ev.op = "new" THEN
     [st |-> Resync([k \in DOMAIN s \ {ev.id} |-> s[k]], ev), bad |-> NewClauses(s, ev) \o Bystanders(s, ev)]
  ELSE IF ev.id \notin DOMAIN s \/ IsLost(s[ev.id]) THEN [st |-> Resync(s, ev), bad |-> Bystanders(s, ev)]
  ELSE [st |-> Resync(s, ev), bad |-> CallClauses(s, ev) \o Bystanders(s, ev)]

BFSt0 == <<>>
=============================================================================
