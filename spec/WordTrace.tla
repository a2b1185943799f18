----------------------------- MODULE WordTrace ------------------------------
(* Traces of real Word, InstructionWord and constant objects.               *)
EXTENDS Word, TraceRun

Lost == [lost |-> TRUE]
IsLost(x) == "lost" \in DOMAIN x
Answers(a, b) == a.k = b.k /\ ("v" \in DOMAIN b => a.v = b.v)
Observed(ev, id) == SelectSeq(ev.obs, LAMBDA q : q.id = id)[1]
Resync(ev) == [id \in {ev.obs[k].id : k \in 1..Len(ev.obs)} |->
    LET q == Observed(ev, id) IN IF q.ok THEN [c |-> WordConf, bits |-> q.bits] ELSE Lost]

\* the words observed through .value, and, of instruction words, through their groups
GroupsAgree(q) == ~q.iw \/ (q.ok => \A g \in Groups : q.g[g] = GroupVal([c |-> WordConf, bits |-> q.bits], g))
Others(s, ev) ==
  IF \E k \in 1..Len(ev.obs) : LET q == ev.obs[k] IN
        q.id # ev.id /\ q.id \in DOMAIN s /\ ~IsLost(s[q.id]) /\ (~q.ok \/ q.bits # s[q.id].bits)
  THEN <<"w.frame">> ELSE <<>>
Agree(ev) == IF \A k \in 1..Len(ev.obs) : GroupsAgree(ev.obs[k]) THEN <<>> ELSE <<"w.groups">>

Tag(ev, a, b) == IF ev.const THEN b ELSE a
NewClauses(ev) ==
  IF ~WordLegal(ev) THEN IF ev.res.k = "ValueError" THEN <<>> ELSE <<Tag(ev, "w.refuse", "k.refuse")>>
  ELSE IF ev.res.k # "ok" THEN <<Tag(ev, "w.accept", "k.accept")>>
  ELSE LET q == Observed(ev, ev.id) IN
       IF q.ok /\ q.bits = WordNew(ev).bits THEN <<>> ELSE <<Tag(ev, "w.store", "k.store")>>
CallClauses(s, ev) ==
  LET o == s[ev.id]
      q == Observed(ev, ev.id)
      legal == WordLegal(ev)
      same == q.ok /\ q.bits = (IF legal THEN WordAfter(o, ev) ELSE o).bits IN
  IF ~legal
  THEN (IF ev.res.k = "ValueError" THEN <<>> ELSE <<Tag(ev, "w.refuse", "k.refuse")>>)
       \o (IF same THEN <<>> ELSE <<Tag(ev, "w.refused-change", "k.refused-change")>>)
  ELSE (IF same THEN <<>> ELSE IF ev.op \in WordMutators THEN <<Tag(ev, "w.store", "k.store")>>
                               ELSE <<Tag(ev, "w.pure", "k.pure")>>)
       \o (IF Answers(ev.res, WordAnswer(o, ev)) THEN <<>>
           ELSE IF ev.res.k \in {"ValueError", "exc", "hang"} THEN <<Tag(ev, "w.accept", "k.accept")>>
           ELSE <<Tag(ev, "w.read", "k.read")>>)

WStep(s, ev) ==
  IF ev.op = "reset" THEN [st |-> <<>>, bad |-> <<>>]
  ELSE [st |-> Resync(ev),
        bad |-> Others(s, ev) \o Agree(ev) \o
                (IF ev.op \in {"newiw", "newword", "newconst"} THEN NewClauses(ev)
                 ELSE IF ev.id \notin DOMAIN s \/ IsLost(s[ev.id]) THEN <<>> ELSE CallClauses(s, ev))]
WSt0 == <<>>
=============================================================================
