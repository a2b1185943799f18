---------------------------- MODULE MemoryTrace -----------------------------
(* Traces of real memory banks and modules.  An event carries the non-zero  *)
(* words of the objects that were read out after the call (ev.nz).          *)
EXTENDS Memory, TraceRun

Lost == [lost |-> TRUE]
IsLost(x) == "lost" \in DOMAIN x
Refused(r) == r.k \in {"ValueError", "exc"}
Set(s) == {s[k] : k \in 1..Len(s)}
\* seq: the non-zero words as <<key, word>>, by rising key
RECURSIVE Find(_, _, _, _)
Find(seq, k, lo, hi) == LET m == (lo + hi) \div 2 IN
  IF seq[m][1] = k THEN seq[m][2] ELSE IF seq[m][1] < k THEN Find(seq, k, m + 1, hi) ELSE Find(seq, k, lo, m - 1)
AsMem(seq) == [k \in {seq[i][1] : i \in 1..Len(seq)} |-> Find(seq, k, 1, Len(seq))]
Same(seq, m) == /\ Len(seq) = Cardinality(DOMAIN m)
                /\ \A i \in 1..Len(seq) : seq[i][1] \in DOMAIN m /\ m[seq[i][1]] = seq[i][2]
Of(ev, id) == SelectSeq(ev.nz, LAMBDA q : q.id = id)
Seen(ev, id) == Of(ev, id) # <<>>
\* the words of object id as read out of the real object
Words1(ev, id) == AsMem(Of(ev, id)[1].w)

Resync(s, ev) == [id \in DOMAIN s \cup {ev.nz[k].id : k \in 1..Len(ev.nz)} |->
   IF ~Seen(ev, id) THEN s[id]
   ELSE IF ~Of(ev, id)[1].ok THEN Lost
   ELSE [kind |-> IF id = ev.id /\ ev.op = "new" THEN ev.kind ELSE s[id].kind, mem |-> IF id \in DOMAIN s /\ ~IsLost(s[id]) /\ Same(Of(ev, id)[1].w, s[id].mem) THEN s[id].mem ELSE Words1(ev, id)]]
Others(s, ev) ==
  IF \E k \in 1..Len(ev.nz) : LET q == ev.nz[k] IN
       q.id # ev.id /\ q.id \in DOMAIN s /\ ~IsLost(s[q.id]) /\ (~q.ok \/ ~Same(q.w, s[q.id].mem))
  THEN <<"mem.frame">> ELSE <<>>

Strs(r, v) == r.k = "strs" /\ r.v = v
Num(r, n)  == r.k = "int" /\ r.n = n
AnswerBad(o, ev) ==
  CASE ev.op = "read"   -> IF ev.res.k = "str" /\ ev.res.v = Read(o, ev) THEN <<>> ELSE <<"mem.read">>
    [] ev.op = "slice"  -> IF Strs(ev.res, Slice(o, ev)) THEN <<>> ELSE <<"mem.slice">>
    [] ev.op \in {"iter", "repr", "nested"} ->
         IF ev.res.k = "dump" /\ ev.res.n = BankSize /\ Set(ev.res.w) = NonZero(o, ev.b) THEN <<>>
         ELSE IF ev.op = "repr" THEN <<"mem.repr">> ELSE <<"mem.iter">>
    [] ev.op = "iterpart" ->
         IF ev.res.k = "dump" /\ ev.res.n = ev.a /\ Set(ev.res.w) = {p \in NonZero(o, ev.b) : p[1] < ev.a}
         THEN <<>> ELSE <<"mem.iter">>
    [] ev.op = "len"    -> IF Num(ev.res, BankSize) THEN <<>> ELSE <<"mem.size">>
    [] ev.op = "width"  -> IF Num(ev.res, 48) THEN <<>> ELSE <<"mem.size">>
    [] ev.op = "banks"  -> IF Num(ev.res, Banks(o.kind)) THEN <<>> ELSE <<"mem.size">>
    [] ev.op = "size"   -> IF Num(ev.res, Banks(o.kind) * BankSize) THEN <<>> ELSE <<"mem.size">>
    [] ev.op = "bankslice" ->     \* module[s:e] is the very banks s..e-1
         IF ev.res.k = "ints" /\ ev.res.v = [k \in 1..(IF ev.e > ev.s THEN ev.e - ev.s ELSE 0) |-> ev.s + k - 1]
         THEN <<>> ELSE <<"mem.banks">>
    [] OTHER -> IF ev.res.k = "ok" THEN <<>>
                ELSE IF ev.op = "fill" /\ ev.s >= ev.e /\ Refused(ev.res) THEN <<>>   \* nothing to store: either is fine
                ELSE IF ev.op = "clear" THEN <<"mem.clear">>
                ELSE IF ev.op = "fill" THEN <<"mem.accept.fill">>
                ELSE IF ev.op = "iterset" THEN <<"mem.iter">> ELSE <<"mem.accept">>

\* where a call that was refused for running off the end of the bank may have written
MayTouch(o, ev) == ev.op = "fill" /\ ValidBank(o.kind, ev.b) /\ ValidWord(ev.v) /\ ~SliceOk(ev)
Within(o, n, ev) == \A k \in DOMAIN o.mem \cup DOMAIN n :
   Get(o.mem, k) = Get(n, k) \/ (k \in {Key(ev.b, a) : a \in {a \in 0..(BankSize - 1) : a >= ev.s /\ a < ev.e}} /\ Get(n, k) = ev.v)

CallClauses(s, ev) ==
  LET o == s[ev.id]
      q == Of(ev, ev.id)[1]
      seen == Seen(ev, ev.id) IN
  IF ev.op = "audit" THEN IF ~seen \/ (q.ok /\ Same(q.w, o.mem)) THEN <<>> ELSE <<"mem.audit">>
  ELSE IF ~Legal(o, ev)
  THEN (IF Refused(ev.res) THEN <<>> ELSE <<"mem.refuse">>)
       \o (IF ~seen \/ (q.ok /\ (Same(q.w, o.mem) \/ (MayTouch(o, ev) /\ Within(o, AsMem(q.w), ev))))
           THEN <<>> ELSE <<"mem.refused-change">>)
  ELSE AnswerBad(o, ev)
       \o (IF ~seen THEN <<>>
           ELSE IF q.ok /\ Same(q.w, After(o, ev).mem) THEN <<>>
           ELSE CASE ev.op \in {"write", "iterset"} -> <<"mem.store">>
                  [] ev.op = "fill" -> <<"mem.fill">>
                  [] ev.op = "clear" -> <<"mem.clear">>
                  [] OTHER -> <<"mem.pure">>)
NewClauses(ev) ==
  IF ev.res.k # "ok" THEN <<"mem.accept">>
  ELSE IF Of(ev, ev.id)[1].ok /\ Of(ev, ev.id)[1].w = <<>> THEN <<>> ELSE <<"mem.blank">>

\* what the specification believes after the call, where the object was not read out
Believe(s, ev) == IF ev.op \in {"new", "audit"} \/ ev.id \notin DOMAIN s \/ IsLost(s[ev.id]) \/ ~Legal(s[ev.id], ev) THEN s
                  ELSE [s EXCEPT ![ev.id] = After(s[ev.id], ev)]
MStep(s, ev) ==
  IF ev.op = "reset" THEN [st |-> <<>>, bad |-> <<>>]
  ELSE [st |-> Resync(Believe(s, ev), ev),
        bad |-> Others(s, ev) \o
           (IF ev.op = "new" THEN NewClauses(ev)
            ELSE IF ev.id \notin DOMAIN s \/ IsLost(s[ev.id]) THEN <<>> ELSE CallClauses(s, ev))]
MSt0 == <<>>
=============================================================================
