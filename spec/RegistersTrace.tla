--------------------------- MODULE RegistersTrace ---------------------------
(* Traces of real Register, RegisterGroup and Registers objects.  Every     *)
(* event carries the values of all registers of all live objects: ev.obs is *)
(* a sequence of [id, ok, v], v a sequence.                                 *)
EXTENDS RegisterHeap, TraceRun

Dead == [dead |-> TRUE]
IsDead(s) == "dead" \in DOMAIN s
Ids(ev) == {ev.obs[k].id : k \in 1..Len(ev.obs)}
Of(ev, id) == SelectSeq(ev.obs, LAMBDA q : q.id = id)[1]
\* do the observed values agree with the heap?
Agrees(h, q) == q.ok /\ q.id \in DOMAIN h.obj /\ q.v = Values(h, q.id)
AllAgree(h, ev) == Ids(ev) = DOMAIN h.obj /\ \A k \in 1..Len(ev.obs) : Agrees(h, ev.obs[k])
\* after a disagreement: the cells get the observed values (if these are consistent), else the rest is not judged
RECURSIVE Take(_, _, _)
Take(h, obs, k) ==
  IF k > Len(obs) THEN h
  ELSE LET q == obs[k]  c == CellsOf(h, q.id) IN
       Take([h EXCEPT !.cell = [n \in 1..Len(h.cell) |->
               IF n \in Range(c) THEN [h.cell[n] EXCEPT !.v = q.v[CHOOSE i \in 1..Len(c) : c[i] = n]] ELSE h.cell[n]]],
            obs, k + 1)
Resync(h, ev) ==
  IF AllAgree(h, ev) THEN h
  ELSE IF Ids(ev) # DOMAIN h.obj \/ \E k \in 1..Len(ev.obs) : ~ev.obs[k].ok THEN Dead
  ELSE LET n == Take(h, ev.obs, 1) IN IF AllAgree(n, ev) THEN n ELSE Dead
\* the objects the call did not address
OthersBad(h, ev) ==
  IF \E k \in 1..Len(ev.obs) : ev.obs[k].id # ev.id /\ ~Agrees(h, ev.obs[k]) THEN <<"reg.frame">> ELSE <<>>
Here(h, ev) == LET q == Of(ev, ev.id) IN Agrees(h, q)
Num(r, n) == r.k = "int" /\ r.n = n
Str(r, t) == r.k = "str" /\ r.v = t

\* names: pure functions
NameClauses(ev) ==
  CASE ev.op = "registerNumber" ->
         IF ev.n \in NameSet \cup AliasSet THEN IF Num(ev.res, Number(ev.n)) THEN <<>> ELSE <<"reg.names">>
         ELSE IF ev.res.k = "ValueError" THEN <<>> ELSE <<"reg.names">>
    [] ev.op = "registerName" ->
         IF ev.r \in 0..31 THEN IF Str(ev.res, NameOf(ev.r)) THEN <<>> ELSE <<"reg.names">>
         ELSE IF ev.res.k = "ValueError" THEN <<>> ELSE <<"reg.names">>
    [] ev.op = "registerAlias" ->
         IF ev.r \in 0..31 THEN IF Str(ev.res, AliasOf(ev.r)) THEN <<>> ELSE <<"reg.names">>
         ELSE IF ev.res.k = "ValueError" THEN <<>> ELSE <<"reg.names">>
NameFns == {"registerNumber", "registerName", "registerAlias"}

\* construction: a register may be given contents and a name
NewLegal(ev) == /\ ev.w \in WidthsC
                /\ ev.kind = "reg" => (ev.v >= 0 /\ ev.v < 2 ^ ev.w) /\ (ev.n = "" \/ ev.n \in NameSet \cup AliasSet)
NewStep(s, ev) ==
  LET gone == [s EXCEPT !.obj = [x \in DOMAIN s.obj \ {ev.id} |-> s.obj[x]]] IN
  IF ~NewLegal(ev)
  THEN IF ev.res.k = "ok" THEN [st |-> Dead, bad |-> <<"reg.refuse.new">>]
       ELSE [st |-> Resync(gone, ev), bad |-> OthersBad(gone, ev) \o (IF ev.res.k = "ValueError" THEN <<>> ELSE <<"reg.refuse.new">>)]
  ELSE IF ev.res.k # "ok" THEN [st |-> Dead, bad |-> <<"reg.accept">>]
  ELSE LET h == HNew(s, ev) IN
       [st |-> Resync(h, ev), bad |-> OthersBad(h, ev) \o (IF Here(h, ev) THEN <<>> ELSE <<"reg.new">>)]

Repl == {"replace", "replacegroup", "hold", "holdgroup", "install", "installgroup"}
AnswerBad(h, o, ev) ==
  CASE ev.op = "get"      -> IF Num(ev.res, Get(o, ev)) THEN <<>> ELSE <<"reg.read">>
    [] ev.op = "getbit"   -> IF Num(ev.res, GetRange(Get(o, ev), o.w, ev.i, ev.i)) THEN <<>> ELSE <<"reg.bits.read">>
    [] ev.op = "getrange" -> IF Num(ev.res, GetRange(Get(o, ev), o.w, ev.s, ev.e)) THEN <<>> ELSE <<"reg.bits.read">>
    [] ev.op = "name"     -> IF Str(ev.res, h.cell[CellOf(h, ev)].n) THEN <<>> ELSE <<"reg.names">>
    [] ev.op \in {"rwidth", "rlen", "gwidth", "fwidth"} -> IF Num(ev.res, o.w) THEN <<>> ELSE <<"reg.width">>
    [] ev.op = "rrepr"    -> IF Num(ev.res, Get(o, ev)) THEN <<>> ELSE <<"reg.repr">>
    [] ev.op = "grepr"    -> IF ev.res.k = "ints" /\ ev.res.v = GroupVals(o, ev.g) THEN <<>> ELSE <<"reg.repr">>
    [] ev.op = "glen"     -> IF Num(ev.res, NRegs) THEN <<>> ELSE <<"reg.count">>
    [] ev.op = "flen"     -> IF Num(ev.res, NGroups) THEN <<>> ELSE <<"reg.count">>
    [] ev.op = "itergroup" ->
         IF ev.res.k = "iter" /\ ev.res.v = GroupVals(o, ev.g) /\ ev.res.n = NamesIn(h, ev) THEN <<>> ELSE <<"reg.iter">>
    [] ev.op = "iterfile" ->
         IF ev.res.k = "ints" /\ ev.res.v = GroupOrder(h, ev.id) THEN <<>>
         ELSE IF ev.res.k = "ints" /\ ev.nth > 1 /\ ev.res.v = <<>> THEN <<"reg.iterfile.again">> ELSE <<"reg.iter">>
    [] OTHER -> IF ev.res.k = "ok" THEN <<>>
                ELSE CASE ev.op \in {"clear", "cleargroup", "clearall"} -> <<"reg.clear">>
                       [] ev.op = "itergroupset" -> <<"reg.iter">>
                       [] ev.op \in Repl -> <<"reg.replace">>
                       [] OTHER -> <<"reg.accept">>
MutBad(ev) == CASE ev.op = "put" -> <<"reg.store">>
                [] ev.op \in {"putbit", "putrange"} -> <<"reg.bits.store">>
                [] ev.op \in {"clear", "cleargroup", "clearall"} -> <<"reg.clear">>
                [] ev.op = "itergroupset" -> <<"reg.iter">>
                [] ev.op \in Repl -> <<"reg.replace">>
                [] OTHER -> <<"reg.pure">>
CallStep(s, ev) ==
  LET o == Local(s, ev) IN
  IF ~HLegal(s, ev)
  THEN [st |-> Resync(s, ev),
        bad |-> OthersBad(s, ev)
          \o (IF ev.res.k = "ValueError" \/ (ev.op \in {"replace", "replacegroup"} /\ ev.res.k = "exc") THEN <<>>
              ELSE IF Reach(o, [ev EXCEPT !.op = "get"]) THEN <<"reg.refuse.value">> ELSE <<"reg.refuse.reg">>)
          \o (IF Here(s, ev) THEN <<>> ELSE <<"reg.refused-change">>)]
  ELSE LET h == HAfter(s, ev) IN
       [st |-> Resync(h, ev),
        bad |-> OthersBad(h, ev) \o AnswerBad(s, o, ev) \o (IF Here(h, ev) THEN <<>> ELSE MutBad(ev))]
RStep(s, ev) ==
  IF ev.op = "reset" THEN [st |-> Empty, bad |-> <<>>]
  ELSE IF ev.op \in NameFns THEN [st |-> s, bad |-> NameClauses(ev)]
  ELSE IF ev.op = "new" /\ Ids(ev) \subseteq {ev.id} THEN NewStep(Empty, ev)
  ELSE IF IsDead(s) THEN [st |-> s, bad |-> <<>>]
  ELSE IF ev.op = "new" THEN NewStep(s, ev)
  ELSE IF ev.id \notin DOMAIN s.obj THEN [st |-> Dead, bad |-> <<>>]
  ELSE CallStep(s, ev)
RSt0 == Empty
=============================================================================
