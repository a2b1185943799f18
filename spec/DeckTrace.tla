----------------------------- MODULE DeckTrace ------------------------------
(* Traces of real cards and decks.                                          *)
EXTENDS Deck, FiniteSets, TraceRun

Bad(c, name) == IF c THEN <<>> ELSE <<name>>
Set(s) == {s[i] : i \in 1..Len(s)}
Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
SameRecord(pairs, f) == Set(pairs) = Pairs(f) /\ Len(pairs) = Cardinality(DOMAIN f)
LineNum(n) == IF n = 0 THEN <<>> ELSE <<n>>

\* a card the code made of ev.line
CardClauses(ev) ==
  LET r == ev.res
      names == ev.names IN
  IF r.k # "card" THEN <<"card.made">>
  ELSE Bad(r.line = TextOf(ev.line), "card.line")
    \o Bad(r.str = TextOf(ev.line), "card.line")
    \o Bad(r.iscomment = IsComment(ev.line), "card.comment")
    \o Bad(r.comment = IF IsComment(ev.line) THEN <<TextOf(ev.line)>> ELSE <<>>, "card.comment")
    \o Bad(r.filename = ev.filename /\ r.linenum = ev.linenum, "card.origin")
    \o (IF IsComment(ev.line) THEN <<>>
        ELSE Bad(r.layout = Layout(ev.cols, ev.width), "card.layout")
          \o Bad(r.fields = Fields(ev.line, ev.cols, ev.width), "card.fields")
          \o Bad(r.stripped = Stripped(ev.line, ev.cols, ev.width), "card.stripped")
          \o Bad(SameRecord(r.record, CardRecord(ev.line, ev.cols, ev.width, names)), "card.record")
          \o Bad(r.recnum = LineNum(ev.linenum), "card.recnum"))

ArgusClauses(ev) ==
  LET r == ev.res IN
  IF r.k # "argus" THEN <<"argus.made">>
  ELSE LET want == ArgusRecord(ev.line, ev.width)
           got == Set(r.record)
           wrong == {n \in DOMAIN want : <<n, want[n]>> \notin got} IN
       Bad(r.line = TextOf(ev.line), "argus.cut")
    \o Bad(r.fields = Fields(ev.line, ArgusColumns, ev.width), "argus.cut")
    \o Bad(r.stripped = Stripped(ev.line, ArgusColumns, ev.width), "argus.cut")
    \o Bad(wrong \subseteq {"instruction"} /\ Cardinality(got) = Cardinality(DOMAIN want), "argus.record")
    \o Bad("instruction" \notin wrong, "argus.instruction")
    \o Bad(\A n \in DOMAIN Accessors : <<n, want[Accessors[n]]>> \in Set(r.acc), "argus.accessor")
    \o Bad(r.recnum = LineNum(ev.linenum), "argus.cut")

FSOf(files) == [n \in {files[i].name : i \in 1..Len(files)} |->
                  files[CHOOSE i \in 1..Len(files) : files[i].name = n].lines]
\* the deck the code made of want, a sequence of cards
DeckClauses(ev, want, lines) ==
  LET r == ev.res
      n == Len(want)
      F(i) == Fields(want[i].line, ev.cols, ev.width) IN
  IF r.k # "deck" THEN <<"deck.made">>
  ELSE IF Len(r.cards) # n \/ \E i \in 1..n : r.cards[i].line # want[i].line THEN <<"deck.cards">>
  ELSE Bad(\A i \in 1..n : r.cards[i].file = want[i].file /\ r.cards[i].num = want[i].num, "deck.origin")
    \o Bad(r.lines = lines, "deck.lines")
    \o Bad(Len(r.fields) = n /\ \A i \in 1..n : r.fields[i] = F(i), "deck.fields")
    \o Bad(Len(r.stripped) = n /\ \A i \in 1..n : r.stripped[i] = [j \in 1..Len(ev.cols) |-> OrNothing(F(i)[j])], "deck.stripped")
    \o Bad(Len(r.records) = n /\ \A i \in 1..n :
             SameRecord(r.records[i], IF ev.cls = "argus" THEN ArgusRecord(want[i].line, ev.width)
                                      ELSE CardRecord(want[i].line, ev.cols, ev.width, ArgusNames)), "deck.records")
    \o Bad(r.recnums = [i \in 1..n |-> <<want[i].num>>], "deck.records")
    \o Bad(r.str = Join([i \in 1..n |-> want[i].line], "\n"), "deck.str")
    \o (IF ev.cls = "argus" THEN Bad(r.log = LogSection(want) /\ r.log8 = LogColumn8(want), "deck.log") ELSE <<>>)
FileDeck(ev) ==
  LET fs == FSOf(ev.files) IN
  IF ~Readable(fs, ev.root) THEN Bad(ev.res.k \in {"exc", "ValueError"}, "deck.refuse")
  ELSE LET w == FromFile(fs, ev.root) IN DeckClauses(ev, w, [i \in 1..Len(w) |-> w[i].line])

DClauses(ev) ==
  CASE ev.op = "card"  -> CardClauses(ev)
    [] ev.op = "argus" -> ArgusClauses(ev)
    [] ev.op = "deck"  -> DeckClauses(ev, FromLines(ev.lines), ev.lines)
    [] ev.op = "filedeck" -> FileDeck(ev)
    [] ev.op = "nodeck" -> Bad(ev.res.k \in {"exc", "ValueError"}, "deck.refuse")
    [] OTHER -> <<>>
DStep(s, ev) == [st |-> s, bad |-> DClauses(ev)]
DSt0 == 0
=============================================================================
