-------------------------------- MODULE Deck --------------------------------
(* Decks: cards in the order of the source lines; "#" lines are no cards;   *)
(* in a file, a "$" line stands for the cards of the file it names.         *)
EXTENDS Card

\* fs: file name -> its lines.  A card of a deck: its text, the file and line it is from.
IncName(line) == LET w == WordsOf(Cols(line, 2, Len(line))) IN IF w = <<>> THEN <<>> ELSE <<w[1]>>
RECURSIVE Readable(_, _)
Readable(fs, name) == /\ name \in DOMAIN fs
                      /\ \A i \in 1..Len(fs[name]) : Starts(fs[name][i], "$") =>
                            IncName(fs[name][i]) # <<>> /\ Readable(fs, IncName(fs[name][i])[1])
RECURSIVE Expand(_, _, _)
Expand(fs, name, i) ==
   IF i > Len(fs[name]) THEN <<>>
   ELSE LET line == fs[name][i] IN
        (IF Starts(line, "#") THEN <<>>
         ELSE IF Starts(line, "$") THEN Expand(fs, IncName(line)[1], 1)
         ELSE <<[line |-> TextOf(line), file |-> <<name>>, num |-> i]>>) \o Expand(fs, name, i + 1)
FromFile(fs, name) == Expand(fs, name, 1)
RECURSIVE FromLinesAt(_, _)
FromLinesAt(lines, i) ==
   IF i > Len(lines) THEN <<>>
   ELSE (IF Starts(lines[i], "#") THEN <<>> ELSE <<[line |-> TextOf(lines[i]), file |-> <<>>, num |-> i]>>)
        \o FromLinesAt(lines, i + 1)
FromLines(lines) == FromLinesAt(lines, 1)

\* what reading a file tells, when asked to be verbose
RECURSIVE Told(_, _, _)
Told(fs, name, i) ==
   IF i = 0 THEN <<"Reading " \o name \o "...">> \o Told(fs, name, 1)
   ELSE IF i > Len(fs[name]) THEN <<>>
   ELSE LET line == fs[name][i] IN
        (IF Starts(line, "#") THEN <<"Skipping meta-comment, file " \o name \o ", line " \o ToString(i)>>
         ELSE IF Starts(line, "$") THEN Told(fs, IncName(line)[1], 0) ELSE <<>>) \o Told(fs, name, i + 1)

\* the log section of a deck: of its first L card
LCards(cards) == SelectSeq(cards, LAMBDA c : OrNothing(Cols(c.line, 1, 1)) = <<"L">>)
LogSection(cards) == IF LCards(cards) = <<>> THEN <<>> ELSE <<Strip(Cols(LCards(cards)[1].line, 9, 81))>>
LogColumn8(cards) == IF LCards(cards) = <<>> THEN <<>> ELSE OrNothing(Cols(LCards(cards)[1].line, 8, 8))
=============================================================================
