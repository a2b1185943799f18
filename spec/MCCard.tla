------------------------------- MODULE MCCard -------------------------------
(* Design check of the card model: every line over Alphabet up to MaxLen,   *)
(* every layout of up to 3 fields in MaxCol columns.                        *)
EXTENDS Card, FiniteSets
CONSTANTS MaxLen, MaxCol
VARIABLES line, cols, width
Alphabet == {"A", " ", "#", ",", "\n"}
Layouts == {s \in UNION {[1..n -> 1..MaxCol] : n \in 1..3} : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
Init == line = "" /\ cols \in Layouts /\ width \in 0..MaxCol + 1
\* a card is punched one character after another
Next == Len(line) < MaxLen /\ \E c \in Alphabet : line' = line \o c /\ UNCHANGED <<cols, width>>
vars == <<line, cols, width>>
Spec == Init /\ [][Next]_vars

F == Fields(line, cols, width)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
\* the fields tile the card from the first column on: nothing lost, nothing twice
Tiling == width >= cols[Len(cols)] - 1 => Cat(F) = Cols(TextOf(line), cols[1], width)
NoNewline == \A i \in 1..Len(cols) : ~Has(F[i], "\n")
\* stripping only ever takes blanks, and is idempotent
StripOk == \A i \in 1..Len(cols) :
   /\ Strip(Strip(F[i])) = Strip(F[i])
   /\ (OrNothing(F[i]) = <<>>) <=> \A j \in 1..Len(F[i]) : At(F[i], j) \in White
   /\ Without(Without(F[i], " "), "\t") = Without(Without(Strip(F[i]), " "), "\t")
\* the record says the same as the stripped fields
RecordOk == LET names == <<"x", "y", "z">>  r == CardRecord(line, cols, width, names) IN
   \A i \in 1..Len(cols) : r[names[i]] = OrNothing(F[i])
SplitOk == Join(Split(line, ","), ",") = line
\* an instruction never contains a comma, and starts its operation
InstrOk == LET op == OrNothing(line) IN op # <<>> => ~Has(Instruction(op)[1], ",") /\ Starts(op[1], Instruction(op)[1])
\* punching one more character changes no earlier full field
Stable == [][\A i \in 1..Len(cols) : Len(F[i]) = Layout(cols, width)[i][2] => Fields(line', cols, width)[i] = F[i]]_vars
ASSUME \A i \in 1..Len(ArgusColumns) : Layout(ArgusColumns, ArgusWidth)[i] =
   <<<<1, 1>>, <<2, 6>>, <<8, 1>>, <<9, 11>>, <<20, 13>>, <<33, 14>>, <<47, 14>>, <<61, 15>>, <<76, 5>>, <<81, 40>>>>[i]
=============================================================================
