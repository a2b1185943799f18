-------------------------------- MODULE Card --------------------------------
(* Punch cards: a line of text, cut into fields by the columns at which     *)
(* they start; and the ARGUS reading of those fields.                       *)
EXTENDS Text

ArgusColumns == <<1, 2, 8, 9, 20, 33, 47, 61, 76, 81>>
ArgusNames == <<"column1", "lognum", "column8", "label", "operation",
                "operand1", "operand2", "operand3", "misc", "remarks">>
ArgusWidth == 120

IsComment(line) == Starts(line, "#")
TextOf(line) == Without(line, "\n")
\* the layout: start and width of each field; the last field ends at the card's width
Layout(cols, width) == [i \in 1..Len(cols) |->
   <<cols[i], IF i = Len(cols) THEN width - cols[i] + 1 ELSE cols[i + 1] - cols[i]>>]
Fields(line, cols, width) ==
   LET t == TextOf(line) IN
   [i \in 1..Len(cols) |-> Cols(t, cols[i], cols[i] + Layout(cols, width)[i][2] - 1)]
Stripped(line, cols, width) == LET f == Fields(line, cols, width) IN [i \in 1..Len(cols) |-> OrNothing(f[i])]
\* field name -> content or nothing
CardRecord(line, cols, width, names) ==
   LET f == Stripped(line, cols, width) IN
   [n \in {names[i] : i \in 1..Len(cols)} |-> f[CHOOSE i \in 1..Len(cols) : names[i] = n]]

\* ---- ARGUS
TextCard == {<<"P">>, <<"R">>, <<"L">>}     \* page heading, remark, log section: text from column 9 on
Blanked == {"label", "operation", "operand1", "operand2", "operand3", "misc"}
Instruction(op) == IF op # <<>> /\ Has(op[1], ",") THEN <<Strip(Split(op[1], ",")[1])>> ELSE op
ArgusRecord(line, width) ==
   LET r == CardRecord(line, ArgusColumns, width, ArgusNames)
       t == TextOf(line)
       q == IF r["column1"] \in TextCard
            THEN [n \in DOMAIN r |-> IF n \in Blanked THEN <<>>
                                     ELSE IF n = "remarks" THEN <<Strip(Cols(t, 9, Len(t)))>> ELSE r[n]]
            ELSE r
   IN [n \in DOMAIN q \cup {"instruction"} |-> IF n = "instruction" THEN Instruction(q["operation"]) ELSE q[n]]
\* the ARGUS names of the fields
Accessors == [column1 |-> "column1", lognum |-> "lognum", column8 |-> "column8", label |-> "label",
              location |-> "label", operation |-> "operation", operand1 |-> "operand1", addressa |-> "operand1",
              operand2 |-> "operand2", addressb |-> "operand2", operand3 |-> "operand3", addressc |-> "operand3",
              sequence |-> "misc", remarks |-> "remarks", instruction |-> "instruction"]
=============================================================================
