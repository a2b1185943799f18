------------------------------- MODULE Tools --------------------------------
(* The command line tools: what each of them prints, and what it leaves in  *)
(* the files, as functions of its arguments and the files.                  *)
(* fs: file name -> the text of the file.                                   *)
EXTENDS Symbols
E == INSTANCE Encoding
Vocab == E!Vocabulary
VocabSorted == Sorted(Vocab)

Num(n) == ToString(n)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET h == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, h)) \o Flat(SubSeq(ss, h + 1, Len(ss)))
If(c, s) == IF c THEN s ELSE <<>>
\* the lines of a text; a line end at the very end starts no further line
LinesOf(t) == LET q == Split(t, "\n") IN IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Lined(fs) == TLCEval([n \in DOMAIN fs |-> LinesOf(fs[n])])
AllReadable(fs, args) == \A i \in 1..Len(args) : Readable(Lined(fs), args[i])
CardsOf(fs, args) == LET lf == Lined(fs) IN Flat([i \in 1..Len(args) |-> FromFile(lf, args[i])])

\* ---- instruction reports -----------------------------------------------------
Where(c) == c.file[1] \o " " \o Num(c.num) \o " " \o c.line
\* a card as the instruction tools see it
Digest(c) == LET r == ArgusRecord(c.line, ArgusWidth) IN
             [card |-> c, instr |-> IF r["instruction"] = <<>> THEN "" ELSE r["instruction"][1],
              op |-> IF r["operation"] = <<>> THEN "" ELSE r["operation"][1], off |-> r["column8"] = <<"*">>]
Digests(cards) == TLCEval([i \in 1..Len(cards) |-> Digest(cards[i])])
HasInstr(d) == d.instr # ""
Valid1(d)   == HasInstr(d) /\ ~d.off /\ d.instr \in Vocab
Invalid(d)  == HasInstr(d) /\ ~d.off /\ d.instr \notin Vocab
Complaint(d) == <<"*** ERROR: Invalid instruction \"" \o d.instr \o "\":",
                  "File " \o d.card.file[1] \o ", line " \o Num(d.card.num) \o ": " \o d.card.line>>
Skip == "Skipping card with * in column 8:"
Body(ds, all, v) == Flat([i \in 1..Len(ds) |-> If(all /\ HasInstr(ds[i]), <<Where(ds[i].card)>>)
                                            \o If(v /\ HasInstr(ds[i]) /\ ds[i].off, <<Skip, Where(ds[i].card)>>)
                                            \o If(Invalid(ds[i]), Complaint(ds[i]))])
\* with --verbose, what is read and skipped is told, too
Chat(fs, args, v) == If(v, LET lf == Lined(fs) IN Flat([i \in 1..Len(args) |-> Told(lf, args[i], 0)]))
Bodies(fs, args, all, v) == Flat([i \in 1..Len(args) |-> Chat(fs, <<args[i]>>, v) \o Body(Digests(CardsOf(fs, <<args[i]>>)), all, v)])
NumberOf(ds, P(_)) == Cardinality({i \in 1..Len(ds) : P(ds[i])})
Tally(ds, m) == NumberOf(ds, LAMBDA d : Valid1(d) /\ d.instr = m)
Errors(n) == IF n = 1 THEN "1 error encountered." ELSE Num(n) \o " errors encountered."
\* 100*n/t with two decimals, ties to even
Percent(n, t) == LET x == n * 10000
                     q == x \div t
                     r == x % t
                     y == IF 2 * r > t \/ (2 * r = t /\ q % 2 = 1) THEN q + 1 ELSE q
                 IN Num(y \div 100) \o "." \o ZeroLeft(Num(y % 100), 2)
FreqLine(m, n, p) == PadRight(m, 8) \o " " \o PadLeft(Num(n), 6) \o "  " \o PadLeft(p, 6) \o "%"
Total(ds) == NumberOf(ds, HasInstr)
FreqOf(ds, m) == FreqLine(m, Tally(ds, m), Percent(Tally(ds, m), Max2(1, Total(ds))))
FreqHead(ds) == <<"", "Source lines: " \o Num(Len(ds)), "", "Instruction Frequencies:", FreqLine("Total", Total(ds), "100.00")>>
ShownInstr(ds, o) == SelectSeq(VocabSorted, LAMBDA m : ~o.unused \/ Tally(ds, m) > 0)
Unused(ds) == <<"", "Unused Instructions:">> \o SelectSeq(VocabSorted, LAMBDA m : Tally(ds, m) = 0)
\* the report in its three parts; the middle (frequencies) may be ordered by name or by frequency
CheckHead(fs, args, ds, o) == Bodies(fs, args, o.print, o.verbose) \o If(o.count, FreqHead(ds))
CheckFreq(ds, o) == If(o.count, LET s == ShownInstr(ds, o) IN [i \in 1..Len(s) |-> FreqOf(ds, s[i])])
CheckTail(ds, o) == If(o.unused, Unused(ds)) \o <<Errors(NumberOf(ds, Invalid))>>
\* lines ordered by frequency: the same lines, by falling count
CountIn(line) == Number(Strip(Cols(line, 9, 16)))
ByFrequency(lines) == \A i \in 1..Len(lines) - 1 : CountIn(lines[i]) >= CountIn(lines[i + 1])
SameLines(a, b) == Len(a) = Len(b) /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
CheckOk(fs, args, o, out) ==
  LET ds == Digests(CardsOf(fs, args)) h == CheckHead(fs, args, ds, o) f == CheckFreq(ds, o) t == CheckTail(ds, o)
      a == Len(h) b == a + Len(f) c == b + Len(t) IN
  /\ Len(out) = c
  /\ SubSeq(out, 1, a) = h
  /\ IF o.sort THEN SameLines(SubSeq(out, a + 1, b), f) /\ ByFrequency(SubSeq(out, a + 1, b)) ELSE SubSeq(out, a + 1, b) = f
  /\ SubSeq(out, b + 1, c) = t

\* lines with a given operation: "OP" any masking, "OP,MASK" exactly, "OP," any mask
Command(opcode) == Split(opcode, ",")[1]
Wanted(d, opcode) ==
  /\ d.op # "" /\ ~d.off
  /\ LET o == Without(d.op, " ")
         i == IF Has(o, ",") /\ ~Has(opcode, ",") THEN Split(o, ",")[1] ELSE o IN
     i = opcode \/ (Ends(opcode, ",") /\ Starts(i, opcode))
Detailed(c) == PadRight(c.file[1], 48) \o " " \o PadLeft(Num(c.num), 6) \o " " \o c.line
ListInstr(ds, opcode, details, v) ==
  Flat([i \in 1..Len(ds) |-> If(v /\ ds[i].op # "" /\ ds[i].off, <<Skip, Detailed(ds[i].card)>>)
                          \o If(Wanted(ds[i], opcode), <<IF details THEN Detailed(ds[i].card) ELSE ds[i].card.line>>)])
ListInstrs(fs, args, opcode, details, v) ==
  Flat([i \in 1..Len(args) |-> Chat(fs, <<args[i]>>, v) \o ListInstr(Digests(CardsOf(fs, <<args[i]>>)), opcode, details, v)])

\* ---- symbol reports ----------------------------------------------------------
\* the table of several files, and the number of errors of each
RECURSIVE BuildAll(_, _, _, _)
BuildAll(b, lfs, args, i) ==
  IF i > Len(args) THEN b
  ELSE LET r == Build(b.tab, lfs, args[i]) IN BuildAll([tab |-> r.tab, errs |-> Append(b.errs, Len(r.errs))], lfs, args, i + 1)
Built(fs, args) == BuildAll([tab |-> <<>>, errs |-> <<>>], Lined(fs), args, 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
PerFile(args, errs) == [i \in 1..Len(args) |-> args[i] \o ": " \o Num(errs[i]) \o " errors encountered building symbol table."]
IsPerFile(x) == Ends(x, " errors encountered building symbol table.")
ParseOut(fs, args, symerrs, debug, v) ==
  LET ds == Digests(CardsOf(fs, args)) IN
  Chat(fs, args, v) \o Bodies(fs, args, debug, v) \o <<"", "Source lines: " \o Num(Len(ds)), Errors(symerrs + NumberOf(ds, Invalid))>>
SegsOf(tab, n) == Sorted({k[2] : k \in DefsOf(tab, n)})
SubsOf(tab, n, g) == Sorted({k[3] : k \in {k \in DefsOf(tab, n) : k[2] = g}})
KindsOf(tab, n, g, s) == Sorted({k[4] : k \in {k \in DefsOf(tab, n) : k[2] = g /\ k[3] = s}})
DefLine(e, kind) == "        " \o PadRight("<" \o kind \o ">", 9) \o " " \o e.tag \o " "
                    \o PadRight(SegOf(e.file[1]) \o ":" \o Num(e.num), 38) \o "      " \o e.text
EachOf(s, F(_)) == Flat([i \in 1..Len(s) |-> F(s[i])])
ListSymbols(tab) ==
  EachOf(Sorted(NamesOf(tab)), LAMBDA n : <<n>> \o
    EachOf(SegsOf(tab, n), LAMBDA g : <<"  Segment: " \o g>> \o
      EachOf(SubsOf(tab, n, g), LAMBDA s : <<"    Subsegment: " \o s>> \o
        EachOf(KindsOf(tab, n, g, s), LAMBDA k : <<DefLine(tab[<<n, g, s, k>>], k)>>))))
\* check-symbols: on stderr
IsCheckLine(x) == \/ Starts(x, "ERROR: symbol ") \/ x = "Undefined symbols:" \/ Ends(x, " - No matches!")
                  \/ Ends(x, " errors checking symbol table.") \/ Starts(x, "Total: ")
ComplexLine(n) == "ERROR: symbol \"" \o n \o "\" has a complex assignment, but no simple assignment!"
CheckSymErr(tab, errs, complex, nargs) ==
  LET cs == IF complex THEN Sorted(ComplexOnly(tab)) ELSE <<>> IN
  [i \in 1..Len(cs) |-> ComplexLine(cs[i])]
  \o If(cs # <<>>, <<"Undefined symbols:">>
                   \o If(Absolute(tab) = {}, [i \in 1..Len(cs) |-> "  " \o cs[i] \o " - No matches!"])
                   \o <<Num(Len(cs)) \o " errors checking symbol table.">>)
  \o If(nargs > 1, <<"Total: " \o Num(Sum(errs) + Len(cs)) \o " errors encountered.">>)
\* and its suggestions on stdout: of each complex-only symbol, up to ten absolute symbols
Suggestion(n) == "  " \o n \o " - Possible matches: "
SuggestOk(tab, complex, out) ==
  LET cs == IF complex /\ Absolute(tab) # {} THEN Sorted(ComplexOnly(tab)) ELSE <<>> IN
  /\ Len(out) = Len(cs)
  /\ \A i \in 1..Len(cs) :
       /\ Starts(out[i], Suggestion(cs[i]))
       /\ LET w == WordsOf(Cols(out[i], Len(Suggestion(cs[i])) + 1, Len(out[i])))
              named == {x \in Absolute(tab) : x # ""} IN
          /\ {w[j] : j \in 1..Len(w)} \subseteq named
          /\ Len(w) <= 10 /\ Len(w) >= Min2(10, Cardinality(named)) - 1
          /\ Cardinality({w[j] : j \in 1..Len(w)}) = Len(w)

\* ---- listings and generators ---------------------------------------------------
ListName(arg) == SegOf(arg) \o ".lst"
ListLine(c) == PadRight(c.file[1], 64) \o " " \o PadRight(Num(c.num), 6) \o " " \o c.line
TextOfLines(ls) == Join(ls, "\n") \o (IF ls = <<>> THEN "" ELSE "\n")
Listing(fs, arg) == LET cs == FromFile(Lined(fs), arg) IN TextOfLines([i \in 1..Len(cs) |-> ListLine(cs[i])])
With(fs, n, t) == [x \in DOMAIN fs \cup {n} |-> IF x = n THEN t ELSE fs[x]]
ListTold(fs, args, v) == If(v, Flat([i \in 1..Len(args) |-> Chat(fs, <<args[i]>>, v) \o <<"Wrote listing file to " \o ListName(args[i])>>]))
\* argument after argument, up to one that cannot be read
RECURSIVE Listed(_, _, _)
Listed(fs, args, i) == IF i > Len(args) THEN [fs |-> fs, ok |-> TRUE]
  ELSE IF ~Readable(Lined(fs), args[i]) THEN [fs |-> fs, ok |-> FALSE]
  ELSE Listed(With(fs, ListName(args[i]), Listing(fs, args[i])), args, i + 1)

\* line numbers: args = <<start, end>> or with step, first and last column; numbers as typed
LegalNumber(a) == Digits(a) /\ Len(a) <= 6
Signed(a) == IF Starts(a, "-") THEN 0 - Number(Cols(a, 2, Len(a))) ELSE Number(a)
IsSigned(a) == Digits(IF Starts(a, "-") THEN Cols(a, 2, Len(a)) ELSE a)
LinesLegal(args) == /\ Len(args) >= 2 /\ LegalNumber(args[1]) /\ LegalNumber(args[2])
                    /\ \A i \in 3..Min2(5, Len(args)) : IsSigned(args[i])
                    /\ (Len(args) >= 3 => Signed(args[3]) # 0)
Arg(args, i, default) == IF Len(args) >= i THEN Signed(args[i]) ELSE default
RECURSIVE Range(_, _, _)
Range(a, b, s) == IF (s > 0 /\ a > b) \/ (s < 0 /\ a < b) THEN <<>> ELSE <<a>> \o Range(a + s, b, s)
NumWidth(args) == Max2(4, Max2(Len(Num(Number(args[2]))), Len(args[2])))
GenLine(n, w, first, last) == Rep(" ", first - 1) \o ZeroLeft(Num(n), w) \o Rep(" ", last + 2 - first - w)
GenLines(args) == LET r == Range(Number(args[1]), Number(args[2]), Arg(args, 3, 1)) IN
  [i \in 1..Len(r) |-> GenLine(r[i], NumWidth(args), Arg(args, 4, 2), Arg(args, 5, 7))]

\* page headings: the log section is the first L card's, or named by the first "# Filename:" line;
\* the pages are those of the last "# Pages:" line
Headed(lines, h) == SelectSeq(lines, LAMBDA x : Starts(x, h))
ThirdWord(x) == WordsOf(x)[3]
RECURSIVE Spaced(_)
Spaced(s) == LET k == Find(s, "_", 1) IN IF k = 0 THEN s ELSE Cols(s, 1, k - 1) \o " " \o Spaced(Cols(s, k + 1, Len(s)))
PagesText(fs, name) ==       \* <<>> when refused
  IF name \notin DOMAIN fs THEN <<>>
  ELSE LET lines == LinesOf(fs[name])
           cards == FromLines(lines)
           files == Headed(lines, "# Filename: ")
           pages == Headed(lines, "# Pages: ")
           log == IF LogSection(cards) # <<>> THEN LogSection(cards)
                  ELSE IF files # <<>> THEN <<Spaced(Split(ThirdWord(files[1]), ".")[1])>> ELSE <<>>
           col8 == IF LogSection(cards) = <<>> THEN "@" ELSE IF LogColumn8(cards) = <<>> THEN " " ELSE LogColumn8(cards)[1]
           range == IF pages = <<>> THEN <<>> ELSE Split(ThirdWord(pages[Len(pages)]), "-")
       IN IF log = <<>> \/ range = <<>> THEN <<>>
          ELSE LET a == Number(range[1])
                   b == IF Len(range) = 1 THEN a ELSE Number(range[2]) IN
               IF a > b THEN <<>>
               ELSE <<TextOfLines(<<"", "L      " \o col8 \o log[1]>> \o
                        Flat([k \in 1..(b - a + 1) |->
                          <<"", "# Page " \o Num(a + k - 1),
                            "#      " \o col8 \o PadRight(log[1], 72) \o " USER'S OWN PAGE NO." \o PadLeft(Num(k), 4)
                              \o "        PAGE" \o PadLeft(Num(k), 4), "">>]))>>
Paged(fs, name) == IF PagesText(fs, name) = <<>> THEN fs ELSE [fs EXCEPT ![name] = @ \o PagesText(fs, name)[1]]
=============================================================================
