----------------------------- MODULE ToolsTrace -----------------------------
(* Runs of the real tools.  ev.files: the files before the run; ev.after:   *)
(* all files after it; ev.out, ev.err: the lines printed; ev.code.          *)
EXTENDS Tools, TraceRun

Bad(c, name) == IF c THEN <<>> ELSE <<name>>
FS(list) == TLCEval([n \in {list[i].name : i \in 1..Len(list)} |-> list[CHOOSE i \in 1..Len(list) : list[i].name = n].text])
SetOf(s) == {s[i] : i \in 1..Len(s)}
Refused(ev, c) == Bad(ev.code # 0, c)
Ran(ev, c) == Bad(ev.code = 0, c)

\* ---- what the tools print
Shown2(tab, keys) == {[seg |-> k[2], sub |-> k[3], type |-> k[4], file |-> tab[k].file, num |-> tab[k].num,
                       lognum |-> tab[k].lognum, tag |-> tab[k].tag] : k \in keys}
FindOk(tab, ev) ==
  IF ev.begin \/ ev.end
  THEN LET m == Sorted({n \in NamesOf(tab) : (ev.begin /\ Starts(n, ev.symbol)) \/ (ev.end /\ Ends(n, ev.symbol))}) IN
       IF m = <<>> THEN ev.found.k = "nothing" ELSE ev.found.k = "names" /\ ev.found.v = m
  ELSE IF ev.fuzzy
  THEN IF Absolute(tab) = {} THEN ev.found.k = "nothing"
       ELSE /\ ev.found.k = "names" /\ SetOf(ev.found.v) \subseteq Absolute(tab)
            /\ Len(ev.found.v) = Min2(10, Cardinality(Absolute(tab))) /\ Cardinality(SetOf(ev.found.v)) = Len(ev.found.v)
            /\ ev.symbol \in Absolute(tab) => ev.symbol \in SetOf(ev.found.v)
  ELSE IF ev.symbol \notin NamesOf(tab) THEN ev.found.k = "nothing"
  ELSE ev.found.k = "defs" /\ SetOf(ev.found.v) = Shown2(tab, DefsOf(tab, ev.symbol))
       /\ Len(ev.found.v) = Cardinality(DefsOf(tab, ev.symbol))
Conflict(ev) == Cardinality({x \in {<<"b", ev.begin>>, <<"e", ev.end>>, <<"x", ev.exact>>, <<"f", ev.fuzzy>>} : x[2]}) > 1

\* the talk of --verbose comes first
Talked(fs, ev) == LET t == Chat(fs, ev.args, ev.verbose) IN SubSeq(ev.out, 1, Min2(Len(t), Len(ev.out))) = t
Rest(fs, ev) == SubSeq(ev.out, Len(Chat(fs, ev.args, ev.verbose)) + 1, Len(ev.out))
\* a listing that is itself listed afterwards
Rewritten(args) == \E i, j \in 1..Len(args) : args[j] = ListName(args[i])

Report(ev) ==
  LET fs == FS(ev.files)
      args == ev.args IN
  CASE ev.tool = "check-instructions" ->
         IF args = <<>> \/ ~AllReadable(fs, args) THEN Refused(ev, "ci.refuse")
         ELSE Ran(ev, "ci.ran") \o Bad(ev.code = 0 => CheckOk(fs, args, ev, ev.out), "ci.report")
    [] ev.tool = "list-instructions" ->
         IF Command(ev.opcode) \notin Vocab \/ ~AllReadable(fs, args) THEN Refused(ev, "li.refuse")
         ELSE Ran(ev, "li.ran") \o Bad(ev.code = 0 => ev.out = ListInstrs(fs, args, ev.opcode, ev.details, ev.verbose), "li.report")
    [] ev.tool = "parse" ->
         IF args = <<>> \/ ~AllReadable(fs, args) THEN Refused(ev, "pa.refuse")
         ELSE LET b == Built(fs, args) IN
              Ran(ev, "pa.ran")
              \o Bad(ev.code = 0 => SelectSeq(ev.err, IsPerFile) = PerFile(args, b.errs), "pa.perfile")
              \o Bad(ev.code = 0 => ev.out = ParseOut(fs, args, Sum(b.errs), ev.debug, ev.verbose), "pa.report")
    [] ev.tool = "list-symbols" ->
         IF args = <<>> \/ ~AllReadable(fs, args) THEN Refused(ev, "ls.refuse")
         ELSE LET b == Built(fs, args) IN
              Ran(ev, "ls.ran")
              \o Bad(ev.code = 0 => ev.out = Chat(fs, args, ev.verbose) \o ListSymbols(b.tab), "ls.report")
              \o Bad(ev.code = 0 => SelectSeq(ev.err, LAMBDA e : Ends(e, " errors found"))
                                    = If(Sum(b.errs) > 0, <<Num(Sum(b.errs)) \o " errors found">>), "ls.errors")
    [] ev.tool = "check-symbols" ->
         IF args = <<>> \/ ~AllReadable(fs, args) THEN Refused(ev, "cs.refuse")
         ELSE LET b == Built(fs, args) IN
              Ran(ev, "cs.ran")
              \o Bad(ev.code = 0 => SelectSeq(ev.err, IsPerFile) = PerFile(args, b.errs), "cs.perfile")
              \o Bad(ev.code = 0 => SelectSeq(ev.err, IsCheckLine) = CheckSymErr(b.tab, b.errs, ev.complex, Len(args)), "cs.report")
              \o Bad(ev.code = 0 => Talked(fs, ev) /\ SuggestOk(b.tab, ev.complex, Rest(fs, ev)), "cs.suggest")
    [] ev.tool = "find-symbols" ->
         IF args = <<>> \/ Conflict(ev) \/ ~AllReadable(fs, args) THEN Refused(ev, "fs.refuse")
         ELSE LET b == Built(fs, args) IN
              Ran(ev, "fs.ran")
              \o Bad(ev.code = 0 => SelectSeq(ev.err, IsPerFile) = PerFile(args, b.errs), "fs.perfile")
              \o Bad(ev.code = 0 => Talked(fs, ev) /\ FindOk(b.tab, ev) /\ Len(Rest(fs, ev)) = (IF ev.found.k = "nothing" THEN 0 ELSE 1), "fs.found")
    [] ev.tool = "listing" ->
         IF args = <<>> \/ ~Listed(fs, args, 1).ok THEN Refused(ev, "lst.refuse")
         ELSE Ran(ev, "lst.ran") \o Bad(ev.code = 0 => (ev.out = ListTold(fs, args, ev.verbose) \/ Rewritten(args)), "lst.told")
    [] ev.tool = "genlines" ->
         IF ~LinesLegal(args) THEN Refused(ev, "gl.refuse") \o Bad(ev.out = <<>>, "gl.refuse")
         ELSE Ran(ev, "gl.ran") \o Bad(ev.code = 0 => ev.out = GenLines(args), "gl.lines")
    [] ev.tool = "genpages" ->
         IF args = <<>> \/ PagesText(fs, args[1]) = <<>> THEN Refused(ev, "gp.refuse") ELSE Ran(ev, "gp.ran")
\* ---- what the tools leave in the files
Left(ev) ==
  LET fs == FS(ev.files) IN
  CASE ev.tool = "listing" -> Bad(FS(ev.after) = Listed(fs, ev.args, 1).fs, "lst.files")
    [] ev.tool = "genpages" /\ ev.args # <<>> -> Bad(FS(ev.after) = Paged(fs, ev.args[1]), "gp.files")
    [] OTHER -> Bad(FS(ev.after) = fs, "tool.files")

TStep(s, ev) == [st |-> s, bad |-> IF ev.op = "reset" THEN <<>> ELSE Report(ev) \o Left(ev)]
TSt0 == <<>>
=============================================================================
