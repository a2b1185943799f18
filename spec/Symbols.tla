------------------------------ MODULE Symbols -------------------------------
(* The symbols a deck defines, card after card; questions about the table;  *)
(* and the symbol table object with its list of undefined symbols.          *)
EXTENDS Deck, FiniteSets

\* ---- building the table --------------------------------------------------
\* A table is a function from <<name, segment, subsegment, type>> to what was recorded of
\* the defining card; b = [tab, errs, sub] is the state of building it from one file.
Prefixes == {"B", "F", "L", "S", "X", "Z"}
Unsupported == {"L", "X"}
Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x \in DOMAIN f THEN f[x] ELSE v]
Err(b, name) == [b EXCEPT !.errs = Append(@, name)]
Define(b, seg, c, name, tag) ==
  LET type == IF c.op = <<"ASSIGN">> THEN "complex" ELSE "simple"
      key == <<name, seg, b.sub, type>>
      entry == [file |-> c.file, num |-> c.num, lognum |-> c.lognum, tag |-> tag, text |-> c.text,
                op |-> c.op, a |-> c.a, b |-> c.b, c |-> c.c] IN
  IF c.op = <<>> THEN Err(b, c.lab)
  ELSE IF key \notin DOMAIN b.tab THEN [b EXCEPT !.tab = Extend(@, key, entry)]
  ELSE LET p == b.tab[key] IN       \* the first definition stays
       IF c.op = <<"EQUALS">> /\ p.op = <<"EQUALS">> /\ p.a = c.a /\ p.b = c.b /\ p.c = c.c
       THEN b ELSE Err(b, name)
Labelled(b, seg, c) ==
  LET parts == Split(c.lab, ",") IN
  IF AnyLower(c.lab) THEN Err(b, c.lab)
  ELSE IF Len(parts) > 2 THEN Err(b, c.lab)
  ELSE IF Len(parts) = 1 THEN Define(b, seg, c, c.lab, " ")
  ELSE IF parts[1] \notin Prefixes \/ parts[1] \in Unsupported THEN Err(b, c.lab)
  ELSE Define(b, seg, c, parts[2], parts[1])
SetLoc(op) == op # <<>> /\ Starts(op[1], "SETLOC")
SubSegment(op) == IF Has(op[1], ",") THEN Strip(Split(op[1], ",")[2]) ELSE "0"
\* one card: c = [col8, label, op, a, b, c, lognum, file, num, text]
CardStep(b, seg, c) ==
  IF c.col8 = <<"*">> THEN b
  ELSE LET b1 == IF SetLoc(c.op) THEN [b EXCEPT !.sub = SubSegment(c.op)] ELSE b IN
       IF c.label = <<>> THEN b1
       ELSE Labelled(b1, seg, [c EXCEPT !.lab = Without(c.label[1], " ")])
SymCard(d) == LET r == ArgusRecord(d.line, ArgusWidth) IN
  [col8 |-> r["column8"], label |-> r["label"], lab |-> "", op |-> r["operation"], a |-> r["operand1"], b |-> r["operand2"],
   c |-> r["operand3"], lognum |-> r["lognum"], file |-> d.file, num |-> d.num, text |-> d.line]
RECURSIVE BuildFrom(_, _, _, _)
BuildFrom(b, seg, deck, i) == IF i > Len(deck) THEN b ELSE BuildFrom(CardStep(b, seg, SymCard(deck[i])), seg, deck, i + 1)
\* the segment is named after the file: its name without the extension
RECURSIVE LastOf(_, _, _)
LastOf(s, ch, i) == IF i < 1 THEN 0 ELSE IF At(s, i) = ch THEN i ELSE LastOf(s, ch, i - 1)
SegOf(name) == LET slash == LastOf(name, "/", Len(name))
                   dot == LastOf(name, ".", Len(name)) IN
   IF dot > slash + 1 /\ \E i \in (slash + 1)..(dot - 1) : At(name, i) # "." THEN Cols(name, 1, dot - 1) ELSE name
Start(tab) == [tab |-> tab, errs |-> <<>>, sub |-> "1"]
Build(tab, fs, root) == BuildFrom(Start(tab), SegOf(root), FromFile(fs, root), 1)

\* ---- questions about a table ---------------------------------------------
NamesOf(tab) == {k[1] : k \in DOMAIN tab}
TypesOf(tab, n) == {k[4] : k \in {k \in DOMAIN tab : k[1] = n}}
ComplexOnly(tab) == {n \in NamesOf(tab) : TypesOf(tab, n) = {"complex"}}
Absolute(tab) == {n \in NamesOf(tab) : "simple" \in TypesOf(tab, n)}
DefsOf(tab, n) == {k \in DOMAIN tab : k[1] = n}

\* ---- the symbol table object ---------------------------------------------
\* o = [syms: name -> [value, type, file, line, seg, sub, refs], undefs: Seq(name)]
Empty == [syms |-> <<>>, undefs |-> <<>>]
Valid(e) == e.value # <<>>
AddSym(o, c) == IF c.name = "" \/ c.name \in DOMAIN o.syms THEN o
  ELSE [syms |-> Extend(o.syms, c.name, [value |-> c.value, type |-> c.type, file |-> c.file, line |-> c.line,
                                        seg |-> c.seg, sub |-> c.sub, refs |-> <<>>]),
        undefs |-> IF c.value = <<>> THEN Append(o.undefs, c.name) ELSE o.undefs]
Update(o, c) == IF c.name \notin DOMAIN o.syms THEN o
  ELSE [o EXCEPT !.syms[c.name].value = c.value, !.syms[c.name].type = c.type]
Prune(o) == [o EXCEPT !.undefs = SelectSeq(@, LAMBDA n : ~Valid(o.syms[n]))]
Resolve(o, passes) == IF passes < 1 \/ o.undefs = <<>> THEN o ELSE Prune(o)
Refer(o, c) == IF c.name \notin DOMAIN o.syms THEN o ELSE [o EXCEPT !.syms[c.name].refs = Append(@, c.ref)]
After(o, c) == CASE c.op = "add" -> AddSym(o, c) [] c.op \in {"update", "setvalue"} -> Update(o, c) [] c.op = "prune" -> Prune(o)
                 [] c.op = "resolve" -> Resolve(o, c.passes) [] c.op = "refer" -> Refer(o, c)
                 [] c.op = "make" -> Empty [] OTHER -> o
=============================================================================
