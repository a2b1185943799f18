---------------------------- MODULE SymbolsTrace ----------------------------
EXTENDS Symbols, TraceRun

Bad(c, name) == IF c THEN <<>> ELSE <<name>>
Set(s) == {s[i] : i \in 1..Len(s)}
FSOf(files) == TLCEval([n \in {files[i].name : i \in 1..Len(files)} |->
                  files[CHOOSE i \in 1..Len(files) : files[i].name = n].lines])
\* a table as read out of the real one: a list of definitions
Shown(tab, keys) == {[name |-> k[1], seg |-> k[2], sub |-> k[3], type |-> k[4], file |-> tab[k].file, num |-> tab[k].num,
                      lognum |-> tab[k].lognum, tag |-> tab[k].tag, text |-> tab[k].text] : k \in keys}
Same(defs, tab, keys) == Set(defs) = Shown(tab, keys) /\ Len(defs) = Cardinality(keys)
KeysIn(defs) == {<<defs[i].name, defs[i].seg, defs[i].sub, defs[i].type>> : i \in 1..Len(defs)}

BuildClauses1(s, ev) ==
  LET fs == FSOf(ev.files) IN
  IF ~Readable(fs, ev.root) THEN Bad(ev.res.k \in {"exc", "ValueError"}, "sym.refuse") \o Bad(Same(ev.table, s.tab, DOMAIN s.tab), "sym.refused-change")
  ELSE IF ev.res.k # "built" THEN <<"sym.built">>
  ELSE LET w == Build(s.tab, fs, ev.root)
           seen == KeysIn(ev.table) IN
       Bad(ev.res.errs = Len(w.errs), "sym.errors")
    \o Bad(ev.res.said = w.errs, "sym.messages")
    \o Bad(DOMAIN w.tab \subseteq seen, "sym.missing")
    \o Bad(seen \subseteq DOMAIN w.tab, "sym.extra")
    \o Bad(seen # DOMAIN w.tab \/ Same(ev.table, w.tab, DOMAIN w.tab), "sym.entry")
    \o Bad(ev.res.same, "sym.returned")
BuildClauses(s, ev) == BuildClauses1([tab |-> s.tabs[ev.on]], ev) \o Bad(Same(ev.other, s.tabs[3 - ev.on], DOMAIN s.tabs[3 - ev.on]), "sym.apart")
\* afterwards the specification continues from its own table
BuildNext(s, ev) == LET fs == FSOf(ev.files) IN
  IF ~Readable(fs, ev.root) THEN s ELSE [s EXCEPT !.tabs[ev.on] = Build(s.tabs[ev.on], fs, ev.root).tab]

Match(ev, n) == (ev.begin /\ Starts(n, ev.name)) \/ (ev.end /\ Ends(n, ev.name))
FindClauses(s, ev) ==
  LET t == s.tabs[ev.on]
      r == ev.res
      names == NamesOf(t) IN
  IF ~ev.begin /\ ~ev.end /\ ~ev.fuzzy
  THEN IF ev.name \in names /\ (ev.symtype = <<>> \/ ev.symtype[1] \in TypesOf(t, ev.name))
       THEN Bad(r.k = "defs" /\ Same(r.v, t, DefsOf(t, ev.name)), "find.exact")
       ELSE Bad(r.k = "none", "find.undefined")
  ELSE IF ev.fuzzy /\ ~ev.begin /\ ~ev.end
  THEN LET like(n) == LET q == SelectSeq(ev.like, LAMBDA x : x.n = n) IN IF q = <<>> THEN 0 ELSE q[1].s IN
       Bad((r.k = "names" /\ Set(r.v) \subseteq Absolute(t)) =>
             /\ \A i \in 1..Len(r.v) - 1 : like(r.v[i]) >= like(r.v[i + 1])
             /\ \A n \in Absolute(t) \ Set(r.v) : \A m \in Set(r.v) : like(n) <= like(m), "find.best") \o
       Bad(r.k = "names" /\ Set(r.v) \subseteq Absolute(t) /\ Len(r.v) = Cardinality(Set(r.v))
           /\ Len(r.v) = Min2(10, Cardinality(Absolute(t))) /\ (ev.name \in Absolute(t) => ev.name \in Set(r.v)), "find.fuzzy")
  ELSE IF r.k # "names" THEN <<"find.partial">>
  ELSE IF ev.begin /\ ev.end THEN Bad(Set(r.v) = {n \in names : Match(ev, n)}, "find.partial")
  ELSE Bad(r.v = Sorted({n \in names : Match(ev, n)}), "find.partial")

\* the symbol table object
ShownObj(o) == {[name |-> n, value |-> o.syms[n].value, valid |-> Valid(o.syms[n]),
                 abs |-> Valid(o.syms[n]) /\ o.syms[n].type = <<"absolute">>,
                 cpx |-> Valid(o.syms[n]) /\ o.syms[n].type # <<"absolute">>, both |-> FALSE,
                 file |-> o.syms[n].file, line |-> o.syms[n].line, seg |-> o.syms[n].seg, sub |-> o.syms[n].sub,
                 refs |-> o.syms[n].refs] : n \in DOMAIN o.syms}
AsShown(obj, w) == Set(obj.syms) = ShownObj(w) /\ Len(obj.syms) = Cardinality(DOMAIN w.syms)
Counted(obj, w) == obj.undefs = w.undefs /\ obj.nundefs = Len(w.undefs) /\ obj.n = Cardinality(DOMAIN w.syms)
ObjClauses(s, ev) ==
  LET o == s.objs[ev.on]
      w == After(o, ev)
      me == ev.objs[ev.on]
      you == ev.objs[3 - ev.on]
      o2 == s.objs[3 - ev.on] IN
  IF me.k # "obj" \/ you.k # "obj" THEN <<"obj.read">>
  ELSE Bad(ev.op \in {"lookup", "print"} \/ ev.res.k = "ok", "obj.failed")
    \o Bad(ev.op # "lookup" \/ ev.res = (IF ev.name \in DOMAIN o.syms THEN [k |-> "found", name |-> ev.name] ELSE [k |-> "none"]), "obj.lookup")
    \o Bad(ev.op # "print" \/ ev.res.k = "unreadable" \/
           (/\ ev.res.k = "printed" /\ ev.res.stray = <<>> /\ ev.res.undefined = o.undefs
            /\ ev.res.defined = IF ev.undefs THEN <<>> ELSE Sorted(DOMAIN o.syms)), "obj.print")
    \o Bad(AsShown(me, w), IF ev.op = "add" THEN "obj.add" ELSE IF ev.op = "update" THEN "obj.update" ELSE "obj.other")
    \o Bad(Counted(me, w), "obj.undefs")
    \o Bad(AsShown(you, o2) /\ Counted(you, o2), "obj.apart")

SClauses(s, ev) ==
  CASE ev.op = "build" -> BuildClauses(s, ev)
    [] ev.op = "check" -> Bad(ev.res.k = "names" /\ ev.res.v = (IF ev.complex THEN Sorted(ComplexOnly(s.tabs[ev.on])) ELSE <<>>), "sym.check")
    [] ev.op = "absolute" -> Bad(ev.res.k = "names" /\ ev.res.v = Sorted(Absolute(s.tabs[ev.on])), "sym.absolute")
    [] ev.op = "find" -> FindClauses(s, ev)
    [] ev.op = "table" -> Bad(/\ Same(ev.table, s.tabs[ev.on], DOMAIN s.tabs[ev.on])
                              /\ Same(ev.other, s.tabs[3 - ev.on], DOMAIN s.tabs[3 - ev.on]), "sym.pure")
    [] ev.op \in {"add", "update", "setvalue", "prune", "resolve", "refer", "lookup", "make", "print"} -> ObjClauses(s, ev)
    [] OTHER -> <<>>
SSt0 == [tabs |-> <<<<>>, <<>>>>, objs |-> <<Empty, Empty>>]
SStep(s, ev) ==
  [bad |-> SClauses(s, ev),
   st |-> CASE ev.op = "reset" -> SSt0
            [] ev.op = "build" -> BuildNext(s, ev)
            [] ev.op \in {"add", "update", "setvalue", "prune", "resolve", "refer", "make"} -> [s EXCEPT !.objs[ev.on] = After(@, ev)]
            [] OTHER -> s]
=============================================================================
