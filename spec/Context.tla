------------------------------ MODULE Context -------------------------------
(* An assembly context: the assembler's position and counters, and the      *)
(* records it is saved to and loaded from.  Values are shown as strings.    *)
EXTENDS Integers, Sequences, TLC, FiniteSets
\* what a record keeps of a context
Saved == {"linenum", "global_linenum", "code", "srcline", "loc", "bank", "coloc", "errorMsg", "warningMsg"}
\* what a reset starts over
Position == [linenum |-> "0", global_linenum |-> "0", code |-> "[]", srcline |-> "None", currentRecord |-> "None",
             previousRecord |-> "None", addSymbol |-> "True", reparse |-> "False", loc |-> "0", bank |-> "0"]
\* what else a new context starts with
Rest == [assembler |-> "None", srcfile |-> "None", symtab |-> "[]", records |-> "[]", passnum |-> "0", errorMsg |-> "None",
         warningMsg |-> "None", coloc |-> "0", bankloc |-> "{}", errors |-> "0", warnings |-> "0"]
Given == {"listfile", "binfile", "options", "verbose", "debug", "logLevel", "logfile"}
Fields == DOMAIN Position \cup DOMAIN Rest \cup Given
New(g) == Position @@ Rest @@ g                      \* g: a function on Given
Reset(c) == Position @@ c
Load(c, r) == [f \in Saved |-> r[f]] @@ c
Save(c) == [f \in Saved |-> c[f]]
Put(c, f, v) == [c EXCEPT ![f] = v]
=============================================================================
