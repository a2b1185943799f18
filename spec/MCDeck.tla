------------------------------- MODULE MCDeck -------------------------------
(* Reading a source file, line by line with a stack of open files, as a      *)
(* transition system; checked against the recursive meaning of includes on  *)
(* every acyclic set of files within the bounds.                            *)
EXTENDS Deck, FiniteSets
CONSTANTS NFiles, MaxLines
VARIABLES fs, stack, out, failed
Names == <<"a", "b", "c">>
\* file i may include only later files, or one that does not exist
LinesFor(i) == {"x", "#", ""} \cup {"$" \o Names[j] : j \in (i + 1)..NFiles} \cup (IF i = NFiles THEN {"$?"} ELSE {"$ " \o Names[i + 1] \o " x"})
Contents(i) == UNION {[1..n -> LinesFor(i)] : n \in 0..MaxLines}
Init == /\ fs \in {f \in [1..NFiles -> UNION {Contents(i) : i \in 1..NFiles}] : \A i \in 1..NFiles : f[i] \in Contents(i)}
        /\ stack = <<[f |-> "a", i |-> 1]>> /\ out = <<>> /\ failed = FALSE
FS == [n \in {Names[i] : i \in 1..NFiles} |-> fs[CHOOSE i \in 1..NFiles : Names[i] = n]]
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Skip == Append(Pop, [f |-> Top.f, i |-> Top.i + 1])
Line == FS[Top.f][Top.i]
ReadLine ==
  /\ ~failed /\ stack # <<>>
  /\ UNCHANGED fs
  /\ IF Top.i > Len(FS[Top.f]) THEN stack' = Pop /\ UNCHANGED <<out, failed>>
     ELSE IF Starts(Line, "#") THEN stack' = Skip /\ UNCHANGED <<out, failed>>
     ELSE IF Starts(Line, "$")
     THEN IF IncName(Line)[1] \in DOMAIN FS
          THEN stack' = Append(Skip, [f |-> IncName(Line)[1], i |-> 1]) /\ UNCHANGED <<out, failed>>
          ELSE failed' = TRUE /\ UNCHANGED <<stack, out>>
     ELSE /\ stack' = Skip /\ UNCHANGED failed
          /\ out' = Append(out, [line |-> TextOf(Line), file |-> <<Top.f>>, num |-> Top.i])
vars == <<fs, stack, out, failed>>
Spec == Init /\ [][ReadLine]_vars /\ WF_vars(ReadLine)
Done == stack = <<>> \/ failed
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* either every include exists and the deck is what the include structure means, or reading fails
Meaning == /\ failed => ~Readable(FS, "a")
           /\ stack = <<>> => Readable(FS, "a") /\ out = FromFile(FS, "a")
           /\ Readable(FS, "a") => IsPrefix(out, FromFile(FS, "a"))
NoDirectives == \A i \in 1..Len(out) : ~Starts(out[i].line, "#") /\ ~Starts(out[i].line, "$")
Origin == \A i \in 1..Len(out) : FS[out[i].file[1]][out[i].num] = out[i].line
DepthOk == Len(stack) <= NFiles
Terminates == <>Done
=============================================================================
