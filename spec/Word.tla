-------------------------------- MODULE Word --------------------------------
(* A word of the machine: 4*G bits (G = 12, so 48), drawn most significant  *)
(* bit first and numbered from 1, with four groups of G bits: the command   *)
(* code and the A, B and C address groups.  A word is a bit-field, so the   *)
(* groups are ranges of BitField.                                           *)
EXTENDS BitField
CONSTANT G

WordConf == [w |-> 4 * G, num |-> "MSB1", ord |-> "MSBLEFT"]
Groups   == {"command", "a", "b", "c"}
First(g) == CASE g = "command" -> 1 [] g = "a" -> G + 1 [] g = "b" -> 2 * G + 1 [] g = "c" -> 3 * G + 1
Last(g)  == First(g) + G - 1
Blank    == [c |-> WordConf, bits |-> Zeros(4 * G)]

GroupVal(o, g) == Nat2(RangeBits(o, First(g), Last(g)))

\* a new instruction word from its four groups, a new word from its value
NewIW(x) == PutRange(PutRange(PutRange(PutRange(Blank,
              First("command"), Last("command"), x.command),
              First("a"), Last("a"), x.a), First("b"), Last("b"), x.b), First("c"), Last("c"), x.c)
IWLegal(x) == Fits(x.command, G) /\ Fits(x.a, G) /\ Fits(x.b, G) /\ Fits(x.c, G)

WordLegal(x) ==
  CASE x.op = "newiw"    -> IWLegal(x)
    [] x.op \in {"newword", "newconst", "setvalue"} -> Fits(x.v, 4 * G)
    [] x.op = "setgroup" -> Fits(x.v, G)
    [] x.op \in {"value", "group", "emit"} -> TRUE
    [] OTHER -> Legal(WordConf, x)              \* the bits themselves: a bit-field
WordNew(x) == IF x.op = "newiw" THEN NewIW(x) ELSE [Blank EXCEPT !.bits = Pad(x.v.bits, 4 * G)]
WordAfter(o, x) ==
  CASE x.op = "setgroup" -> PutRange(o, First(x.g), Last(x.g), x.v)
    [] x.op \in {"group", "emit"} -> o
    [] OTHER -> After(o, x)
WordAnswer(o, x) ==
  CASE x.op = "group" -> AnsInt(GroupVal(o, x.g))
    [] x.op \in {"setgroup", "emit"} -> Ok
    [] OTHER -> Answer(o, x)
WordMutators == {"setgroup", "setvalue", "setbit", "setrange", "setall", "clearall", "set", "clear"}
=============================================================================
