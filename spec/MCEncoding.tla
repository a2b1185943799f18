----------------------------- MODULE MCEncoding -----------------------------
(* One state per instruction and operand combination, legal or not.         *)
EXTENDS Encoding, TLC, Json, IOUtils
VARIABLE t, x

Flag  == {<<>>, <<0>>, <<1>>, <<2>>, <<-1>>}
Flag2 == {<<>>, <<0>>, <<1>>, <<2>>}
Masks == {<<>>} \cup {<<n>> : n \in -1..32}
SomeMasks == {<<>>, <<0>>, <<31>>}
Ops(S, M, A, P) == {Opnds(s, m, a, b, c, p) : s \in S, m \in M, a \in A, b \in A, c \in A, p \in P}
\* through the instruction's own class
ClassOps(kind) ==
  CASE kind = "maskable"   -> Ops(Flag, Masks, {<<>>}, {<<>>}) \cup Ops(Flag2, SomeMasks, Flag2, {<<>>})
    [] kind = "peripheral" -> Ops({<<>>}, {<<>>}, {<<>>}, {<<n>> : n \in -1..65})
    [] kind = "simulator"  -> Ops(Flag, {<<>>}, {<<>>}, {<<>>})
    [] kind = "proceed"    -> Ops({<<>>}, {<<>>}, {<<>>}, {<<>>})
    [] OTHER               -> Ops(Flag, {<<>>}, Flag2, {<<>>})
\* through the base class, where every operand can be offered to every opcode
BaseOps == Ops({<<>>, <<1>>}, {<<>>, <<0>>, <<21>>}, {<<>>, <<1>>}, {<<>>, <<0>>, <<42>>})
           \cup Ops({<<>>, <<0>>}, {<<>>, <<0>>}, {<<>>, <<0>>}, {<<>>, <<0>>, <<63>>})

NoOps == Opnds(<<>>, <<>>, <<>>, <<>>, <<>>, <<>>)
Init == t \in {Table[k] : k \in 1..Len(Table)} /\ x = NoOps
Next == x = NoOps /\ x' \in ClassOps(t.kind) \cup BaseOps /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, x>>

Ok == Legal(t, x) /\ ~Unspecified(t, x)
TwelveBits == Ok => Code(t, x) >= 0 /\ Code(t, x) < 4096
\* the code names the instruction, up to the documented aliases
Decodable == Ok => /\ t.m \in Decode(Code(t, x))
                   /\ \/ Decode(Code(t, x)) = {t.m}
                      \/ \E S \in Aliases : Decode(Code(t, x)) \subseteq S
\* ... and its operands
Fields == Ok =>
  LET c == Code(t, x) IN
  CASE t.kind = "peripheral" -> c \div 64 = Val(x.paddr)
    [] t.kind = "maskable" /\ Given(x.mask) -> (c \div 64) % 32 = Val(x.mask) /\ c \div 2048 = Val(x.seq)
    [] OTHER -> /\ c \div 2048 = Val(x.seq)
                /\ (c \div 256) % 2 = Val(x.a) /\ (c \div 128) % 2 = Val(x.b) /\ (c \div 64) % 2 = Val(x.c)
\* no code is listed under two names; every mnemonic is in exactly one group
ASSUME Cardinality({p[1] : p \in Listing}) = Cardinality(Listing)
ASSUME \A g, h \in GroupNames : g # h => Group(g) \cap Group(h) = {}
ASSUME Cardinality(Mnemonics) = Len(Table)

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetSeq(S \ {e})
Kinds == {"maskable", "unmasked", "print", "peripheral", "simulator", "proceed"}
Export == TLCGet("stats").distinct > 0 /\ ("VERIF_GEN" \in DOMAIN IOEnv =>
   JsonSerialize(IOEnv.VERIF_GEN,
     [table |-> Table, class |-> [k \in Kinds |-> SetSeq(ClassOps(k))], base |-> SetSeq(BaseOps)]))
=============================================================================
