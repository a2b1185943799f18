------------------------------ MODULE Encoding ------------------------------
(* Command codes of the H-800/H-1800 as documented: the table in the header *)
(* of instructions.py, which restates the Programmers' Reference Manual.    *)
(* Bits are numbered 1 (most significant) to 12.                            *)
(*   masked       s mmmmm  1 ooooo                                          *)
(*   unmasked     s bb abc 0 ooooo                                          *)
(*   peripheral   pppppp   1 ooooo                                          *)
(*   print        s 00 abc 1 ooooo                                          *)
(*   simulator    s 00 000 0 00111                                          *)
EXTENDS Integers, Sequences, FiniteSets

T(m, cls, kind, b23, op) == [m |-> m, cls |-> cls, kind |-> kind, b23 |-> b23, op |-> op]
Table == <<
  T("BA",   "BinaryAdd",                                 "maskable",   2,  9),
  T("DA",   "DecimalAdd",                                "maskable",   2,  1),
  T("WA",   "WordAdd",                                   "maskable",   2, 13),
  T("BS",   "BinarySubtract",                            "maskable",   2, 25),
  T("DS",   "DecimalSubtract",                           "maskable",   2, 17),
  T("WD",   "WordDifference",                            "maskable",   2, 29),
  T("NA",   "NotEqualAlphabetic",                        "maskable",   2, 12),
  T("NN",   "NotEqualNumeric",                           "maskable",   2,  8),
  T("LA",   "LessThanOrEqualAlphabetic",                 "maskable",   2, 28),
  T("LN",   "LessThanOrEqualNumeric",                    "maskable",   2, 24),
  T("TX",   "Transfer",                                  "maskable",   2, 16),
  T("TS",   "TransferChangeSequence",                    "maskable",   2,  4),
  T("HA",   "HalfAdd",                                   "maskable",   2, 21),
  T("SM",   "Superimpose",                               "maskable",   2,  5),
  T("CP",   "CheckParity",                               "maskable",   2, 20),
  T("BM",   "BinaryMultiply",                            "unmasked",   0, 11),
  T("DM",   "DecimalMultiply",                           "unmasked",   0,  3),
  T("BT",   "BinaryAccumulate",                          "unmasked",   2, 11),
  T("DT",   "DecimalAccumulate",                         "unmasked",   2,  3),
  T("MT",   "MultipleTransfer",                          "unmasked",   0, 16),
  T("TN",   "TransferNWords",                            "unmasked",   1, 16),
  T("CC",   "ComputeOrthocount",                         "unmasked",   1,  8),
  T("IT",   "ItemTransfer",                              "unmasked",   1, 24),
  T("EBA",  "ExtendedBinaryAdd",                         "unmasked",   3, 11),
  T("EBS",  "ExtendedBinarySubtract",                    "unmasked",   3, 27),
  T("RT",   "RecordTransfer",                            "unmasked",   3, 24),
  T("MPC",  "ControlProgram",                            "unmasked",   2,  0),
  T("PR",   "Proceed",                                   "proceed",    0,  0),
  T("SWS",  "ShiftWordAndSubstitute",                    "unmasked",   2,  6),
  T("SPS",  "ShiftPreservingSignAndSubstitute",          "unmasked",   2,  2),
  T("SWE",  "ShiftWordAndExtract",                       "unmasked",   2, 14),
  T("SPE",  "ShiftPreservingSignAndExtract",             "unmasked",   2, 10),
  T("SSL",  "ShiftAndSelect",                            "unmasked",   2, 22),
  T("SS",   "Substitute",                                "unmasked",   0,  6),
  T("EX",   "Extract",                                   "unmasked",   0, 14),
  T("RF",   "ReadForward",                               "peripheral", 0, 26),
  T("RB",   "ReadBackward",                              "peripheral", 0, 10),
  T("WF",   "WriteForward",                              "peripheral", 0, 14),
  T("RW",   "Rewind",                                    "peripheral", 0,  2),
  T("PRA",  "PrintAlphabetic",                           "print",      0,  6),
  T("PRD",  "PrintDecimal",                              "print",      0,  6),
  T("PRO",  "PrintOctal",                                "print",      0,  6),
  T("S",    "Simulator",                                 "simulator",  0,  7),
  T("FBA",  "FloatingBinaryAdd",                         "unmasked",   1,  1),
  T("FDA",  "FloatingDecimalAdd",                        "unmasked",   1, 17),
  T("FBS",  "FloatingBinarySubtract",                    "unmasked",   1,  9),
  T("FDS",  "FloatingDecimalSubtract",                   "unmasked",   1, 25),
  T("FBD",  "FloatingBinaryDivide",                      "unmasked",   1,  5),
  T("FDD",  "FloatingDecimalDivide",                     "unmasked",   1, 21),
  T("FBAU", "FloatingBinaryAddUnnormalized",             "unmasked",   3,  1),
  T("FDAU", "FloatingDecimalAddUnnormalized",            "unmasked",   3, 17),
  T("FBSU", "FloatingBinarySubtractUnnormalized",        "unmasked",   3,  9),
  T("FDSU", "FloatingDecimalSubtractUnnormalized",       "unmasked",   3, 25),
  T("FBM",  "FloatingBinaryMultiply",                    "unmasked",   3,  5),
  T("FDM",  "FloatingDecimalMultiply",                   "unmasked",   3, 21),
  T("ULD",  "MultipleUnload",                            "unmasked",   3, 13),
  T("FBAE", "FloatingBinaryAddExtendedPrecision",        "unmasked",   0,  1),
  T("FBSE", "FloatingBinarySubtractExtendedPrecision",   "unmasked",   0,  9),
  T("BD",   "FixedBinaryDivide",                         "unmasked",   0,  5),
  T("DD",   "FixedDecimalDivide",                        "unmasked",   0, 21),
  T("FFN",  "FixedToFloatingNormalize",                  "unmasked",   0, 13),
  T("FCON", "Conversion",                                "unmasked",   0, 29),
  T("FLN",  "FloatingLessThanNormalized",                "unmasked",   0, 24),
  T("FNN",  "FloatingNotEqualNormalized",                "unmasked",   2, 12)
>>
Mnemonics == {Table[k].m : k \in 1..Len(Table)}
Rows == {Table[k] : k \in 1..Len(Table)}
Row(m) == Table[CHOOSE k \in 1..Len(Table) : Table[k].m = m]

\* ---- operands: <<>> when absent, <<n>> when given ---------------------------
Absent(o) == o = <<>>
Given(o)  == o # <<>>
Val(o)    == IF o = <<>> THEN 0 ELSE o[1]
Between(o, lo, hi) == Given(o) => o[1] >= lo /\ o[1] <= hi

\* which operands an instruction of a kind has
Takes(kind) == CASE kind = "maskable"   -> {"seq", "mask", "a", "b", "c"}
                 [] kind = "unmasked"   -> {"seq", "a", "b", "c"}
                 [] kind = "print"      -> {"seq", "a", "b", "c"}
                 [] kind = "peripheral" -> {"paddr"}
                 [] kind = "simulator"  -> {"seq"}
                 [] kind = "proceed"    -> {"seq", "a", "b", "c"}
Names == {"seq", "mask", "a", "b", "c", "paddr"}
InRange(x) == /\ Between(x.seq, 0, 1) /\ Between(x.mask, 0, 31) /\ Between(x.paddr, 0, 63)
              /\ Between(x.a, 0, 1) /\ Between(x.b, 0, 1) /\ Between(x.c, 0, 1)
Legal(t, x) ==
  /\ InRange(x)
  /\ Given(x.mask) => t.kind = "maskable" /\ Absent(x.a) /\ Absent(x.b) /\ Absent(x.c) /\ Absent(x.paddr)
  /\ Given(x.paddr) => t.kind = "peripheral" /\ Absent(x.seq) /\ Absent(x.a) /\ Absent(x.b) /\ Absent(x.c)
\* operand combinations about which nothing is promised: the documentation gives these
\* instructions no such field, and no instruction class offers it
Unspecified(t, x) ==
  \/ t.kind = "peripheral" /\ (Absent(x.paddr) \/ Given(x.seq) \/ Given(x.a) \/ Given(x.b) \/ Given(x.c)) /\ Absent(x.mask)
     /\ (Given(x.paddr) => Absent(x.seq) /\ Absent(x.a) /\ Absent(x.b) /\ Absent(x.c))
  \/ t.kind = "simulator" /\ (Given(x.a) \/ Given(x.b) \/ Given(x.c)) /\ Absent(x.mask) /\ Absent(x.paddr)

\* ---- the command code -------------------------------------------------------
Code(t, x) ==
  LET s == 2048 * Val(x.seq)  abc == 256 * Val(x.a) + 128 * Val(x.b) + 64 * Val(x.c) IN
  CASE t.kind = "peripheral" -> 64 * Val(x.paddr) + 32 + t.op
    [] t.kind = "print"      -> s + abc + 32 + t.op
    [] t.kind = "simulator"  -> s + 7
    [] t.kind = "maskable" /\ Given(x.mask) -> s + 64 * Val(x.mask) + 32 + t.op
    [] OTHER                 -> s + 512 * t.b23 + abc + t.op

\* ---- reading a code back: the fields that identify an instruction -----------
Bit7(code) == (code \div 32) % 2
B23(code)  == (code \div 512) % 4
Op5(code)  == code % 32
Matches(t, code) ==
  CASE t.kind = "maskable"   -> Op5(code) = t.op /\ (Bit7(code) = 1 \/ B23(code) = t.b23)
    [] t.kind = "peripheral" -> Op5(code) = t.op /\ Bit7(code) = 1
    [] t.kind = "print"      -> Op5(code) = t.op /\ Bit7(code) = 1
    [] t.kind = "simulator"  -> code % 8 = 7
    [] OTHER                 -> Op5(code) = t.op /\ Bit7(code) = 0 /\ B23(code) = t.b23
Decode(code) == {r.m : r \in {r \in Rows : Matches(r, code)}}
\* the documentation gives these the same code
Aliases == {{"PRA", "PRD", "PRO"}, {"NA", "FNN"}}

\* ---- the opcode listing ------------------------------------------------------
Bit == {0, 1}
None == <<>>
Opnds(s, m, a, b, c, p) == [seq |-> s, mask |-> m, a |-> a, b |-> b, c |-> c, paddr |-> p]
Abcs == {Opnds(<<s>>, None, <<a>>, <<b>>, <<c>>, None) : s \in Bit, a \in Bit, b \in Bit, c \in Bit}
ListedFor(t) ==
  CASE t.kind = "maskable"   -> {Code(t, Opnds(<<s>>, <<k>>, None, None, None, None)) : s \in Bit, k \in 0..31}
    [] t.kind = "peripheral" -> {Code(t, Opnds(None, None, None, None, None, <<p>>)) : p \in 0..63}
    [] t.kind = "simulator"  -> {Code(t, Opnds(<<s>>, None, None, None, None, None)) : s \in Bit}
    [] t.kind = "print"      -> IF t.m = "PRD" THEN {Code(t, x) : x \in Abcs} ELSE {}   \* one name for three
    [] OTHER                 -> {Code(t, x) : x \in Abcs}
Listing == UNION {{<<c, Table[k].m>> : c \in ListedFor(Table[k])} : k \in 1..Len(Table)}

\* ---- the assembler's vocabulary ------------------------------------------------
CONTROL_INSTRUCTIONS == {"ASSIGN", "END", "EQUALS", "EVEN", "MASKGRP", "MODLOC", "RESERVE",
      "SETLOC", "SIMULATE", "TAS"}
DATA_CONSTANTS == {"ALF", "DEC", "EBC", "FLBIN", "FLDEC", "FXBIN", "OCT"}
CONTROL_CONSTANTS == {"CAC", "CONTROL", "LINK", "M", "MASKBASE", "SEGNAME", "SPEC", "SUBCALL",
      "TAC"}
EXTENDED_INSTRUCTIONS == {"CSCON", "DOFF", "DON", "SCON", "SPCR", "STOP"}
MISC_INSTRUCTIONS == {"COREDUMP", "DUMP"}
ARGUS_INSTRUCTIONS == {"ARGUS", "DELETE", "ELIMDATA", "ELIMDERL", "ELIMSEG", "ENDARGUS",
      "FINIS", "MACRODEF", "PROGRAM", "SEGMENT", "TESTDATA", "U"}
GroupNames == {"OPCODES", "CONTROL_INSTRUCTIONS", "DATA_CONSTANTS", "CONTROL_CONSTANTS", "EXTENDED_INSTRUCTIONS",
               "MISC_INSTRUCTIONS", "ARGUS_INSTRUCTIONS"}
Group(g) == CASE g = "OPCODES" -> Mnemonics [] g = "CONTROL_INSTRUCTIONS" -> CONTROL_INSTRUCTIONS
              [] g = "DATA_CONSTANTS" -> DATA_CONSTANTS [] g = "CONTROL_CONSTANTS" -> CONTROL_CONSTANTS
              [] g = "EXTENDED_INSTRUCTIONS" -> EXTENDED_INSTRUCTIONS [] g = "MISC_INSTRUCTIONS" -> MISC_INSTRUCTIONS
              [] g = "ARGUS_INSTRUCTIONS" -> ARGUS_INSTRUCTIONS
Vocabulary == UNION {Group(g) : g \in GroupNames}
=============================================================================
