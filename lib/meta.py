"""Writes properties.jsonl and MANIFEST.json.  python3 lib/meta.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note=""):
    P.append({
        "p": {"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}},
        "note": note})


BF = "h800/bitfield.py"
prop("C01", "Bit-field writes land on exactly the named bits",
     "In a bit-field of any width from 1 to 64, under any bit numbering (first index 0 or 1, counted from the most or the least significant end) and either drawing order, assigning a bit, a range of bits or the whole value (including setting or clearing one bit or all bits) changes exactly the bits that the index or the inclusive range names and leaves every other bit as it was. "
     "What is then read back, bit by bit, by range, or as the integer value, is exactly what was stored.",
     ["inputs", "configurations", "histories"], "every configuration (width x numbering x order), every stored value, every index and legal range, every sequence of operations",
     "The tests use a handful of widths and fixed patterns, mostly of one numbering; off-by-one and mask errors appear only for certain combinations of width, numbering, order, position and previous content.",
     [BF], [("index to weight mapping", BF + ":_rindex/_vindex/_shift"), ("masks", BF + ":_bitmask"), ("item assignment", BF + ":__setitem__")],
     [("value", "the stored bits", BF)], ["BitField item access, value, set, clear"])
prop("C02", "Bit-fields accept exactly the legal values and positions",
     "A bit-field stores exactly the values 0 to 2^n-1 in an n-bit place (whole field, range or single bit) and accepts exactly the indices its numbering defines, and ranges that run from left to right as the field is drawn; a range may be a single bit or the whole field. "
     "Anything else - negative or too large values, foreign indices, reversed ranges, widths above 64 - is refused with an error, and a refused call leaves the stored bits as they were.",
     ["inputs", "configurations", "histories"], "every configuration, every value including the boundaries 2^n-1, 2^n and -1, every index and range, in any state",
     "Boundary values per range width and numbering are combinatorially many; the tests probe a few rejected values on one field.",
     [BF], [("bounds checks", BF + ":_checkValue/_checkIndex/_checkRange")], [], ["BitField constructor, item access, value, set, clear"])
prop("C03", "Bit-field queries tell the truth about the stored bits",
     "The questions a bit-field answers (is this bit set/clear/equal to a value, is this range all set/all clear/equal to a value, its length, width, largest value, index list from left to right, index of the most and least significant bit, integer conversions) agree with its stored bits and configuration. Asking never changes the field.",
     ["inputs", "configurations", "histories"], "every configuration, every stored value and every index or range",
     "The tests ask a few questions about a few patterns; most wrong answers need partly set ranges away from the low end.",
     [BF], [("queries", BF + ":isBit/isBitSet/isBitClr/isRange/isRangeSet/isRangeClr/indices/lsb/msb")], [], ["BitField queries"])
W = "h800/word.py"
prop("C04", "A word and its four 12-bit groups are the same 48 bits",
     "An instruction word is 48 bits made of the command code and the A, B and C address groups, 12 bits each from left to right: the word's value is their concatenation, assigning one group (or any bit or range of bits) changes only those bits, and assigning the whole word changes the groups accordingly. "
     "Values that do not fit (negative, 2^12 or more for a group, 2^48 or more for a word) are refused without changing the word.",
     ["inputs", "histories"], "every combination of group and word values and every order of assignments through groups, bits, ranges and the whole word",
     "The tests set a few values once; crossing between the views after overlapping writes is never tried.",
     [W, BF], [("groups as bit ranges", W + ":InstructionWord"), ("48-bit check", W + ":Word")], [], ["Word, InstructionWord"])
prop("C05", "Every kind of ARGUS constant holds its 48-bit value",
     "Each kind of data and control constant is a 48-bit word: it holds exactly the value it was created with or assigned last, refuses values outside 0 to 2^48-1 without changing, and constants do not influence each other.",
     ["inputs", "histories", "configurations"], "every kind of constant, every value, every history over several of them",
     "No test covers the constants beyond construction.", [W, "h800/instruction.py", "h800/instructions.py"],
     [("48-bit word", W + ":Word")], [], ["the constant classes"])
I = "h800/instruction.py"
IS = "h800/instructions.py"
prop("C06", "Every instruction encodes to the documented command code",
     "For each of the 64 machine instructions and each legal choice of operands, the 12-bit command code is the documented one: sequence bit, then mask with bit 7 set, or the two class bits with the A, B, C address-type bits and bit 7 clear, or the peripheral address with bit 7 set, then the operation bits. Reading the code again gives the same number.",
     ["inputs", "programs"], "every mnemonic x every sequence bit, mask (0-31), A/B/C type bits and peripheral address (0-63)",
     "The tests sample operand combinations per instruction and build the expected number with the same tables.",
     [I, IS], [("bit assembly", I + ":Instruction._check/value"), ("per-instruction opcodes", IS)], [], ["instruction classes: value"])
prop("C07", "Illegal operand combinations never become a command code",
     "An instruction given operands it does not have, or operands out of range (sequence and address-type bits other than 0/1, masks outside 0-31, peripheral addresses outside 0-63, a mask together with address-type bits or on an instruction that cannot be masked, a peripheral address on a non-peripheral instruction) is refused with an error; every legal combination is accepted.",
     ["inputs"], "every mnemonic x every combination of given and omitted operands with in-range and out-of-range values",
     "The tests try few illegal combinations on few instructions.", [I, IS], [("operand checks", I + ":Instruction._check")], [], ["instruction constructors"])
prop("C08", "The instruction tables are complete, consistent and decodable",
     "Every mnemonic in the opcode table names a class that exists and builds that instruction; no two instructions share a command code except the documented ones that do (the three prints; NA and FNN); the shipped opcode listing names for each code exactly the instruction that encodes to it; and the vocabulary of known operations is exactly the machine instructions plus the documented assembler control instructions and constants.",
     ["inputs", "programs"], "all 4096 command codes and all mnemonics",
     "No test relates the tables to each other.", [IS, "h800/opcodes.txt"], [("tables", IS + ":OPCODES/INSTRUCTIONS"), ("listing", "h800/opcodes.txt")], [], ["tables and builders"])
M = "h800/memory.py"
prop("C09", "A memory location holds the last word stored there",
     "In a memory bank, and in every bank of a memory module or expansion module, reading an address yields the 48-bit word most recently stored there (0 if none), and storing changes no other address, no other bank and no other memory. Words outside 0 to 2^48-1 and addresses or bank numbers outside the memory are refused and change nothing.",
     ["inputs", "histories", "configurations"], "every address of every bank, every word, every history of reads and writes over several memories",
     "The tests touch few addresses; aliasing between addresses or banks needs histories over many of them.",
     [M], [("storage", M + ":MemoryBank")], [("words", "2048 words of a bank", M)], ["item access on banks and modules"])
prop("C10", "Whole-memory operations cover exactly the memory",
     "Reading or filling a slice of a bank touches exactly the addresses from its start up to but excluding its end; iterating a bank (any number of times, nested or abandoned) and printing it yield all 2048 words in address order; clearing a bank zeroes all of its words and no other bank's; sizes are 2048 words of 48 bits per bank, 4 banks per module and 8 per expansion module.",
     ["inputs", "histories", "configurations"], "every slice, every content, every history of iteration, filling and clearing",
     "The tests iterate once and fill from fixed starts.", [M], [("slices, iteration, clear", M + ":MemoryBank")], [], ["slices, iteration, repr, clear, len, size"])
R = "h800/registers.py"
prop("C11", "Each register is its own place, by number and by name",
     "In the register file (8 groups of 32 registers), in a group, or alone, a register holds the value last assigned to it, whether it is reached by number, by name, through a register or group read earlier, or by putting another register or group in its place, and assigning one changes no other register, group or file. Names, aliases and numbers correspond one to one as documented, and unknown numbers and names are refused.",
     ["inputs", "histories", "configurations"], "every group and register, both widths, every history of assignments by number and name",
     "The tests assign a few registers by number; reaching the same register in two ways, or several files at once, is not tried.",
     [R], [("register lookup", R + ":RegisterGroup/Registers")], [], ["Register, RegisterGroup, Registers"])
prop("C12", "Registers hold exactly their width",
     "A register is 16 or 24 bits wide; it stores exactly the values 0 to 2^width-1, its bits are numbered from 1 at the most significant end, and assigning a bit or range changes only those bits. Other values, bit positions, reversed ranges and widths are refused without changing the register.",
     ["inputs", "histories", "configurations"], "both widths, every value, every bit and range",
     "The tests set full values and few bits.", [R, BF], [("width checks", R + ":Register")], [], ["Register"])
prop("C13", "Clearing and iterating registers reach every register",
     "Clearing a register, a group or the whole file zeroes exactly the registers it names, whatever was done before (including iteration); iterating a group yields all 32 registers in order, any number of times; iterating a file yields all 8 groups in order.",
     ["histories", "configurations"], "every interleaving of iteration (complete, partial, nested, repeated), clearing and assignment",
     "The tests clear freshly made objects and iterate once.", [R], [("iteration", R + ":__iter__/__next__"), ("clear", R + ":clear")], [], ["iteration and clear"])
PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
prop("C14", "A punch card's fields are its columns",
     "A card's text is cut into fields exactly at the columns where its layout starts them (the last field ends at the card width): no character is lost, repeated or moved, for the default and for any other layout and width. The stripped fields and the record are those fields without surrounding blanks (a blank field is None) under their field names, plus the line number if one is given; line ends are not part of a card, and a line that starts with '#' is a comment and nothing else is.",
     ["inputs", "configurations"], "every line of text (any length, any content), every layout and width",
     "One test checks one line with the default layout.", [PC], [("layout and cutting", PC + ":PunchCard.__init__")], [], ["PunchCard properties"])
prop("C15", "ARGUS cards are read by their documented columns",
     "On an ARGUS card, column 1, log number, column 8, location, command, the three address fields, sequence and remarks are the documented columns without surrounding blanks; the instruction is the command up to its first comma. On P, R and L cards everything from column 9 on is remarks, and location, command, addresses and sequence are empty.",
     ["inputs"], "every line of text of any length",
     "The tests only print records.", [AC, PC], [("field names and text cards", AC + ":Card.__init__")], [], ["Card properties and record"])
prop("C16", "A deck is its source lines in order, with includes in place",
     "A deck made of lines or of a file has one card per source line in order, except that lines starting with '#' are skipped and, in a file, a line starting with '$' is replaced by the cards of the file it names (recursively, any number of times). Every card knows the file and line it came from; a missing file, wherever it is named, stops the reading with an error instead of a partial deck.",
     ["inputs", "programs", "configurations"], "every acyclic set of source files and every arrangement of text, '#' and '$' lines",
     "No test reads a file; nesting, repetition and line numbering across includes are never exercised.",
     [PC], [("recursive reading", PC + ":Deck._readSource")], [], ["Deck(file=), Deck(lines), cards, filename, linenum"])
prop("C17", "All views of a deck agree, and its log section is the first L card's",
     "A deck's lines, fields, stripped fields, records and text show the same cards in the same order, each as the card itself does, and stay so while other decks are made. An ARGUS deck's log section title and column 8 are those of its first L card (columns 9-81 and 8), and None if there is none.",
     ["inputs", "histories"], "every deck, every number and place of L cards, several decks at once",
     "One deck is printed and one log title compared.", [PC, AC], [("views", PC + ":Deck.__init__"), ("log section", AC + ":Deck.__init__")], [], ["Deck properties"])
ST = "h800/symbol_table.py"
prop("C18", "Every legal label is recorded with its place of definition",
     "Building the symbol table from a source file records each legally labelled card under its symbol name (label without blanks and tag prefix), the segment named after the file, the subsegment set by the latest SETLOC (1 before any, 0 for a SETLOC without number) and the kind (complex for ASSIGN, otherwise simple), with file, line, log number, tag prefix and card. "
     "Cards with an asterisk in column 8 define and set nothing, definitions from earlier files stay, and nothing else is recorded.",
     ["programs", "histories", "inputs"], "every sequence of source files with every mix of labels, commands, SETLOCs and includes",
     "The symbol table has no tests.", [ST], [("card loop", ST + ":buildSymbolTable")], [("symtab", "name/segment/subsegment/kind -> definition", ST)], ["buildSymbolTable"])
prop("C19", "Every faulty symbol definition is reported, and only those",
     "The error count of building a symbol table is exactly the number of labelled cards that are faulty: lower-case letters, more than one comma, unknown or unsupported tag prefix (B, F, S and Z are supported, L and X are not), no command, or a symbol already defined in the same segment, subsegment and kind. Each such error is reported by symbol name in card order and the first definition is kept; repeating an EQUALS with the same addresses is no error.",
     ["programs", "histories", "inputs"], "every sequence of labelled cards over several files",
     "The symbol table has no tests.", [ST], [("checks", ST + ":buildSymbolTable")], [], ["buildSymbolTable, stderr"])
prop("C20", "Symbol queries answer from the whole table",
     "The complex-only check returns exactly the symbols (sorted) that have complex but no simple definitions, and nothing unless it is asked for; the absolute symbols are exactly those (sorted, once each) with a simple definition anywhere. Finding a symbol returns all its definitions, or, for beginnings or ends, exactly the matching names sorted, or, fuzzily, the best (at most ten) absolute symbols; an undefined symbol or kind yields None; no query changes the table.",
     ["programs", "inputs", "histories"], "every table and every name",
     "The queries have no tests.", [ST], [("queries", ST + ":checkSymbolTable/getAbsoluteSymbols/findSymbolDef")], [], ["checkSymbolTable, getAbsoluteSymbols, findSymbolDef"])
prop("C21", "The symbol table object never loses or invents a symbol",
     "A symbol table keeps each symbol as first added; adding it again changes nothing, updating replaces value and kind of known symbols only. The undefined list holds, once and in order, the symbols added without a value until pruning or resolving removes exactly those that have one by then; resolving always ends, and counts, lookups, the value/validity queries and the printed table (all symbols in order, then the undefined ones) agree with this. Tables do not influence each other.",
     ["histories", "inputs"], "every history of add, update, prune, resolve, reference and lookup",
     "The symbol table has no tests.", [ST], [("table and undefined list", ST + ":SymbolTable")], [("undefs", "symbols without a value", ST)], ["SymbolTable, SymbolTableEntry"])
T = "tools/"
prop("C22", "The instruction reports count and list exactly the source's instructions",
     "The instruction tools report on exactly the cards of the named sources (includes in place, cards with an asterisk in column 8 left out): check-instructions and parse name, in card order with file, line and text, each card whose instruction is not in the vocabulary, and end with the right number of errors (parse adding the faulty symbol definitions of all files, and giving the number of source lines). "
     "check-instructions --count gives the number of source lines, the number of cards with a command (asterisk cards included), and for each known instruction how many cards use it and which percentage that is, in name order or, with --sort, by falling count, --unused leaving out of the table and listing separately those never used; --print-opcodes (parse --debug) shows every card with a command. "
     "list-instructions prints exactly the cards with the given operation (any mask when none is given, a given mask only, or any mask when it ends in a comma), and refuses operations that do not exist. --verbose only adds lines telling which files are read and which comment lines are skipped. A source that cannot be read is an error, and no tool changes a file.",
     ["inputs", "programs", "configurations"], "every set of source files and every combination of options",
     "The tools have no tests.", [T + "check-instructions.py", T + "list-instructions.py", T + "parse.py"],
     [("card loop and report", T + "check-instructions.py:main"), ("operation match", T + "list-instructions.py:main"), ("error totals", T + "parse.py:main")], [],
     ["standard output and error, exit code, files"])
prop("C23", "The symbol reports show the whole symbol table of all the named files",
     "The symbol tools build one table from all the named files, in order, and tell the number of errors of each: list-symbols prints every definition once, sorted by symbol, segment, subsegment and kind, with tag prefix, file, line and card, and the total number of errors if there are any. check-symbols --complex names exactly the symbols that have only complex definitions, in order, with their number, suggests (at most ten) absolute symbols for each, or says there are none, and for several files gives the overall total. "
     "find-symbols prints all definitions of the symbol, or the names that begin or end with it in order, or similar absolute symbols, or nothing; conflicting ways to search are refused. A source that cannot be read is an error, and no tool changes a file.",
     ["inputs", "programs", "configurations"], "every set of source files, every symbol and every combination of options",
     "The tools have no tests.", [T + "list-symbols.py", T + "check-symbols.py", T + "find-symbols.py"],
     [("table over all files", T + "*-symbols.py:main")], [], ["standard output and error, exit code, files"])
prop("C24", "Listings and generated lines and pages contain exactly what was asked for",
     "listing writes, next to each named source (extension replaced by .lst), one line per card in order with file, line number and text, and changes no other file. genlines prints one line per number from start to end (never beyond) in the given steps, up or down, zero-filled to at least four digits or the width of the end, starting at the first column and padded as far as the last; numbers of more than six digits or that are no numbers, and a zero step, are refused. "
     "genpages appends to its file a log card (of the file's first L card, or named by the first Filename line) and one numbered heading per page of the (last) Pages line, and leaves the file alone when that information is missing or the pages run backwards, with an error.",
     ["inputs", "configurations", "programs"], "every source, range, step, column pair and heading",
     "The tools have no tests.", [T + "listing.py", T + "genlines.py", T + "genpages.py"],
     [("listing", T + "listing.py:main"), ("line numbers", T + "genlines.py:main"), ("page headings", T + "genpages.py:main")], [], ["standard output, exit code, files"])
CX = "h800/context.py"
prop("C25", "Saving, loading and resetting an assembly context lose nothing",
     "A new assembly context starts at line, location, cosequence location, bank and pass 0 with no code, records, symbols, messages, errors or warnings, and the files, options (with their verbose and debug settings) and logging it was given. Saving copies its line numbers, code, source line, location, cosequence location, bank and messages to a record and loading takes exactly these back, so that they come out as saved whatever is assigned to the context meanwhile; resetting returns line numbers, code, source line, current and previous record, symbol and reparse flags, location and bank to their initial values. "
     "Everything else stays as it was, and so do other contexts and other saved records.",
     ["histories", "configurations"], "every history of assignments, saves, loads and resets over several contexts and records",
     "The context has no tests.", [CX], [("save, load, reset", CX + ":Context")], [], ["Context attributes, records"])
prop("C26", "The character set maps all 64 codes as documented",
     "Each of the 64 six-bit codes, and nothing else, has an entry in the character set: digits at 0-9, letters in the three zones at 17-25, 33-41 and 50-57, the specials of the high-speed printer, one code without character (44), the line end (61), and blanks at the unassigned codes; every character other than the blank has exactly one code.",
     ["inputs"], "all 64 codes and all characters",
     "The character set has no tests.", ["h800/charset.py"], [("table", "h800/charset.py:CHARSET")], [], ["CHARSET"])


def main():
    import sys
    sys.path.insert(0, os.path.join(V, "lib"))
    from registry import PROPS
    P.sort(key=lambda x: x["p"]["id"])
    assert {x["p"]["id"] for x in P} == set(PROPS), {x["p"]["id"] for x in P} ^ set(PROPS)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["p"]["title"]) <= 80, x["p"]["title"]
            f.write(json.dumps(x["p"]) + "\n")
    checks = []
    for x in P:
        i = x["p"]["id"]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification model-checked with TLC; executions of the real code validated against it by TLC (trace validation)",
            "level": "model_checking",
            "level_note": "The specification is exhaustively checked within the bounds in DESIGN.md; the code is bound to it by validating every event of "
                          "generated executions of the real code with the same TLA+ transition functions. Sound for what was executed; not a proof over all inputs. "
                          "Trusts TLC, the drivers' recording, and CPython." + x["note"]})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks: the code is observed through its public API. Known findings and repairs: known_findings.json."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
