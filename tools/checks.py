"""Configuration of the checks: per property the harnesses, their bounds (defs) and time budgets per tier."""
CHECKS = {}

CHECKS["P01"] = dict(
    bounds="documents of up to 3 (quick) / 4 (thorough) symbolic UTF-8 bytes, one change with any range and 0-2 inserted symbolic bytes, then an insertion at any position",
    outside="longer documents and longer histories; ill-formed UTF-8 from the client",
    harnesses=[dict(file="p01_sync.cpp",
                    quick=[dict(defs=["L0=3", "L1=2"], budget=150)],
                    thorough=[dict(defs=["L0=4", "L1=2"], budget=1500), dict(defs=["L0=3", "L1=2", "NCH=3"], budget=1500)],
                    covers=["full text change", "column beyond end of line", "line beyond the last line", "multi-line range"])])

CHECKS["P06"] = dict(
    bounds="expressions of up to three operands with every operator pair (arithmetic + - * /, AND OR XOR NOT SLA SLL SRA SRL, parentheses); each operand any 32-bit value (three-operand expressions with one of * and /: any 8-bit value, with two: -4 to 3)",
    outside="longer expressions; products of three full 32-bit values",
    harnesses=[dict(file="p06_arith.cpp", quick=[dict(budget=150)], thorough=[dict(budget=1500)], covers=["overflow", "priority", "shift"])])

CHECKS["P07"] = dict(
    bounds="comparisons of any two 32-bit integers and of any two strings of up to 2 (quick) / 3 (thorough) characters, logical expressions of three operands with every operator pair",
    outside="longer strings and expressions; the relative order of characters whose EBCDIC code varies between code pages",
    harnesses=[dict(file="p07_logic.cpp", quick=[dict(budget=150)], thorough=[dict(defs=["SL=3"], budget=1500)],
                    covers=["integers", "strings", "any bytes", "priorities"])])

CHECKS["P08"] = dict(
    bounds="every built-in function with every argument of up to 3 (quick) / 4 (thorough) symbolic ASCII characters (behind fixed prefixes that reach the length and overflow limits) or every 32-bit integer; decimal output for 9 windows of 256 integers; round trips for every 32-bit integer",
    outside="longer strings; characters beyond ASCII as arguments; attribute-related functions (ESYM, SYSATTRA, SYSATTRP)",
    harnesses=[dict(file="p08_func.cpp", quick=[dict(budget=150)], thorough=[dict(defs=["SL=4"], budget=1500)],
                    covers=["invalid argument", "integer round trip", "string round trip"] + "B2A C2A D2A DCLEN FIND INDEX ISBIN ISDEC ISHEX ISSYM X2A A2B A2C A2D A2X B2C B2D B2X BYTE C2B C2D C2X D2B D2C D2X DCVAL DEQUOTE DOUBLE LOWER SIGNED UPPER X2B X2C X2D".split())])

CHECKS["P05"] = dict(
    bounds="texts of up to 3 (quick) / 4 (thorough) symbolic characters (ASCII, or of the Latin-1, symbol and emoji ranges), statement and comment lines of 72 columns with a symbolic continuation column and continuation line, CRLF and LF, unlimited lines",
    outside="longer symbolic texts; columns changed by ICTL; double-byte mode; input inserted by AINSERT (P14)",
    harnesses=[dict(file="p05_lexer.cpp", quick=[dict(budget=150)], thorough=[dict(defs=["N1=4"], budget=1700)],
                    covers=["continued", "end of line", "not continued", "short text", "wide character"])])

CHECKS["P02"] = dict(
    bounds="files of up to 5 (quick) / 6 (thorough) symbolic bytes",
    outside="longer files (the conversion looks at no more than 4 bytes at a time)",
    harnesses=[dict(file="p02_utf8.cpp", quick=[dict(defs=["NB=5"], budget=150)], thorough=[dict(defs=["NB=6"], budget=1500)], covers=["four-byte character", "ill-formed"])])

CHECKS["P03"] = dict(
    bounds="messages whose strings hold up to 2 (quick) / 3 (thorough) symbolic bytes of UTF-8, two messages in a row, any other header of 2/3 symbolic bytes before or behind the length, bodies with 2/3 symbolic bytes that need not be JSON, input cut at any point, any 3/4 bytes as input",
    outside="longer messages; content lengths of more than four digits; the concurrency of writers (P04)",
    assumptions=["libstdc++'s operator>> for strings is replaced by its definition compiled with the code"],
    harnesses=[dict(file="p03_frame.cpp", server=True, quick=[dict(defs=["NB=2"], budget=150)], thorough=[dict(defs=["NB=3"], budget=1700)],
                    covers=["round trip", "other headers", "JSON body", "not JSON", "truncated", "any bytes"])])

CHECKS["P04"] = dict(
    bounds="every interleaving with at most 2 (quick) / 3 (thorough) involuntary thread switches or spurious wake-ups, at every operation on a mutex, condition variable or atomic; 2 (quick) / 3 (thorough) requests of 4 kinds and 9 malformed ones, one or two servers, the dispatcher with its queue, two writers",
    outside="more preemptions, requests and threads; weak memory (the code uses sequentially consistent atomics and mutexes only)",
    assumptions=["std::thread, mutex, condition_variable, atomic and deque in the language server's sources are replaced by stand-ins with symbolic scheduling (harness/fib.h)"],
    harnesses=[dict(file="p04_queue.cpp", server=True, pre=["-include", "@V/harness/fib.h"],
                    quick=[dict(defs=["NREQ=2", "PREEMPT=2"], budget=150)], thorough=[dict(defs=["NREQ=2", "PREEMPT=3"], budget=1500), dict(defs=["NREQ=3", "PREEMPT=2"], budget=900)],
                    covers=["one server", "two servers", "end", "malformed", "program", "writers", "superseded"])])

CHECKS["P11"] = dict(
    bounds="expressions of two terms (every operator, any 32-bit values), three terms (every operator pair, with and without parentheses) and four terms (+ and -), with unary signs; terms are absolute symbols of any value below 2^28 in size (8 bits with one of * and /, 4 bits with two) and locations of two sections",
    outside="longer expressions; terms of more than two sections; results that do not fit into 32 bits (only that they do not crash)",
    harnesses=[dict(file="p11_mach.cpp", quick=[dict(budget=150)], thorough=[dict(budget=1500)],
                    covers=["absolute", "not absolute", "relocatable", "complex relocatable"])])

_LOC = "programs of 3 (quick) / 4 (thorough) statements of 17 kinds (DS, DC, a machine instruction, EQU, ORG in six forms, CSECT, DSECT, LOCTR) between fixed ones; duplication factors and displacements are any values of 0 to 15"
CHECKS["P09"] = dict(
    bounds=_LOC,
    outside="longer programs; whether a location before the beginning of a later location counter (LOCTR) is reported, as its beginning is not known at that point",
    harnesses=[dict(file="p09_loctr.cpp", quick=[dict(defs=["LATE=0"], budget=150)],
                    thorough=[dict(defs=["LATE=0", "KS=4"], budget=1700)],
                    covers=["values", "before the beginning", "other location counter"])])

CHECKS["P10"] = dict(
    bounds="three symbols defined by any of 9 forms of expressions over each other, the distance of labels and length attributes, in every order, with any values of 0 to 100; expressions of up to four locations of two sections whose lengths are defined later; and " + _LOC + ", the symbols of lengths and displacements defined behind their use, in both orders",
    outside="more symbols; forward references in ORG operands (not allowed by the language)",
    harnesses=[dict(file="p10_order.cpp", quick=[dict(budget=150)], thorough=[dict(budget=1500)], covers=["values", "cycle", "undefined"]),
               dict(file="p11_mach.cpp", quick=[dict(defs=["LATE"], budget=150)], thorough=[dict(defs=["LATE"], budget=300)], covers=["absolute", "relocatable", "complex relocatable"]),
               dict(file="p09_loctr.cpp", quick=[dict(defs=["LATE=1"], budget=150)],
                    thorough=[dict(defs=["LATE=1", "KS=4"], budget=1700), dict(defs=["LATE=1", "KS=5", "MENU=DS_A,ORG_L0,DS_AH,ORG_,LOC,DS_D"], budget=600)], covers=["values"])])

CHECKS["P12"] = dict(
    bounds="38 types and extensions with any 32-bit byte or bit length and any duplication factor up to 4000, DC and DS with and without values; three operands of 8 forms (lengths 1 to 31 bits or bytes, factors 0 to 7); values of up to 3 (quick) / 5 (thorough) characters for X, B, P, Z, F and C; any 32-bit scale and exponent",
    outside="longer values; the truncation of values; types G and Q; the integer attribute when a length or scale refers to a symbol defined later",
    harnesses=[dict(file="p12_data.cpp", quick=[dict(budget=150)], thorough=[dict(defs=["NC=5"], budget=1700)],
                    covers=["DC", "DS", "invalid factor or length", "several operands", "values", "invalid value", "attributes", "invalid modifier"])])

CHECKS["P13"] = dict(
    bounds="2282 instructions and extended mnemonics with any 32-bit value at every operand, displacement, index or length and base, one operand too few and too many; 56 instructions of every operand format also with wrong forms, relocatable and missing operands and their location and length",
    outside="several operands out of range at once; vector registers 16 to 31 (the code accepts 0 to 15 by design); VSRP, VFTCI, VCVD, VCVDG and VLIP; implicit addresses resolved through USING",
    assumptions=["the table of instruction formats (harness/p13_table.inc) was taken from the code once, reviewed against the z/Architecture formats and is the specification since"],
    harnesses=[dict(file="p13_oper.cpp", quick=[dict(budget=150)], thorough=[dict(budget=900)], covers=["number of operands", "out of range", "relocatable", "valid"]),
               dict(file="p13_table.cpp", quick=[dict(budget=200)], thorough=[dict(budget=1500)], covers=["table"])])

CHECKS["P14"] = dict(
    bounds="operands of 4 characters of A , ( ) ' written out, as an element of a sublist, in a keyword parameter, from a variable symbol, passed on from a macro and as defaults; &SYSLIST with up to three subscripts; four prototypes with up to two of six kinds of operands each; characters of one to four bytes",
    outside="longer operands; macro calls with continued operands; attribute references in operands",
    harnesses=[dict(file="p14_macro.cpp", quick=[dict(budget=150)], thorough=[dict(defs=["NS=5"], budget=1500)],
                    covers=["operands", "sublist", "variable", "keyword", "keyword variable", "passed on", "parameters", "characters", "not balanced", "unbalanced value"])])

CHECKS["P15"] = dict(
    bounds="strings of 3 (quick) / 4 (thorough) characters of one to four bytes, any 32-bit start and length of a substring, any duplication factor up to 9 or negative, any 32-bit integer",
    outside="longer strings; the limit of 4064 characters; the count attribute of negative SETA symbols",
    harnesses=[dict(file="p15_char.cpp", quick=[dict(budget=150)], thorough=[dict(defs=["NC=4"], budget=1500)],
                    covers=["substring", "invalid substring", "duplication", "invalid factor", "concatenation", "integer", "characters"])])

CHECKS["P16"] = dict(
    bounds="2 (quick) / 3 (thorough) statements of any kind (LCLx, GBLx with and without dimension, SETx with and without subscript, lists with omitted operands, created symbols) of three types on one symbol in open code and a macro called between them, any 32-bit subscript and value",
    outside="longer histories; GBLx of one symbol with different types in different scopes",
    harnesses=[dict(file="p16_set.cpp", quick=[dict(budget=150)], thorough=[dict(defs=["NOP=3"], budget=1500)],
                    covers=["any subscript", "invalid", "macro", "open code"])])

CHECKS["P17"] = dict(
    bounds="2 (quick) / 3 (thorough) blocks ended by any of 6 kinds of branches to any block, behind all of them or to an undefined symbol, in open code and in a macro called twice; any 32-bit operands of the conditions; branch counters of 0 to 2",
    outside="more branches; branches in COPY members and nested macros; counters above 2",
    harnesses=[dict(file="p17_flow.cpp", quick=[dict(defs=["NL=2", "ACTR_MIN=0", "ACTR_N=3", "VMAX=4"], budget=200)], thorough=[dict(defs=["NL=3", "ACTR_MIN=2", "ACTR_N=1", "VMAX=3"], budget=1700)],
                    covers=["stopped", "macro", "open code", "undefined"]),
               dict(file="p17_label.cpp", quick=[dict(budget=100)], thorough=[dict(budget=300)], covers=["macro", "open code"])])
CHECKS["P18"] = dict(
    bounds="95 kinds of statements and of contexts (operands, strings, macro operands, continuation lines, COPY members, model statements), each with 2 (quick) / 3 (thorough) characters that are any of 16 with a role in the language, end of line included",
    outside="longer runs of arbitrary characters; characters without a role in the language (covered as ordinary characters); overlapping tokens of strings and of the variable symbols within are by design",
    harnesses=[dict(file="p18_any.cpp", quick=[dict(defs=["NC=2"], budget=200)], thorough=[dict(defs=["NC=3"], budget=1700)],
                    covers=["reported", "valid"]),
               dict(file="p18_rest.cpp", quick=[dict(defs=["NC=2"], budget=100)], thorough=[dict(defs=["NC=3"], budget=600)], covers=["ran"])])
CHECKS["P19"] = dict(
    bounds="patterns and names of up to 2 characters (any printable ones; thorough: up to 3 of a b * ? . + [ ); 2 (3) entries with 8 patterns and 3 groups for 3 programs; 2 libraries with 2 members, extensions, optional and missing ones; all sequences of 1 (2) changes of the two configuration files among 11 and 9 texts, valid and invalid",
    outside="longer patterns; libraries outside the workspace folder; environment of the file system (links, permissions)",
    harnesses=[dict(file="p19_wild.cpp", quick=[dict(defs=["PL=2", "FL=2"], budget=200)],
                    thorough=[dict(defs=["PL=2", "FL=2"], budget=200), dict(defs=["PL=3", "FL=3", 'ALPHABET="ab*?.+["'], budget=900)], covers=["match", "no match"]),
               dict(file="p19_conf.cpp", quick=[dict(defs=["PART=1", "NENT=2"], budget=100, covers=["group", "no group"]), dict(defs=["PART=2"], budget=200, covers=["found", "missing"]),
                                                dict(defs=["PART=4", "STEPS=1"], budget=100, covers=["none", "configured"])],
                    thorough=[dict(defs=["PART=1", "NENT=3"], budget=900, covers=["group", "no group"]), dict(defs=["PART=2"], budget=300), dict(defs=["PART=3"], budget=900),
                              dict(defs=["PART=4", "STEPS=2"], budget=900)])])
CHECKS["P20"] = dict(
    bounds="2 programs, a macro and a copy member with 2 or 3 texts each, on the disk (in a scratch folder) and open in the editor; all sequences of 2 (thorough 3) events (open, change, close, file written or deleted and announced, and characters typed: any of 3 at one place, thorough any of 7 at three places); answers to definition, references, hover and completion requests at any position after each sequence of 1 (2) events",
    outside="longer histories; several workspace folders; file events the editor does not announce; reports in an open member that no open program uses",
    harnesses=[dict(file="p20_hist.cpp", quick=[dict(defs=["LEN=2", "EDITS=1"], budget=200), dict(defs=["LEN=1", "NAV"], budget=150, covers=["definition", "no definition"])],
                    thorough=[dict(defs=["LEN=2", "EDITS=3"], budget=600), dict(defs=["LEN=3"], budget=900), dict(defs=["LEN=2", "NAV"], budget=600)], covers=["clean", "diagnostics"])])
CHECKS["P21"] = dict(
    bounds="2 (quick) / 3 (thorough) folders with paths of up to 3 characters of / a b below a common one, with equal and different names, one of them removed and possibly added again, documents with paths of up to 4 such characters",
    outside="more folders; case-insensitive file systems; links",
    harnesses=[dict(file="p21_folders.cpp", quick=[dict(defs=["NF=2"], budget=150)], thorough=[dict(defs=["NF=2", "PL=4", "DL=6"], budget=900), dict(defs=["NF=3", "PL=3", "DL=4"], budget=900)],
                    covers=["in a folder", "outside", "removed"])])
CHECKS["P22"] = dict(
    bounds="any position (any 32-bit line and column) of programs of 4 to 12 lines in which each name is any of two (ordinary symbols; variable symbols of a macro and of open code; sequence symbols and macros); any request at any column up to 255 of any line of 23 texts (empty, unfinished, continued, CRLF, multi-byte, invalid macros, COPY), open, not open and as configuration",
    outside="occurrences in macros that are never called; longer programs; the order and wording of completion and hover texts",
    harnesses=[dict(file="p22_nav.cpp", quick=[dict(defs=["PART=1", "QUICK"], budget=100), dict(defs=["PART=2"], budget=100), dict(defs=["PART=3"], budget=100), dict(defs=["PART=4"], budget=100)],
                    thorough=[dict(defs=["PART=1"], budget=300), dict(defs=["PART=2"], budget=300), dict(defs=["PART=3"], budget=300), dict(defs=["PART=4"], budget=300)], covers=["no symbol", "defined"]),
               dict(file="p22_req.cpp", quick=[dict(budget=150)], thorough=[dict(budget=300)], covers=["answered"])])
CHECKS["P23"] = dict(
    bounds="any values of the symbols (0 to 9); all programs of 2 (quick) / 3 (thorough) statements of 20 kinds that define two names, each using the other, itself or a symbol defined behind them",
    outside="longer programs; names defined through macros; CXD, DXD and WXTRN",
    harnesses=[dict(file="p23_defs.cpp", quick=[dict(defs=["NS=2"], budget=150)], thorough=[dict(defs=["NS=3"], budget=1500)], covers=["once", "twice"])])
CHECKS["P24"] = dict(
    bounds="18 language server messages and 13 debug adapter messages with any one part (thorough, language server: two) replaced by any of 11 values of other kinds or left out; requests with any 32-bit line and column, numeric and textual ids; documents and changes of up to two parts; diagnostics of up to three documents in any order; the debug adapter with and without a session",
    outside="several wrong parts at once; the conversion between paths and URIs; launching a program (see P25)",
    harnesses=[dict(file="p24_lsp.cpp", server=True, quick=[dict(budget=150)], thorough=[dict(budget=150), dict(defs=["ND=2"], budget=1500)], covers=["request", "no request", "valid", "documents", "responses", "diagnostics"]),
               dict(file="p24_dap.cpp", server=True, quick=[dict(budget=150)], thorough=[dict(budget=150)], covers=["request", "no request"])])
CHECKS["P25"] = dict(
    bounds="a program with a macro call, a continued statement and a branch; a breakpoint at any line of it or in another file, moved or not; 2 commands (thorough 4) among step over, step in, continue and disconnect of a client that waits for the program to stop, and of one that does not; every interleaving with at most 1 (thorough 2) involuntary thread switches or spurious wake-ups",
    outside="more preemptions, commands and breakpoints; other programs; requests for the stack or variables while the program runs; weak memory",
    assumptions=["std::thread, mutex, condition_variable and atomic in the debugger's sources are replaced by stand-ins with symbolic scheduling (harness/fib_dbg.h)"],
    harnesses=[dict(file="p25_debug.cpp", pre_debugger=["-include", "@V/harness/fib_dbg.h"], quick=[dict(defs=["PREEMPT=1", "NC=2"], budget=250)],
                    thorough=[dict(defs=["PREEMPT=0", "NC=4"], budget=600), dict(defs=["PREEMPT=1", "NC=2"], budget=300), dict(defs=["PREEMPT=2", "HASTY"], budget=500, covers=["hasty"]), dict(defs=["PREEMPT=2", "NC=1", "FEW"], budget=500)],
                    covers=["stop", "end", "disconnect", "hasty"])])
