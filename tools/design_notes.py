ORACLE = {
"P01": "The harness keeps the client's document as a sequence of UTF-8 bytes and applies the change by the LSP rules (lines split at LF, CR, CRLF; columns in UTF-16 units, clamped) on its own; the text and the version the real file manager holds have to be equal after the change and after a further insertion at any position, which shows a stale line table.",
"P02": "An independent decoder of the Unicode standard's table of well-formed byte sequences walks the input; the output has to hold each well-formed character unchanged and one substitution character for each other byte.",
"P03": "Round trip: what `write` frames, `read` has to deliver, for any string content; streams are symbolic buffers whose reads end anywhere; malformed headers and bodies are any bytes, and the message behind them has to arrive.",
"P04": "Symbolic scheduler: requests carry numbers; the stand-in server records begin and end of each; order, mutual exclusion, exactly-once, no activity after finish_server_requests, termination (a state without a runnable thread is a deadlock) and the cancellation token are asserted in every interleaving.",
"P05": "The harness computes line and UTF-16 column of every character of the input, and which columns belong to the statement, to the continuation and to the ignored part; the tokens have to tile exactly those.",
"P06": "64-bit reference arithmetic with a precedence parser of its own; overflow is decided in 64 bits.",
"P07": "Signed comparison for integers; length first, then a reference EBCDIC table for strings; reference evaluation of the logical operators by priority; trichotomy as assertions over the six results.",
"P08": "A reference implementation per function written from the HLASM reference, and round trips (X2A(A2X(x)) = x ...) for all integers.",
"P09": "Each location counter is simulated on its own (current, highest, alignment), counters of a section are laid out in order; values and sections of all labels are compared, and the cases in which ORG has to be reported.",
"P10": "The same values computed from definitions in dependency order, as if all were known from the start; cycles are found by a graph search in the harness; for P09's programs the same oracle with the symbols defined last.",
"P11": "An expression evaluator over (value, multiplicity per section) with the relocatability rules.",
"P12": "A table of types (implicit length, boundary, limits) taken from the HLASM reference and per-type grammars of nominal values.",
"P13": "A table of 2282 instructions with the field of each operand; the diagnostic has to be there exactly if the symbolic value is outside the field.",
"P14": "A reference splitter of macro operands (parentheses, apostrophes, commas at level zero), applied to the symbolic text; parameters, elements, N', K' and SYSLIST are compared.",
"P15": "Reference strings over code points.",
"P16": "A model of scopes and arrays: (scope, name) to type, dimension and elements; every statement's effect and whether it is reported.",
"P17": "An interpreter of the branches over the list of blocks; the order of visited blocks is recorded by the program itself in a SETC symbol and compared.",
"P18": "No oracle of content: ends, no crash or escaped exception, every diagnostic's range within the text or the member, every token on one line; and (rest of program) a statement behind the malformed line assigns its symbol.",
"P19": "A reference matcher for patterns; the first matching entry by a loop over the entries; the expected library by the order of the group; reports of the configuration by rules of the documentation.",
"P20": "Differential against the real code itself: a second, fresh server opened on the same files and documents has to publish the same diagnostics and give the same answers.",
"P21": "The longest folder that is a proper path prefix, decided character by character.",
"P22": "The program is generated from marked occurrences (kind, scope, name, defining or not), so that definition and references at a symbolic position are known; requests at any position of 23 texts must be answered.",
"P23": "The first definition of each name in a list of kinds, exempting continued sections and counters.",
"P24": "JSON-RPC and the debug adapter protocol: one answer per request, with its id; a recording workspace manager and client.",
"P25": "The list of statements in the order of their execution with their lines, depth and values; the next stop is computed from the command and the breakpoint.",
}
FALSE = """
## False alarms met on the way, and what was done

- P11: "a product of relocatable values has no value" was too strong (the language leaves the value open once reported); dropped.
- P09: an ORG before the beginning of a *later* location counter cannot be known at that point; excluded (stated in the bounds).
- P13: `PR 1` is an operation with a remark, not a wrong operand; instructions without operands are excluded from "one too many".
  Vector registers 16-31 are rejected by design of the code; VSRP, VFTCI, VCVD, VCVDG, VLIP (formats the code treats as an
  approximation) and VFEEGS (a misspelt mnemonic) are left out. The instruction table is a snapshot of the code reviewed
  against the architecture's formats; it is the specification from then on.
- P14: the number attribute of `()` is 0 or 1 depending on the release; both are accepted.
- P15: K' of a negative SETA symbol is not claimed.
- P17: E055/E056 (ACTR) depend on which counter is exhausted first; only that one of them is reported is claimed.
- P18: tokens of variable symbols inside strings overlap the string by design; an end column one behind the end of the line is
  the position of a missing operand; a malformed macro *prototype* makes the extent of the definition ambiguous and is excluded from
  "the rest of the program".
- P20: reports in a member that is open but used by no open program are not claimed (whether it is analysed as a program of its own
  depends on what was opened first).
- P22: calls in macros that are never expanded are not collected by design; a position in a subscript may count as the subscripted
  symbol; where two symbols touch either may be meant.

## Not applicable

Listed under not_applicable in MANIFEST.json, with the reason.
"""
