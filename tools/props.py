"""The properties (text) -- gen.py writes properties.jsonl and MANIFEST.json from this and checks.py."""
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, observe=(), level_note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


P("P01", "The server's copy of an open document always equals the client's",
  "After a document is opened and after every change notification (incremental with any range, or full text) the server's text is exactly the text the client has, whatever line separators (LF, CR, CRLF) and multi-byte characters it contains. Positions are counted in lines and UTF-16 units, a column behind the end of a line means the end of that line, a line behind the last one means the end of the text, and every change raises the version by one.",
  ["inputs", "histories"], "every document text, every sequence of changes, every range and inserted text",
  "The tests apply a dozen fixed changes to three fixed documents; joined and split line ends, surrogate pairs at range edges and positions behind the end are combinations no list of samples settles.",
  ["parser_library/src/workspaces/file_impl.cpp", "parser_library/src/workspaces/file_manager_impl.cpp"],
  [("incremental replacement and line table update", "file_impl::did_change"), ("position to offset conversion", "file_impl::index_from_position"),
   ("change batches", "file_manager_impl::did_change_file")], ["file text after each notification"])

P("P02", "Any file content is read as well-formed text without losing valid characters",
  "Whatever bytes a file consists of, the text the server works with is well-formed UTF-8. Every well-formed character of the file is kept unchanged and in order, and every byte that is not part of one (truncated, overlong, surrogate, too large or stray) is replaced by the substitution character.",
  ["inputs"], "every sequence of bytes",
  "Two or three fixed byte strings are tested; the ill-formed sequences that matter (truncation at the end of the file, overlong forms, surrogates) are combinations of byte classes at every offset.",
  ["parser_library/src/workspaces/file_impl.cpp"], [("replacement of bytes that are not UTF-8", "file_impl::replace_non_utf8_chars")], ["text of a file after loading"])

P("P05", "Statement lines become gap-free tokens with the positions the client sees",
  "For every input text the tokens cover the columns of the statement in order, without gap or overlap, and each one carries exactly the characters of the source at its line and UTF-16 column; character classification (identifier, number, space, separator) depends only on the character. Columns up to the end column belong to the statement, a non-blank continuation column joins the next line from the continue column on, columns behind it never become operands, and CRLF and LF make no difference.",
  ["inputs"], "every input text: any characters incl. multi-byte ones, any line lengths, any continuation column",
  "Tests fix a few dozen texts; the behaviour depends on the interplay of character width, column 71/72, blank and non-blank continuation columns and the kind of line end.",
  ["parser_library/src/lexing/lexer.cpp", "parser_library/src/lexing/input_source.cpp", "parser_library/src/lexing/token.cpp"],
  [("columns, continuation and end of line", "lexer::consume / lexer::end_line"), ("character classes", "lexer::ord_char and identifier/space tables"), ("token positions", "lexer::create_token")], ["token stream"])

P("P06", "Conditional-assembly arithmetic follows 32-bit HLASM rules",
  "For every operand value an arithmetic conditional-assembly expression yields the exact result in 32-bit two's complement arithmetic with the language's operator priorities: * and / before + and -, division by zero gives zero, masking operators (AND, OR, XOR, NOT) and shifts (SLA, SLL, SRA, SRL) bitwise with the shift amount taken modulo 64. A result that does not fit (overflow) is reported with a diagnostic instead of silently wrapping or crashing, and no valid expression is reported.",
  ["inputs"], "every operand value in every combination of operators and parentheses",
  "Overflow, sign and shift boundaries lie at particular values of 2^32 operands per operator and combine with operator priorities.",
  ["parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp", "parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp", "parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp", "parser_library/src/expressions/conditional_assembly/ca_operator_utils.cpp"],
  [("operator priorities", "ca_expr_list::resolve"), ("operators", "ca_basic_binary_operator / ca_function_binary_operator::operation")], ["value of the SETA symbol", "diagnostics"])

P("P07", "Conditional-assembly comparisons and logic give the HLASM truth value",
  "For every pair of integers EQ, NE, LT, LE, GT and GE decide by signed comparison; for every pair of strings a shorter one is less and equally long ones are ordered by EBCDIC codes. Logical expressions combine comparisons with NOT, AND, OR and XOR by the language's priorities, and the trichotomy always holds: exactly one of LT, EQ and GT is true and NE, LE, GE are their complements.",
  ["inputs"], "every pair of integers and strings, every combination of logical operators",
  "Comparison results depend on both operands over their whole range (differences that overflow, strings with unusual characters); tests compare a handful of pairs.",
  ["parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp", "parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp", "parser_library/src/ebcdic_encoding.cpp"],
  [("relational operators", "ca_function_binary_operator::compare_relational"), ("EBCDIC order", "ebcdic_encoding")], ["value of the SETB symbol", "branch taken by AIF"])

P("P08", "Conditional-assembly built-in functions convert exactly as specified",
  "Each built-in conversion or test function (A2B, A2C, A2D, A2X, B2A, B2C, B2D, B2X, BYTE, C2A, C2B, C2D, C2X, D2A, D2B, D2C, D2X, DCLEN, DCVAL, DEQUOTE, DOUBLE, FIND, INDEX, ISBIN, ISDEC, ISHEX, ISSYM, LOWER, SIGNED, UPPER, X2A, X2B, X2C, X2D) returns exactly the specified value for every argument, and an argument outside its domain produces a diagnostic and never a crash. Conversions that are inverse to each other give back the original value.",
  ["inputs"], "every integer and every string argument",
  "Each function has boundaries in length, digit validity, sign and encoding that fixed examples cover only pointwise; round trips must hold for all 2^32 integers.",
  ["parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp", "parser_library/src/expressions/conditional_assembly/ca_expr_policy.cpp", "parser_library/src/ebcdic_encoding.cpp"],
  [("functions", "ca_function::A2B ... ca_function::X2D"), ("EBCDIC tables", "ebcdic_encoding::a2e / e2a")], ["function result", "diagnostics"])

P("P03", "Protocol messages are framed without loss, mixture or invention",
  "Every message that is written is read by the other side as exactly the same JSON value, in the order written, whatever characters it contains, however the bytes are split and whatever other headers accompany the length. A body that is not JSON is skipped and the message behind it is still read, a truncated message is never delivered, and no input of any kind makes reading crash or go on for ever.",
  ["inputs"], "every message content, header set, chunking, truncation point and every sequence of input bytes",
  "Tests read three fixed messages; content that looks like a header, split reads and broken frames in all combinations cannot be listed.",
  ["language_server/src/base_protocol_channel.cpp", "language_server/src/stream_helper.h"],
  [("header and body reading", "base_protocol_channel::read_message / read"), ("framing of output", "base_protocol_channel::write_message")], ["messages read", "bytes written"])

P("P04", "Requests are handled once, in order and never after their server is gone",
  "Under every interleaving of the reading, dispatching and working threads each request reaches its server exactly once, in the order received and one at a time; malformed messages are passed on like any other. Once a server's requests were finished, none of them is queued or still running; ending the worker always terminates, no thread waits for ever, and concurrent writers never mix their messages. The analysis of a file is abandoned only if a newer version of that file has been received.",
  ["schedules", "histories"], "every interleaving of threads and every sequence of requests",
  "A unit test sees one schedule per run; lost wake-ups, early returns and use after destruction appear in particular interleavings only.",
  ["language_server/src/request_manager.cpp", "language_server/src/dispatcher.cpp", "language_server/src/blocking_queue.h", "language_server/src/json_queue_channel.cpp", "language_server/src/base_protocol_channel.cpp"],
  [("queue and worker", "request_manager::add_request / handle_request_ / end_worker"), ("finishing a server", "request_manager::finish_server_requests"),
   ("message queue", "blocking_queue::push / pop / terminate"), ("reading loop", "dispatcher::run_server_loop")], ["messages a server receives", "termination of threads"])

P("P11", "Machine and assembler expressions evaluate exactly, with correct relocatability",
  "For every combination of absolute symbols, locations of any sections, numbers, signs, parentheses and the operators + - * / an expression evaluates to the exact value (division by zero gives zero) with * and / before + and -. It is absolute exactly if the locations of every section cancel out, otherwise it is relocatable with the exact displacement and section counts, and simply relocatable exactly if one location of one section remains. No valid expression is reported, and no operand values make the evaluation crash.",
  ["inputs"], "every expression shape, every operand value, every assignment of terms to sections",
  "The sign and multiplicity of each section must come out right in every combination of terms and the arithmetic at every value; tests evaluate a few fixed expressions.",
  ["parser_library/src/expressions/mach_operator.h", "parser_library/src/expressions/mach_expr_term.cpp", "parser_library/src/context/ordinary_assembly/symbol_value.cpp", "parser_library/src/context/ordinary_assembly/address.cpp"],
  [("operators", "mach_expr_binary::evaluate / symbol_value::operator+ - * /"), ("cancelling sections", "address::operator+ / operator-")], ["value of the EQU symbol", "diagnostics"])

P("P09", "Every label gets the address the assembler would give it",
  "For every sequence of statements that reserve storage, align, set the location counter back or forward (ORG with and without operands, boundary and offset), switch sections or location counters, each label has exactly the section and offset the assembler assigns: boundaries of data and instructions are respected, ORG without operand continues behind the highest location used, a resumed section or location counter continues where it was left, and a further location counter of a section starts behind the previous one. An ORG to another location counter or before the beginning of the section is reported, and no valid program is.",
  ["inputs", "histories"], "every sequence of statements and every length, duplication factor and displacement",
  "Locations depend on the whole history of the counters and on the alignment of symbolic lengths; tests check a few fixed listings.",
  ["parser_library/src/context/ordinary_assembly/location_counter.cpp", "parser_library/src/context/ordinary_assembly/location_counter_data.cpp", "parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp", "parser_library/src/processing/instruction_sets/asm_processor.cpp"],
  [("storage, alignment and ORG", "location_counter::reserve_storage_area / set_value / set_available_value"), ("layout of location counters", "ordinary_assembly_context::finish_module_layout"), ("ORG operands", "asm_processor::process_ORG")], ["values of labels", "diagnostics"])

P("P10", "Symbols have the same values whatever the order of their definitions",
  "Wherever the symbols an expression, length or duplication factor refers to are defined - before or behind their use, in any order - every symbol and label of the program finally has the value it would have if all of them were known from the start. A symbol that depends on itself, directly or through other symbols, lengths and locations, is always reported as cyclic and never makes the analysis loop; symbols that do not depend on it keep their exact values.",
  ["inputs", "histories"], "every dependency structure, every order of definitions, every value",
  "Resolution happens in an order that depends on the whole program; each test fixes one structure and one order.",
  ["parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp", "parser_library/src/context/ordinary_assembly/location_counter.cpp", "parser_library/src/context/ordinary_assembly/address_resolver.cpp", "parser_library/src/context/ordinary_assembly/dependency_collector.cpp"],
  [("postponed dependencies", "symbol_dependency_tables::resolve / add_dependency"), ("cycles", "symbol_dependency_tables::check_cycle / check_loctr_cycle"), ("unresolved lengths in addresses", "space::resolve / location_counter::resolve_space")], ["values of symbols", "diagnostics"])

P("P12", "Data definitions occupy the storage and have the attributes the assembler gives",
  "For every type, duplication factor, byte or bit length, scale, exponent and value a DC or DS statement begins at the boundary of its type (none with an explicit length), occupies exactly the storage the assembler reserves - several values and operands included, bit lengths packed - and gives its label the exact length, scale and integer attributes. A factor, modifier or value outside what the type allows is reported, and no valid definition is.",
  ["inputs"], "every type, every factor and modifier value, every nominal value",
  "Each of some forty types has its own bounds, boundary and value syntax; tests check a few values per type, not every length at every bound or every spelling of a value.",
  ["parser_library/src/checking/data_definition/data_def_type_base.cpp", "parser_library/src/checking/data_definition/data_def_types_string.cpp", "parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp", "parser_library/src/checking/data_definition/data_def_types_address.cpp", "parser_library/src/checking/data_definition/data_def_types_floating_point.cpp", "parser_library/src/expressions/data_definition.cpp", "parser_library/src/processing/instruction_sets/asm_processor.cpp"],
  [("bounds of modifiers and values", "data_def_type::check"), ("lengths and attributes", "data_def_type::get_length / get_length_attribute"), ("packing of operands", "data_definition_operand::get_operands_length"), ("parsing of operands", "data_definition::parser")], ["values and attributes of labels", "diagnostics"])

P("P13", "Operands of machine instructions are reported exactly if they cannot be encoded",
  "For every machine instruction and extended mnemonic and every value of its operands, the statement is reported exactly if the number of operands is wrong or an operand does not fit its field: registers and masks 0 to 15, unsigned and signed immediates of their width, 12-bit unsigned or 20-bit signed displacements, length fields of 4 or 8 bits, index and base 0 to 15. Addresses are accepted where the instruction takes relative or storage operands and reported elsewhere, and every instruction starts at a halfword boundary and occupies exactly its length.",
  ["inputs"], "every instruction, every operand place, every operand value",
  "There are more than two thousand instructions with a range per operand; tests call some with one valid set of operands, no test walks every value of every field.",
  ["parser_library/src/checking/instr_operand.cpp", "parser_library/src/context/instruction.cpp", "parser_library/src/processing/instruction_sets/mach_processor.cpp", "parser_library/src/processing/instruction_sets/low_language_processor.cpp", "parser_library/src/semantics/operand_impls.cpp"],
  [("ranges", "machine_operand::check"), ("formats", "instruction::get_machine_instructions"), ("substituted operands", "low_language_processor::transform_mnemonic"), ("address operands", "address_machine_operand::get_operand_value")], ["diagnostics", "values of labels"])

P("P14", "Macro parameters receive exactly the operands of the call",
  "For every macro call - positional, keyword, omitted, quoted and nested sublist operands, written out, substituted from variable symbols or passed on from an enclosing macro - each parameter, each element and sub-element of it and of &SYSLIST, the number of elements and the number of characters are exactly what the assembler defines; keyword parameters that are not given keep their defaults. A valid call is not reported and no operand, balanced or not, makes the analysis crash.",
  ["inputs"], "every operand text, sublist structure, prototype and way of passing",
  "Splitting depends on the nesting of parentheses and quotes at every position; tests show a few fixed calls.",
  ["parser_library/src/processing/instruction_sets/macro_processor.cpp", "parser_library/src/context/variables/macro_param.cpp", "parser_library/src/context/variables/system_variable.cpp", "parser_library/src/context/macro_param_data.cpp", "parser_library/src/context/macro.cpp"],
  [("splitting of substituted operands", "macro_processor::string_to_macrodata"), ("operands of the call", "macro_processor::get_operand_args"), ("elements", "macro_param_data_composite::get_ith"), ("binding", "macro_definition::call")], ["values of macro parameters", "N' and K' attributes", "diagnostics"])

P("P15", "Character expressions give exactly the specified strings",
  "Concatenation, duplication, substring notation (with explicit and open length), the number of characters and the substitution of integers and bits produce exactly the specified string for every operand; positions and lengths count characters, not encoded bytes. A substring or duplication factor outside its domain is reported, with the result the language defines, and no operand makes the analysis crash.",
  ["inputs"], "every string of bounded length, every start, length and factor, every integer",
  "Bounds of substrings and of multi-byte characters combine freely; tests evaluate a few fixed substrings.",
  ["parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp", "parser_library/src/semantics/concatenation.cpp", "parser_library/src/semantics/concatenation_term.cpp", "parser_library/src/context/hlasm_context.cpp"],
  [("strings", "ca_string::evaluate"), ("substitution", "var_sym_conc::evaluate"), ("number of characters", "SET_t / variable_symbol::count")], ["value of the SETC symbol", "diagnostics"])

P("P16", "Variable symbols have the scope, type and elements the language gives them",
  "For every sequence of declarations and assignments of SETA, SETB and SETC symbols - local or global, scalar or subscripted, explicit, implicit or created - in open code and in macros, every symbol has exactly the value last assigned within its scope, elements that were not assigned have the default value, and omitted operands leave their elements unchanged. Assignments of another type, invalid subscripts and misuse of scalars and arrays are reported, and valid statements are not.",
  ["inputs", "histories"], "every sequence of declarations and assignments, every subscript and value",
  "Which storage a name refers to depends on the whole history in both scopes; tests look at single statements.",
  ["parser_library/src/processing/instruction_sets/ca_processor.cpp", "parser_library/src/context/hlasm_context.cpp", "parser_library/src/context/hlasm_context.h", "parser_library/src/context/variables/set_symbol.h"],
  [("assignment", "ca_processor::process_SET"), ("declaration", "ca_processor::process_GBL_LCL"), ("scopes", "hlasm_context::create_global_variable / create_local_variable")], ["values of variable symbols", "diagnostics"])

P("P17", "Conditional assembly branches go exactly where the program says",
  "For every arrangement of AIF, AGO, computed and multiple branches, sequence symbols before and behind the branch, MEXIT and ACTR, the statements are processed in exactly the order the language defines, in open code and in macros. A branch to an undefined sequence symbol is reported and processing continues behind it, and exceeding the branch counter always ends the macro or program with a report, so that no program makes the analysis loop for ever.",
  ["inputs", "histories"], "every arrangement of branches and every value of their conditions and counters",
  "The path through a program depends on all branches and their history together; tests follow a few fixed paths.",
  ["parser_library/src/processing/instruction_sets/ca_processor.cpp", "parser_library/src/processing/processing_manager.cpp", "parser_library/src/processing/statement_processors/lookahead_processor.cpp", "parser_library/src/context/code_scope.h"],
  [("branches", "ca_processor::process_AIF / process_AGO / process_ACTR"), ("lookahead", "lookahead_processor::find_seq"), ("jumps", "processing_manager::jump_in_statements")], ["order of processed statements", "diagnostics"])
P("P18", "Any program text is analysed to the end, with all reports inside the text",
  "Whatever is typed, complete or unfinished, valid or not, the analysis ends without a crash, an endless loop or an escaped internal error. Every diagnostic names an existing file, line and column of the analysed text, every highlighted token lies within one existing line, and a malformed line does not keep the statements after it from being analysed.",
  ["inputs"], "every combination of characters at any place of any kind of statement",
  "While a user types, nearly every intermediate text is malformed in its own way; tests sample complete statements and a few hand-picked errors.",
  ["parser_library/src/parsing", "parser_library/src/lexing/lexer.cpp", "parser_library/src/processing", "parser_library/src/semantics/source_info_processor.cpp"],
  [("parsing", "hlasmparser rules"), ("lexing", "lexer::nextToken"), ("highlighting", "source_info_processor")], ["diagnostics", "semantic tokens", "end of the analysis"])

P("P19", "Programs use exactly the libraries and options their configuration names",
  "Every program is assembled with the processor group of its own entry in the program configuration, or else of the first entry whose pattern it matches, where * stands for any sequence, ? for any one character and everything else for itself; members come from the first library of the group that has them. Unknown groups, missing libraries, ambiguous and missing members are reported. A configuration that becomes invalid is reported and the last valid one stays in effect, and a configuration that becomes valid is in effect for all open programs at once.",
  ["inputs", "histories"], "every pattern and program name, every arrangement of entries, groups and libraries, every sequence of changes of the configuration",
  "Which text a program is assembled with depends on all entries and libraries and their order together and on the configuration before; tests use a few fixed configurations.",
  ["parser_library/src/workspaces/workspace.cpp", "parser_library/src/workspaces/wildcard.cpp", "parser_library/src/workspaces/library_local.cpp", "parser_library/src/workspaces/processor_group.cpp"],
  [("configuration", "workspace::load_config"), ("group of a program", "workspace::get_proc_grp_by_program"), ("members", "library_local::find_file"), ("patterns", "wildcard2regex")], ["source of macros and copy members", "assembler options", "diagnostics of the configuration"])

P("P20", "Reports depend on the present files and documents only, not on history",
  "After any sequence of opening, changing and closing documents and of changes, creations and deletions of files announced by the editor, the diagnostics shown for the open programs and the members they use are exactly those a freshly started server shows for the same files and open documents. Closed documents count with their contents on the disk, and no report of a closed program stays behind.",
  ["histories"], "every sequence of document and file events",
  "What is stale depends on the dependencies between programs and members and on the whole history; tests replay a few fixed sessions.",
  ["parser_library/src/workspaces/workspace.cpp", "parser_library/src/workspaces/file_manager_impl.cpp", "parser_library/src/workspaces/file_impl.cpp", "parser_library/src/workspaces/processor_file_impl.cpp", "parser_library/src/workspace_manager_impl.h"],
  [("document events", "workspace::did_open_file / did_change_file / did_close_file"), ("file events", "workspace::did_change_watched_files"), ("texts", "file_impl, file_manager_impl")], ["published diagnostics"])


P("P21", "Each document belongs to the innermost workspace folder that contains it",
  "Whatever folders are open and however they are named or nested, added or removed, a document is analysed with the configuration of the innermost open folder that contains it, and of no folder if none does; a folder whose name only begins with the same characters does not contain it. Every added folder counts for itself and removing one affects no other.",
  ["inputs", "histories"], "every set of folders and names, every document path, every sequence of additions and removals",
  "Nested folders and names that are prefixes of each other combine freely; tests use one or two separate folders.",
  ["parser_library/src/workspace_manager_impl.h", "parser_library/src/workspaces/workspace.cpp"],
  [("folder of a document", "workspace_manager_impl::ws_path_match"), ("folders", "workspace_manager_impl::add_workspace / remove_workspace")], ["configuration in effect for a document"])

P("P22", "Navigation finds exactly the occurrences of the symbol and never fails",
  "For every position in a document, going to the definition leads to the place where the symbol at that position is defined in its scope and finding references gives exactly all its occurrences - ordinary, variable and sequence symbols and macros; where there is no symbol there is no definition. Definition, references, hover and completion requests for any position, inside, at the end of or beyond any document, open or not, are answered without a failure.",
  ["inputs"], "every position, every program of symbols and scopes, every document text",
  "The answer depends on the position and on all other occurrences and scopes of the same name; tests ask at a few fixed positions of fixed texts.",
  ["parser_library/src/lsp/lsp_context.cpp", "parser_library/src/lsp/file_info.cpp", "parser_library/src/lsp/text_data_ref_t.cpp", "parser_library/src/lsp/macro_info.cpp", "parser_library/src/processing/occurence_collector.cpp", "parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp"],
  [("definition and references", "lsp_context::definition / references"), ("occurrence at a position", "file_info::find_occurence_with_scope"), ("completion", "lsp_context::completion")], ["answers to definition, references, hover and completion requests"])

P("P23", "A symbol is defined by its first definition and any other one is reported",
  "Whatever kinds of statements define a name - equates, data, instructions, sections, location counters, external references - in any order and with lengths or values known or not known yet, the first definition gives the symbol its place, value and attributes. Every further definition is reported as one, at its own statement, except a section or location counter that is continued, and none of them makes the analysis crash.",
  ["inputs", "histories"], "every sequence of defining statements and every dependency between them",
  "Redefinition interacts with dependencies that are resolved later; tests redefine a symbol by two or three statements of the same kind.",
  ["parser_library/src/processing/instruction_sets/asm_processor.cpp", "parser_library/src/processing/instruction_sets/mach_processor.cpp", "parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp"],
  [("definition of symbols", "ordinary_assembly_context::create_symbol / symbol_defined"), ("labels of assembler statements", "asm_processor::process_data_instruction / process_EQU / process_sect / process_LOCTR / process_EXTRN")], ["diagnostics", "values and attributes of symbols"])

P("P24", "Every request is answered exactly once and no message ends the server",
  "Whatever message a client sends to the language server or the debug adapter - valid, incomplete or malformed - the server goes on, and every request is answered exactly once, with its id and either a result or an error. Positions, texts and changes reach the analysis as they were sent, and after any series of updates the client shows for every document exactly its present diagnostics.",
  ["inputs", "histories"], "every message and every part of it that is missing or of another kind; every order of updates",
  "Any part of any message can be missing or of another kind; tests send well-formed messages of a few kinds.",
  ["language_server/src/server.cpp", "language_server/src/lsp/lsp_server.cpp", "language_server/src/lsp/feature_language_features.cpp", "language_server/src/lsp/feature_text_synchronization.cpp", "language_server/src/lsp/feature_workspace_folders.cpp", "language_server/src/dap/dap_server.cpp", "language_server/src/dap/dap_feature.cpp"],
  [("dispatch", "server::call_method"), ("messages", "lsp::server::message_received, dap::server::message_received"), ("diagnostics", "lsp::server::consume_diagnostics"), ("requests", "feature_language_features, dap_feature")], ["messages sent to the client"])

P("P25", "Debugging stops exactly where asked and always ends, in every interleaving",
  "A debugged program stops before every statement that has a breakpoint or ends a step over or into, and nowhere else; the stack and the variables shown there are those of that statement, and the end of the program is reported once. Whenever a command comes, no continue or step is lost, no request hangs and disconnecting ends the program, in every interleaving of the two threads.",
  ["inputs", "schedules"], "every breakpoint, every sequence of commands and every interleaving of client and program",
  "A wake-up is lost only in one narrow window between two threads; tests run one lucky schedule.",
  ["parser_library/src/debugging/debugger.cpp"],
  [("stopping", "debugger::impl::analyze"), ("commands", "debugger::impl::next / step_in / continue_debug / disconnect"), ("state shown", "debugger::impl::stack_frames / scopes / variables")], ["stopped and exited events", "stack frames and variables"])
