#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as Python for readable line breaks)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))


# ---------------------------------------------------------------- encoding
prop("E01", "Z80 instruction set: every form has its documented encoding",
     """In the default (Z80) mode the assembler's instruction set contains every documented Z80 instruction form,
     and the undocumented and convenience spellings it also accepts, each with exactly the opcode bytes (prefixes,
     opcode, trailing opcode byte), the operand kinds in source order and the total length that the Z80 instruction
     set assigns to it. No form is hidden behind an earlier, more general form with another encoding.""",
     ["programs", "inputs"], "every instruction form the assembler can accept in Z80 mode (about 1000)",
     "The 15 tests exercise some 40 of about 1000 forms; a wrong byte in any other row compiles and passes.",
     ["opcodes.cpp", "opcodes.h"], [("instruction tables", "opcodes.cpp: *_instrs[], opcode_list[]")],
     ["bytes of the output file"])
prop("E02", "eZ80 instruction set: every form has its documented encoding",
     """In eZ80 mode the assembler's instruction set contains every eZ80 instruction form (the Z80 ones and the eZ80
     additions such as LEA, PEA, MLT, TST, IN0/OUT0, 16/24-bit indirect loads), each with exactly the opcode bytes,
     the operand kinds in source order and the total length the eZ80 instruction set assigns to it. Wherever a form
     exists in both modes its encoding is the same in both, unless the eZ80 assigns the opcode to something else.""",
     ["programs", "inputs"], "every instruction form the assembler can accept in eZ80 mode (about 1200)",
     "Two tests use eZ80 mode and touch a few dozen forms.",
     ["opcodes_ez80.cpp", "opcodes.h"], [("instruction tables", "opcodes_ez80.cpp")], ["bytes of the output file"])
prop("E03", "Instruction timing: cycle counts match the Z80 and drive the counters",
     """Every Z80-mode instruction form carries the documented minimum and maximum T-state counts (equal unless the
     instruction is conditional or repeating). Each assembled instruction adds exactly its own minimum, maximum and
     size to the counters that the code-counter and statistics modes print.""",
     ["programs", "inputs"], "every instruction form, every assembled program",
     "No test uses the code counter or statistics modes.",
     ["opcodes.cpp", "pass_one.cpp", "main.cpp"],
     [("cycle columns of the tables", "opcodes.cpp"), ("counter updates", "pass_one.cpp handle_opcode_or_macro")],
     ["code counter output (-T)", "statistics output (-O)"])
prop("E04", "Operand bytes: width, byte order and place in the instruction",
     """An 8-bit operand is emitted as one byte (the low 8 bits), a 16-bit operand as two and a 24-bit operand as three
     bytes, least significant first; a relative jump as one byte holding target minus the address of the next
     instruction; a bit number in bits 3-5 of the opcode byte it belongs to; an RST vector as the opcode C7h+vector.
     An instruction is emitted as optional suffix byte, opcode bytes in prefix-first order, operands in source order,
     then the trailing opcode byte if the form has one. Each operand kind of a form selects the width its encoding
     reserves for it.""",
     ["inputs", "programs"], "every operand value and every instruction form with operands",
     "Tests check a handful of operand values in a handful of forms; a wrong shift or order in one operand kind can "
     "stay unseen for the values they use.",
     ["pass_one.cpp", "pass_two.cpp"],
     [("instruction emission", "pass_one.cpp write_instruction_data"), ("operand emission", "pass_two.cpp write_arg")],
     ["bytes of the output file"])
prop("E05", "Operand ranges: out-of-range operands are diagnosed, in-range ones are not",
     """An 8-bit operand draws the truncation diagnostic exactly when it is outside -128..255, a 16-bit operand in eZ80
     mode exactly when it is outside -32768..65535, and a 16- or 24-bit operand otherwise draws none. A relative jump
     or an index displacement is rejected exactly when it is outside -128..127, a bit number exactly when outside 0..7
     and an RST vector exactly when it is not one of 0,8,...,56. The same limits hold whether the operand is known
     immediately or only after a forward reference.""",
     ["inputs"], "every operand value of every operand kind, immediate or deferred",
     "Only one test reaches a range diagnostic (relative jump too far, one value).",
     ["pass_two.cpp"], [("range checks", "pass_two.cpp write_arg, run_second_pass")], ["diagnostics", "output bytes"])
prop("E06", "Data directives: element width, order and deferral",
     """.db/.byte emit one byte, .dw/.word two and .dl/.long three bytes per value, least significant byte first, in
     source order, and one byte per character of a string; each emitted element advances the location counter and the
     data-size statistic by exactly its width. A value that is not yet known reserves exactly the bytes it will fill
     later.""",
     ["inputs", "programs"], "every data directive with any mix of known, forward-referenced and string values",
     "A few tests emit data directives with two or three values.",
     ["directive.cpp", "pass_two.cpp"], [("emission loop", "directive.cpp parse_emit_string, handle_directive")],
     ["output bytes", "label values"])
prop("E07", "Location counter and emitted bytes stay in step",
     """For every source construct that emits bytes (instructions, data, fill/block, binary import, bitmaps), the
     location counter advances by exactly the number of bytes the construct puts into the output, so that a label that
     follows gets the address of the byte that follows. Only an explicit origin/seek directive may separate them.""",
     ["programs", "inputs"], "every byte-emitting construct, every operand, every path through its handler",
     "Tests compare output bytes of tiny programs; labels after most constructs are never checked.",
     ["pass_one.cpp", "directive.cpp", "preop.cpp", "bitmap.cpp", "pass_two.cpp"],
     [("single byte sink", "pass_one.cpp write_out"), ("counter updates", "directive.cpp, preop.cpp, bitmap.cpp, pass_one.cpp")],
     ["label values in the symbol file", "output bytes"])
prop("E08", "Forward references are evaluated in the context of their source line",
     """An expression that has to wait for a later definition is re-evaluated with the location counter, source line,
     file, local-label position and instruction length of the place where it was written, and its bytes land at the
     output position reserved for it. Its definitions and macro arguments are bound when it is read, not when it is
     resolved, and everything queued is processed exactly once, in order.""",
     ["programs", "inputs"], "every deferred expression and deferred echo of every program",
     "Forward references appear in two tests, always on a single line with nothing in between.",
     ["pass_two.cpp"], [("record on queue", "pass_two.cpp add_pass_two_expr, add_pass_two_output"),
                        ("restore before evaluation", "pass_two.cpp run_second_pass")],
     ["output bytes", "diagnostic positions"])
prop("E09", "eZ80 mode suffixes select the right prefix byte and operand width",
     """In eZ80 mode the suffixes .sis/.lis/.sil/.lil emit the prefix bytes 40h/49h/52h/5Bh, the short forms .s/.l and
     .is/.il take the missing half from the current ADL setting, and 16/24-bit operands are three bytes wide exactly
     when the instruction-stream half (or, without a suffix, ADL mode) is long. The size counted for the instruction
     includes the prefix byte and the third operand byte.""",
     ["inputs", "programs", "configurations"], "every suffix spelling, ADL setting and instruction form",
     "One test uses ADL mode, none uses a suffix.",
     ["pass_one.cpp", "directive.cpp"], [("suffix parser", "pass_one.cpp parse_suffix"),
                                         ("suffix emission", "pass_one.cpp write_instruction_data")],
     ["output bytes"])
# ---------------------------------------------------------------- expressions
prop("X01", "Expression operators compute what their symbol says",
     """Each binary operator token of the expression language (+ - * / % << >> < > <= >= == != & | ^ && ||) applies the
     operation of that symbol to the running value on its left and the operand on its right, strictly left to right,
     and each unary operator (- ~ +) to the operand that follows it. The longest operator token at a position is the one recognised, so that
     e.g. << is never read as <. Division or modulo by zero is diagnosed and never executed.""",
     ["inputs"], "every operator and every pair of operand values",
     "Tests use + - * only.",
     ["parser.cpp"], [("operator table", "parser.cpp"), ("evaluation loop", "parser.cpp parse_num_full")],
     ["output bytes"])
prop("X02", "Numeric literals: every notation denotes its value",
     """Hexadecimal ($.., ..h), binary (%.., ..b), decimal (plain, ..d) and character literals denote their value
     in their base, digits not valid in the base are diagnosed, values that do not fit 32 bits are diagnosed instead of
     wrapping, a prefix without digits is diagnosed, and $ alone denotes the current location counter.""",
     ["inputs"], "every literal of every length and base",
     "Tests contain a handful of small literals.",
     ["parser.cpp"], [("literal conversion", "parser.cpp conv_generic/conv_hex/conv_bin/conv_dec, parse_single_num")],
     ["output bytes", "diagnostics"])
prop("X03", "Evaluation of self-referential definitions terminates with a diagnostic",
     """Every recursion of the expression evaluator through a user definition passes a nesting limit, so a definition
     that refers to itself, directly or through others, ends in a diagnostic and not in unbounded recursion, and the
     nesting level is back at its starting value after every evaluation, successful or not.""",
     ["inputs", "programs"], "every definition graph, every evaluation outcome",
     "No test has a self-referential definition.",
     ["parser.cpp", "utils.cpp"], [("nesting limit", "parser.cpp parse_num/parse_num_full parse_depth"),
                                   ("expansion limit", "utils.cpp expand_expr_full")], ["diagnostics"])
# ---------------------------------------------------------------- symbols
prop("S01", "Symbol names: lookup and definition agree on case",
     """Without the case-sensitive option, every way of defining a symbol (label, define, macro argument) and every way
     of looking one up, testing or removing it treats names that differ only in case as the same; with the option,
     names are used exactly as written everywhere.""",
     ["inputs", "configurations"], "every symbol-table operation, both case modes",
     "Tests run in the default mode with consistent spelling.",
     ["storage.cpp", "main.cpp"], [("name normalisation", "storage.cpp add_*/search_*/remove_*")],
     ["resolution of symbols"])
prop("S02", "Redefinition and name conflicts are never silent",
     """Defining a label that already exists with a different value, or as a define, or a define whose name is already a label, is reported, and a
     redefinition of an existing define replaces its value or is refused as requested by the construct that defines it.
     A looked-up name yields the entry stored under that name or nothing.""",
     ["inputs", "histories"], "every sequence of definitions",
     "No test redefines a symbol.",
     ["storage.cpp"], [("conflict checks", "storage.cpp add_label, add_define")], ["diagnostics", "symbol values"])
prop("S03", "Macro argument scopes nest and unwind exactly",
     """Every scope of macro arguments or local definitions opened for a macro invocation, a function-like define or a
     data directive is closed again on every way out of that construct, including error exits, so that arguments of one
     invocation are never visible in another and enclosing arguments are visible again afterwards. An invocation sets
     every parameter, also those it gives no argument for.""",
     ["programs", "inputs", "fault_sequences"], "every nesting of invocations and every error exit",
     "Tests invoke two macros, without nesting or errors inside.",
     ["utils.cpp", "parser.cpp", "pass_one.cpp", "directive.cpp", "storage.cpp"],
     [("push/pop of argument sets", "storage.cpp add_arg_set/remove_arg_set and their callers")], ["symbol resolution"])
# ---------------------------------------------------------------- diagnostics
prop("D01", "Error collection scopes are balanced on every path",
     """Every scope opened for collecting diagnostics is closed exactly once on every path, innermost first, so that no
     construct, however it fails, leaves later diagnostics attached to a dead scope or lost.""",
     ["inputs", "programs", "fault_sequences"], "every path through every construct that opens a scope",
     "Tests take the success path of most constructs.",
     ["errors.cpp", "pass_one.cpp", "pass_two.cpp", "parser.cpp", "utils.cpp", "directive.cpp", "preop.cpp", "main.cpp"],
     [("session pairing", "StartSPASMErrorSession/EndSPASMErrorSession call sites")], ["diagnostics"])
prop("D02", "Every diagnostic has its own message text and correctly typed arguments",
     """Every error or warning code the assembler can raise has exactly one message, and every place that raises it
     supplies arguments that match the message's placeholders in number and type. Errors are raised as errors and
     warnings as warnings.""",
     ["inputs", "programs"], "every place that raises a diagnostic",
     "Tests raise five of more than fifty codes.",
     ["errors.h", "errors.cpp"], [("message table", "errors.h g_ErrorCodes"), ("raising functions", "errors.cpp SetLastSPASM*")],
     ["diagnostics"])
prop("D03", "No output after a fatal error; failures show in the exit status",
     """When pass one or pass two has recorded a fatal error, the program exits with the fatal status before any output,
     symbol or listing file is written. Any diagnostic of error severity that is shown to the user leaves the exit status non-zero, at least the error
     status, and nothing lowers it again; warnings alone never make a run fail fatally.""",
     ["inputs", "programs", "fault_sequences"], "every program and every combination of diagnostics",
     "The test runner ignores the exit status.",
     ["main.cpp", "errors.cpp", "utils.cpp"], [("session end", "errors.cpp EndSPASMErrorSession"),
                                               ("ordering", "main.cpp run_assembly"), ("exit code", "utils.cpp show_*")],
     ["exit status", "existence of output files"])
prop("D04", "Source position is restored after nested sources",
     """After an include, a macro expansion, a generated-source run, an evaluated definition or the second pass has
     finished, successfully or not, the current file name, line number and nesting state are what they were before it
     started, so later diagnostics name the right file and line.""",
     ["programs", "inputs", "fault_sequences"], "every nesting of sources, every exit path",
     "Tests never check the line numbers in diagnostics.",
     ["preop.cpp", "pass_one.cpp", "pass_two.cpp", "parser.cpp"],
     [("save/restore", "preop.cpp handle_preop_include, pass_one.cpp handle_opcode_or_macro, pass_two.cpp run_second_pass")],
     ["diagnostics"])
prop("D05", "Program text is never interpreted as a format string",
     """No text that comes from the source, the command line or a file name is ever used as a format string; every
     format string is a constant whose placeholders match the arguments supplied with it.""",
     ["inputs"], "every print and formatting call",
     "Tests contain no % directives in names or messages.",
     ["utils.cpp", "errors.cpp", "main.cpp", "directive.cpp", "preop.cpp", "storage.cpp", "export.cpp"],
     [("formatting call sites", "all sources")], ["console output"])
prop("D06", "Deferred and replayed diagnostics are filtered only by the documented rule",
     """Only unresolved-symbol, local-label forward-reference and recursion-depth conditions are non-fatal and may be
     dropped in pass one to be re-evaluated in pass two; every other diagnostic is fatal and is reported. Diagnostics
     of a nested scope move to the enclosing scope when replayed, are printed once at the outermost scope in the order
     raised, and are discarded only when the scope is closed without replay.""",
     ["inputs", "fault_sequences"], "every diagnostic code and every nesting of scopes",
     "Tests raise one diagnostic per program.",
     ["errors.cpp"], [("classification", "errors.cpp IsSPASMErrorFatal"), ("replay", "errors.cpp ReplaySPASMErrorSession")],
     ["diagnostics"])
# ---------------------------------------------------------------- preprocessor and directives
prop("P01", "Every directive name runs the handler of that directive",
     """Each directive and preprocessor name the assembler recognises, in any letter case, runs the action documented for that name, synonyms
     run the same action, and an unknown name is reported.""",
     ["inputs"], "every directive and preprocessor name",
     "Tests use six of the thirty-odd names.",
     ["directive.cpp", "preop.cpp"], [("dispatch tables", "directive.cpp handle_directive, preop.cpp handle_preop")],
     ["output bytes", "diagnostics"])
prop("P02", "Conditional assembly opens, switches and closes levels consistently",
     """Every opened conditional raises the nesting level by one and every closing one lowers it by one, a close or
     alternative without an open conditional is reported, exactly one branch of a conditional is taken, and skipping an
     untaken branch steps over complete nested conditionals.""",
     ["programs", "inputs"], "every nesting of conditionals and every outcome of the conditions",
     "No test uses nested conditionals.",
     ["preop.cpp"], [("level counter", "preop.cpp handle_preop, handle_preop_if, do_if"), ("skipping", "preop.cpp skip_until")],
     ["output bytes", "diagnostics"])
prop("P03", "Nested source inclusion is bounded",
     """Inclusion of a source file by itself, directly or through others, and a macro that expands to itself, end in a diagnostic rather than in
     unbounded recursion of the assembler.""",
     ["programs", "inputs"], "every inclusion and macro-expansion graph",
     "No test includes itself.",
     ["preop.cpp", "pass_one.cpp"], [("nesting limit", "preop.cpp handle_preop_include, pass_one.cpp handle_opcode_or_macro")],
     ["diagnostics"])
prop("P04", "Operands needed at once are either known or reported",
     """A value the assembler must have at the moment it reads it (the operand of .org, .fill, .block, .seek, .assume and equates,
     the number of an fcreate buffer, the arguments of concat()) is evaluated completely at that point; if it cannot be (it
     refers to a label defined later, say), a diagnostic is given. It is never silently replaced by zero or by a former value.
     (The operand of #if is excluded: an undefined name counts as zero there.)""",
     ["programs", "inputs"], "every such operand, every expression whose value is not known when it is read",
     "No test has a forward reference in such a place.",
     ["directive.cpp", "pass_one.cpp", "preop.cpp", "parser.cpp"],
     [("evaluation that reports", "parser.cpp parse_num_now"), ("users", "directive.cpp handle_directive, pass_one.cpp, preop.cpp handle_preop_define")],
     ["diagnostics", "output bytes"])
# ---------------------------------------------------------------- output formats
prop("O01", "The output file's extension selects its format",
     """Each supported output extension, in any letter case, selects the container of that calculator and file type (plain
     binary, ROM image filled with FF up to 512 KB, Intel HEX, signed application, or program/variable file with that
     model's signature and type), the extension being what follows the last dot; any other extension is warned about
     and yields the plain binary image.""",
     ["inputs", "configurations"], "every output extension",
     "All tests write a plain binary.",
     ["export.cpp"], [("extension table and dispatch", "export.cpp write_file, typearray")], ["output file"])
prop("O02", "Program and variable files: header sizes and checksum are consistent",
     """In a calculator program or variable file the stored data-section, variable and payload lengths agree with the
     bytes actually written, are stored least significant byte first, and the trailing 16-bit checksum is the sum of
     exactly the bytes of the data section, so every such file the assembler writes is accepted by the linking
     software. The payload is the image byte for byte between the model's fixed prefix and trailer, and an image too
     large for the 16-bit lengths is reported.""",
     ["inputs", "configurations"], "every payload size and contents, every program/variable format",
     "No test writes a calculator file.",
     ["export.cpp"], [("header and checksum", "export.cpp makeprgm")], ["output file"])
prop("O03", "Intel HEX output: every record is well formed",
     """Every record of an Intel HEX image (including those of applications) has the form colon, byte count, 16-bit
     address, type, data, checksum, with the byte count equal to the data bytes written, the address that of the first
     of them, and a checksum that makes the sum of all record bytes zero modulo 256. The image is cut into pages of
     16384 bytes, each introduced by an extended-address record with the number of the page (counting from 0) and placed
     at address 4000h; it is covered in order, without gap or overlap, in full lines except for the last one, and the
     file ends with the one end-of-file record.""",
     ["inputs"], "every image size and contents",
     "No test writes Intel HEX.",
     ["export.cpp"], [("record writer", "export.cpp intelhex, makehex, makeapp")], ["output file"])
prop("O04", "Nothing is written outside the output image",
     """No source program can make the assembler store a byte outside its output image buffer: programs that emit more
     than the image can hold, or move the output position outside it, are diagnosed instead.""",
     ["inputs", "programs"], "every sequence of emitting and seeking constructs",
     "Test outputs are a few bytes long.",
     ["pass_one.cpp", "directive.cpp", "pass_two.cpp"], [("byte sink", "pass_one.cpp write_out"), ("seek", "directive.cpp .seek")],
     ["process memory", "diagnostics"])
prop("O05", "File operations are checked and files are closed",
     """Every file the assembler opens is tested before use, failure is reported, and the file is closed exactly once on
     every path; a file is never used after it was closed.""",
     ["fault_sequences", "inputs"], "every open, every error exit",
     "No test makes a file operation fail.",
     ["main.cpp", "utils.cpp", "preop.cpp", "export.cpp", "directive.cpp", "bitmap.cpp", "storage.cpp"],
     [("open/close pairing", "fopen/fclose call sites")], ["exit status", "diagnostics"])
prop("O06", "Assembling the same input twice gives the same bytes",
     """The contents of the output, symbol and listing files depend only on the source text, the included files and the
     command line: no clock, random number, process identity, memory address or uninitialised byte reaches them.""",
     ["inputs", "histories", "configurations"], "every program and pair of runs",
     "Every test runs once.",
     ["export.cpp", "pass_one.cpp", "storage.cpp", "hash.cpp", "main.cpp"],
     [("no nondeterminism source on output paths", "all sources"), ("name-ordered tables", "hash.h")], ["output files"])
prop("O07", "Symbol file lists every label and only with its value",
     """The symbol file contains one line per label with its name and its value, the table it is taken from is complete
     (no label is skipped, none is listed twice), and every symbol the assembler can resolve as a label is in it.""",
     ["programs"], "every label of every program",
     "No test writes a symbol file.",
     ["preop.cpp", "storage.cpp", "hash.cpp"], [("enumeration", "storage.cpp write_labels, hash.cpp hash_enum")], ["symbol file"])
prop("O08", "The name stored in a program file is the output file's base name",
     """The name field of a calculator program or variable file holds the first eight characters of the part of the output
     path behind its last separator, without the extension, in order and filled up with zeros (ti-85/86: with its
     length), behind the token the ti-82 wants; for the ti-73, 83 and 83+ no small letter stays in it (an application
     variable: none in front).""",
     ["inputs", "configurations"], "every output path, every program/variable format",
     "No test writes a calculator file.",
     ["export.cpp"], [("name", "export.cpp makeprgm, alphanumeric")], ["output file"])
# ---------------------------------------------------------------- memory safety
prop("M01", "Text never overruns a fixed-size buffer",
     """No file name, symbol name, operand, message or expansion of any length makes the assembler write past the end of
     a fixed-size buffer or of a block allocated by measuring the text it is to hold, or use such a buffer unterminated.""",
     ["inputs"], "every copy into a fixed-size or measured buffer, every length of source text and arguments",
     "Test inputs are short.",
     ["utils.cpp", "directive.cpp", "preop.cpp", "main.cpp", "parser.cpp", "errors.cpp", "export.cpp", "pass_one.cpp"],
     [("bounded copies", "all copies into fixed-size arrays")], ["process memory"])
prop("M02", "Fixed-size tables are indexed within their bounds",
     """No program (number of local labels, generated-source buffers, macro arguments, instruction bytes, operands) makes the
     assembler read or write a fixed-size table outside its bounds; exceeding a capacity is diagnosed.""",
     ["inputs", "programs"], "every index into every fixed-size table",
     "Tests stay far below every capacity.",
     ["storage.cpp", "pass_one.cpp", "directive.cpp", "preop.cpp", "export.cpp", "bitmap.cpp", "parser.cpp"],
     [("index checks", "all subscript sites of fixed arrays")], ["process memory", "diagnostics"])
prop("M03", "Lookups that can fail are checked before their result is used",
     """The result of every operation that can come back empty (symbol and define lookup, argument parsing, opening a file, finding
     a path, adding a definition that conflicts) is tested before anything is read or written through it.""",
     ["inputs", "fault_sequences"], "every use of a fallible result on every path",
     "Tests look up names that exist.",
     ["storage.cpp", "preop.cpp", "directive.cpp", "parser.cpp", "pass_one.cpp", "main.cpp", "utils.cpp"],
     [("null tests", "callers of search_*/add_*/fopen/full_path")], ["process survival"])
prop("M04", "No value is used before it is set",
     """No branch, output byte, address or stored value depends on a variable that was not assigned on the path taken,
     whatever failed before.""",
     ["inputs", "fault_sequences"], "every local variable on every path",
     "Tests take success paths.",
     ["directive.cpp", "parser.cpp", "export.cpp", "preop.cpp", "pass_two.cpp", "bitmap.cpp"],
     [("initialisation", "all locals")], ["output bytes"])
prop("M06", "No division kills the assembler",
     """No value a program, a bitmap or an option can supply makes the assembler divide by zero or divide the smallest number
     by minus one: such an expression or image map is reported as an error, or handled, and the assembler goes on.""",
     ["inputs"], "every division in the program, every pair of operands",
     "Tests divide small positive constants.",
     ["parser.cpp", "bitmap.cpp", "directive.cpp", "export.cpp"],
     [("division guards", "parser.cpp parse_num_full"), ("tile sizes", "bitmap.cpp handle_bitmap")], ["process survival", "diagnostics"])
prop("M05", "Released memory is never used again",
     """What a function releases, itself or through a function it hands it to, it does not read, write, release again,
     hand on, store or return afterwards; when it returns no global and no field of an object that lives on still holds
     it (a name, a file name, a definition's contents, a list's next node); what was put into an object that lives on is
     not released by the one who put it there; and only allocated blocks are released. Whether two tables share a block
     is not part of this.""",
     ["histories", "inputs"], "every function, every way through it, every release and every later use on that way",
     "A freed block keeps its bytes until it is reused; tests are too small for that to show.",
     ["storage.cpp", "errors.cpp", "pass_two.cpp", "list.cpp", "export.cpp", "bitmap.cpp"],
     [("ownership", "free() call sites")], ["process memory"])
# ---------------------------------------------------------------- command line and console
prop("C01", "Every command line option has its documented effect and no other",
     """Each option letter of the command line enables exactly the mode its help text describes, options that take a
     value consume exactly one value, an option that misses its value or is unknown is reported, and the output name
     defaults to the input name with the extension of the default format.""",
     ["configurations", "inputs"], "every option letter and combination",
     "Tests use two options.",
     ["main.cpp"], [("option parser", "main.cpp main")], ["mode of operation"])
prop("C02", "With colours disabled, no colour escape is ever printed",
     """With the no-colour option no terminal escape sequence is written by any code path; with colours enabled every
     change of colour made for a message is undone after it, on every path.""",
     ["configurations", "inputs"], "every message, both settings",
     "Tests ignore escapes.",
     ["console.cpp", "utils.cpp", "errors.cpp", "pass_two.cpp", "directive.cpp"],
     [("guard", "console.cpp set/restore_console_attributes")], ["console output"])
prop("C03", "Include files are searched in the documented order",
     """An include or import name is tried in the directory of the input file (the working directory when the input file
     was not given by an absolute path) and then in each directory given with -I, in the order given; the first file
     that can be read is used, an absolute name that can be read is used as it is, and a name found nowhere is
     reported and nothing is read for it.""",
     ["inputs", "configurations"], "every name and list of include directories",
     "No test passes include directories.",
     ["preop.cpp", "main.cpp"], [("search", "preop.cpp full_path")], ["included file"])
# ---------------------------------------------------------------- quantities no sound static argument reaches here
prop("Z01", "Two passes converge: every label has the same value in both passes",
     """For every program, the value of each label used when emitting bytes in pass two equals the address at which its
     statement was placed in pass one.""",
     ["programs"], "every program", "Tests check a handful of labels.",
     ["pass_one.cpp", "pass_two.cpp"], [("two-pass scheme", "main.cpp run_assembly")], ["output bytes"])
prop("Z02", "Application signatures verify",
     """The signature appended to an application image verifies under the public key for every image.""",
     ["inputs"], "every image", "No test signs an image.",
     ["export.cpp"], [("signing", "export.cpp siggen")], ["output file"])
prop("Z03", "Assembly terminates on every input",
     """For every source the assembler stops after a number of steps bounded by the size of the source and its
     expansions.""",
     ["inputs"], "every source", "Tests terminate.",
     ["pass_one.cpp", "preop.cpp", "parser.cpp"], [("line loop", "pass_one.cpp run_first_pass")], ["termination"])
prop("Z04", "Bitmap import reproduces the picture",
     """Importing a bitmap emits exactly the pixels of the picture in the calculator's format, for every supported bit
     depth and size, with and without compression.""",
     ["inputs"], "every bitmap", "No test imports a bitmap.",
     ["bitmap.cpp"], [("conversion", "bitmap.cpp")], ["output bytes"])
prop("Z05", "A partially written output file is never mistaken for a complete one",
     """If writing the output fails part-way (disk full, I/O error) the failure is reported and the exit status shows
     it.""",
     ["fault_sequences", "crash_points"], "every write failure", "No test injects write failures.",
     ["export.cpp"], [("writers", "export.cpp")], ["exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
