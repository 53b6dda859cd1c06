TECH = {
 "E01": ("constant-table analysis of the IR against a generated Z80 opcode map; dataflow on the row search",
         "Every row of the searched table and every form of the map is compared; the operand-text matcher is restated, not derived."),
 "E02": ("constant-table analysis of the IR against a generated eZ80 opcode map; cross-table comparison",
         "As E01, for the eZ80 table and for agreement between the two tables."),
 "E03": ("constant-table analysis against documented T-states; abstract interpretation of the counter updates",
         "All rows; all paths through the instruction branch of handle_opcode_or_macro in Z80 mode."),
 "E04": ("abstract interpretation (value numbering x intervals) with bit-level normal forms, specialised per operand kind and row shape",
         "All values of the operand; all row shapes present in the tables; all suffix/ADL combinations."),
 "E05": ("interval abstract interpretation of the operand writer; value-flow of queued operands",
         "Exact accepted/diagnosed value sets per operand kind and mode over all 2^32 values."),
 "E06": ("typestate over the element loop with affine ghost counters (bytes, location counter, data size), specialised per element type",
         "All values, strings and lists; the dispatcher is decided per directive name."),
 "E07": ("affine ghost-counter analysis (bytes emitted minus counter advance) of every function that emits bytes or moves the counter",
         "Every function and every directive case, all paths that report no error; loops by affine join."),
 "E08": ("value-flow/typestate analysis of the queue records: what is stored, where it is appended, what is restored before evaluation",
         "All operand kinds and both listing modes; assumes evaluation does not itself modify the queues."),
 "E09": ("abstract interpretation specialised per suffix spelling, row shape, suffix and ADL state",
         "Suffix spellings are enumerated over the letters the grammar uses; everything else is for all values."),
 "D01": ("typestate analysis of error-collection sessions (open/replayed/closed) with partitioned abstract interpretation over every function; call-graph nesting rule",
         "All paths of every function that opens a session; the session-level arithmetic is decided from the bodies of Start/Replay/End."),
 "D02": ("constant-table analysis and printf-type checking of every call that raises a diagnostic, codes traced through phis, selects and callers",
         "Every message and every call site; types of arguments, not their values."),
 "D03": ("ordering/dominance analysis of run_assembly, interval analysis of the exit status, value-flow of every file opened for writing",
         "All paths and all values of the exit status; opening for writing is enumerated over the whole program."),
 "D04": ("abstract interpretation with entry tokens: every exit of a source-nesting construct leaves position cells at their entry values",
         "File name, line number and nesting state at every exit of every construct that runs nested source; all paths."),
 "X01": ("value-flow analysis: the reduction of the operator table is executed abstractly per operator and compared with the symbol's meaning",
         "Every operator symbol, all 2^32 x 2^32 operand values; association and precedence-free left-to-right order decided from the loop."),
 "X02": ("abstract interpretation of each literal converter with constant-base analysis; dispatch decided per notation and first character",
         "All digit strings (strtoll trusted), all dispatch characters; range and error exits by intervals."),
 "X03": ("call-graph cycle analysis with nesting-counter summaries (interval abstract interpretation of every function of the recursion)",
         "Every call cycle through expression evaluation; each is cut by a counter that is incremented and limited, restored on every exit."),
 "S01": ("value-flow analysis of every symbol key to its normalisation; constant-table analysis of the comparator; who-may-set analysis of the mode",
         "Every function that reads or writes the symbol tables or compares names; all names; comparators restated from the map used."),
 "S02": ("typestate abstract interpretation of the symbol-table operations (found/conflict/inserted/reported) on all paths",
         "All paths and all answers of the lookups; the table itself is the standard map (trusted)."),
 "S03": ("typestate (push/pop) abstract interpretation of the macro-argument scopes in every function that opens one, with scope-in-force checks at evaluation",
         "All paths of every function that opens, closes or evaluates under a scope."),
 "P01": ("constant-table analysis of the directive tables plus path-pinned abstract interpretation of the dispatchers, one run per directive name",
         "Every directive name of the documentation, every case of both dispatchers, every other name; values of #define/equates by value flow."),
 "P02": ("typestate abstract interpretation of the conditional level counter and of the skipper's branch decisions, per conditional directive",
         "All paths of every conditional directive and of the skipper; truth of the condition is free."),
 "P03": ("call-graph cycle analysis with nesting-counter summaries (interval abstract interpretation of every function of the recursion)",
         "Every call cycle through the reading of source; each counted, limited, restored on every exit, the limit reported fatally. Recursion along the text of one line and along #elif chains is linear in the text and excluded."),
 "P04": ("typestate abstract interpretation of every evaluation that failed: raised before anything else happens on every path",
         "Every call site of the evaluator in the constructs named, specialised per directive."),
 "C01": ("abstract interpretation of the option loop with the option letter pinned; enumeration of the combinations of the mode bits through the assembly driver",
         "Every option letter and every other letter; all values of the mode word's named bits in the driver."),
 "C02": ("typestate abstract interpretation of the terminal's colour state, with the switch pinned, over function summaries",
         "All functions that print colour or set it; -T and its absence."),
 "O01": ("abstract interpretation of write_file per extension, with the string comparison decided by the table's constants; classification of the writer reached by the byte stream it produces",
         "Every extension of the table in three letter cases, five unknown ones, none; the classification reads signature, type, filling and records off the analysed writer, not off its name."),
 "O02": ("byte-stream typestate with affine ghosts (position, 16-bit sum) over makeprgm, specialised per model; bit-level comparison of stored lengths with the derived end of file",
         "All image sizes up to the image buffer, all names, all contents; fputc is taken to succeed."),
 "O08": ("byte-stream typestate over makeprgm per model plus value flow of the name; typestate over the backward path search; interval analysis of the characters left in the name",
         "All output paths; the buffer of the ti-82 name (255 characters) is assumed not to be exceeded."),
 "O03": ("record typestate over intelhex with affine ghosts (image position, digits stored, bytes per line, sum mod 256, address, records in the page, page number) in nested loops; bit-level digit check",
         "All image sizes up to the image buffer and all contents; fprintf's %02X and %04X conversions are trusted; more than 65536 pages are out of reach of the image buffer."),
 "O04": ("interval abstract interpretation with the image at a known address: every value given to the output position and every store through it, in every function that touches either, stays in the allocated block",
         "All programs; the position queued with a deferred operand is covered by the same invariant; the allocation's constant is the bound."),
 "M02": ("whole-program interval inference (globals, structure fields, parameters and results; ascending fixpoint with widening) deciding every variable index into an array of known length",
         "All programs; every variable subscript of every fixed array and of array parameters of known extent; character arrays used as text belong to M01, as do walks with pointers."),
 "M05": ("typestate analysis: abstract interpretation of every reachable function with the set of released values, the places that still hold one and the values kept by another object; parameters a function releases or keeps summarised to a whole-program fixpoint",
         "All functions and ways through them. Decided per value and place within a function and through its callees: a block reachable under two unrelated names (a definition's text used by a macro that undefines itself) is not followed."),
 "M01": ("string-length analysis: abstract interpretation with each buffer's text length as a linear form over measured lengths and the ranges of M02's whole-program inference; capacities of buffers filled by a callee (read_expr_impl) derived from its own code",
         "Every library call that writes (strcpy/strcat/strn*, sprintf/snprintf by format, mem*, fread, getcwd, fgets), every buffer handed to a function that fills it, every byte stored at a variable place or through a pointer that steps, in every function main can reach. Not decided: the growable buffer (eb_insert, eb_overwrite) and the copy of the image into an application; texts rewritten in place are taken to stop at their terminator."),
 "M03": ("interprocedural nullness analysis: abstract interpretation per function, split by null parameters and null merges, with whole-program summaries (what can fail, which fields and results can be null, which parameters must not be)",
         "Every pointer use of every function main can reach; sources are the C library's failing functions, null constants and whatever own functions hand on; pointers never set to null are not null."),
 "M06": ("interval analysis of every division, with paths kept apart by what they know about divisor and dividend",
         "Every sdiv/udiv/srem/urem of the program: divisor not 0, and not the smallest number by -1."),
 "O06": ("interprocedural taint from clocks, random numbers, process and environment queries and addresses used as numbers to everything written, plus clearedness of the blocks written from",
         "Every call of a library function whose result differs from run to run, every use of an address as a number, every allocation whose bytes reach a file, every fread; flow-insensitive taint with control dependence (post-dominators)."),
 "M04": ("definite-initialisation typestate (locals, results through pointers, fields of new objects) with whole-program summaries by return class, greatest fixpoint",
         "Every local whose address is taken, every SSA undef, every field of objects made with malloc; buffers count as set once written at all; library functions set what they document."),
 "O05": ("resource typestate (open failed / open / closed) by abstract interpretation of every function that opens a file, and of the callers of those that hand the failure on",
         "Every fopen in the program, all paths; what own functions do with a file they are given is taken from their bodies."),
 "O07": ("typestate over the enumeration of the symbol table, value flow of each entry's name and value, typestate over the walk that writes the list",
         "All programs; std::map's own iteration is trusted."),
 "Z05": ("typestate of stream errors: every path from a write to the end of the function passes a test of its success, and the failing branch reports",
         "Every stream opened for writing, all paths."),
 "C03": ("typestate abstract interpretation of the directory search, the list it walks and every user of its result",
         "All lists of directories, all answers of access(); call sites enumerated."),
 "D05": ("value-flow (taint) analysis of every format-string parameter of every variadic formatter",
         "Every call of a formatter in the program, through wrappers, tables and callers."),
 "D06": ("abstract interpretation of the walk over the collected diagnostics; typestate of session results at every call site",
         "All lists, all paths of the replay walk; call sites enumerated."),
}
NA = {
 "Z01": "Whether every label has the same value in both passes depends on run-time values of whole programs (the size of each construct when first read); no static argument over the source bounds that relation. The static parts (bytes vs. location counter, deferred widths) are E06-E08.",
 "Z02": "Validity of an RSA/Rabin signature is a number-theoretic fact about run-time values computed in GMP; no static argument here decides it.",
 "Z03": "Termination of a macro language with self-modifying definitions (set/undef, eval, fcreate) is undecidable; the statically decidable nesting bounds are X03 and P03.",
 "Z04": "Pixel-exact reproduction relates two run-time byte streams through data-dependent loops; deciding it needs execution or functional proof, not static analysis. The location-counter part is E07.",
}
