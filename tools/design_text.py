"""The hand-written parts of DESIGN.md (tools/gen_design.py puts them together)."""
import glob, importlib, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULE, COST = {}, {}
for _f in glob.glob(os.path.join(HERE, "sa", "rules_*.py")):
    for _i in re.findall(r'^ *"([A-Z]\d\d)": *\(', open(_f).read(), re.M):
        MODULE.setdefault(_i, "sa/" + os.path.basename(_f))
    for _i in re.findall(r'^CHECKS = \{"([A-Z]\d\d)"', open(_f).read(), re.M):
        MODULE.setdefault(_i, "sa/" + os.path.basename(_f))
for _l in open(os.path.join(HERE, "tools", "costs.txt")):
    _k, _v = _l.split()
    COST[_k] = _v

HEAD = r"""
# How the properties of spasm-ng are decided

This file is generated by `tools/gen_design.py` (text in `tools/design_text.py`, notes per property in
`tools/notes.py`, statements in `tools/gen_properties.py`).

## 1. What is analysed

Every check reads `/repo`'s current working tree. `sa/ir.py` compiles each of the 18 C++ sources the Makefile
builds with `clang++-18 -O0 -emit-llvm` (the flags of the Makefile's defines), links them to one module with
`llvm-link-18`, runs `opt -passes=mem2reg` only, and reads the module's text: functions, blocks, instructions,
constant tables, structure types (with member names from the debug information) and line numbers. Nothing of
spasm is executed, concretely or symbolically, and no solver is used. Object files are cached by content hash
outside `/repo` (a cold build takes about 10 s, the cache is only a speed-up). Functions that are not in
`sa/known_functions.txt` (that is, helpers that a refactoring extracts) are inlined before the analysis, so that
the rules see what a construct does, not how it is split up.

## 2. The engine

- `sa/ai.py`, a path-partitioned abstract interpreter over the whole-program IR. Values are symbolic expressions
  (value numbering over leaves: parameters, loads, call results, loop phis) with facts on them: intervals modulo
  2^w, disequalities, affine forms for loop counters (lform), known bits (`sa/bits.py`). Memory is a map from
  (base, offset, size) to values with store/kill; calls kill what the callee may modify (transitive mod-sets).
  Joins are per partition; loop heads join and widen. Feasibility of a branch is decided from the facts
  (`A.decide`) and refined on both sides (`A.assume`), so infeasible paths do not alarm.
- A *rule* is an automaton over that interpretation: hooks for calls, stores, arithmetic, edges, loop heads and
  returns update a typestate carried in the abstract state; partitions are keyed by the typestate, so different
  typestates never get merged. Ghost counters (affine) carry quantities such as "bytes written so far".
- Constant tables (opcode rows, directive names, messages, extensions) are read from the IR's initialisers and
  compared with an oracle written independently of spasm (`sa/oracle_z80.py` is generated from the published
  decoding structure of the Z80, x/y/z/p/q; the eZ80 part from the manual's opcode maps).
- Path pinning: a dispatcher is analysed once per name / option / extension / operand kind with the string
  comparison against that constant decided from the constant, everything else left free.
- `sa/core.py` collects obligations: each `ok` is counted, each failed one becomes a
  `VIOLATION property=<id> replay=<path>` line; the replay file and the evidence name function, source line,
  rule and construct. A rule that no longer finds the constructs it is about fails as `ANALYSIS-BROKEN` (exit 2)
  rather than passing vacuously: every rule has minimum obligation counts (`need`).

Soundness limits common to all checks: the interpretation trusts the C library's documented behaviour, GMP and
std::map; it assumes no memory error outside the property under decision (a stray write through an unrelated
pointer could falsify any property; M02, M04 and O04 decide parts of that assumption); the debug/`USE_REUSABLES`,
Windows and `NO_APPSIGN` variants are not built here and not analysed.

## 3. Running

`python3 check.py <id>` decides one property (quick and thorough are the same command: the analyses are
exhaustive over their abstract domain, there is no sampling to deepen). Exit 0 held, 1 violation, 2 analysis could
not be carried out. `known_findings.txt` lists genuine defects that are recorded rather than repaired, by rule and
construct key. `tools/` regenerates `properties.jsonl`, `MANIFEST.json` and this file.
"""

ORACLE = {
 "E01": "an opcode map of the documented Z80 generated from the decoding structure, independent of the table in `opcodes*.h`.",
 "E02": "the eZ80 manual's opcode maps in the same form, plus the rule that rows shared with the Z80 must agree.",
 "E03": "documented T-states per form; the counters must add exactly the row's count on every path that emits the row.",
 "E04": "the encoding rules: little endian, width per operand kind and mode, displacement = target - (address of next instruction), bit/rst/im fields merged at their bit positions.",
 "E05": "the documented accepted range of each operand kind in each mode.",
 "E06": "width and order per directive (`.db` 1, `.dw` 2, `.dl` 3), strings byte by byte, unknown elements deferred with the same width.",
 "E07": "bytes emitted = advance of the program counter, for every construct on every error-free path.",
 "E08": "the queue record must carry every piece of context evaluation reads (counter, output position, line, file, anonymous labels, listing position) and pass two must restore it first.",
 "E09": "eZ80 manual: .SIS/.LIS/.SIL/.LIL = 40/49/52/5B; suffix letters against ADL state decide operand width.",
 "D01": "Start/End bracket discipline; a session is ended exactly once on every path, replayed before being ended where its contents matter.",
 "D02": "one text per code; printf conversion types against argument types.",
 "D03": "no file is opened for writing once `error_occurred`; exit status 0/1 only without shown errors.",
 "D04": "position cells on exit equal their entry tokens.",
 "D05": "a format parameter is a constant of the program (or forwarded from a parameter that is).",
 "D06": "the replay filter's documented rule: only forward references in pass one are withheld, in session order, nothing else.",
 "X01": "C semantics of each operator on 32-bit signed values, with the documented exceptions (shift, compare, logical).",
 "X02": "the documentation's prefix/suffix table.",
 "X03": "every recursion through evaluation passes a counter with a limit and a diagnostic.",
 "S01": "one normalisation on both sides of every table access.",
 "S02": "a second definition is either identical, reported or an explicit redefinition construct.",
 "S03": "stack discipline of scopes; arguments are evaluated under the caller's scope.",
 "P01": "the documented directive list, written out in the rule.",
 "P02": "the level automaton: open +1, close -1, else/elif switch at level 0 only, skipping keeps the level.",
 "P03": "every recursion through source inclusion passes a counter with a limit and a fatal diagnostic.",
 "P04": "a failed evaluation is raised before anything else; deferral only where the construct has an operand queue.",
 "C01": "the documentation's option table.",
 "C02": "no colour escape reaches the terminal when the switch is off.",
 "C03": "the documented order: the including file's directory, then the -I list in order, then the name as given.",
 "O01": "extension table -> format classes recognised from the bytes written.",
 "O02": "the TI link guide: signature, section length, entry length, data length, checksum over the data section.",
 "O03": "Intel HEX: colon, count, address, type, data, two's-complement checksum; page records; end record.",
 "O04": "0 <= position <= size of the allocated image at every write, constant read from the allocation.",
 "O05": "an open handle is closed exactly once, a failed one is never used and is reported.",
 "O06": "sources of nondeterminism by name (clock, random numbers, process, environment, addresses, directory order) must not flow into output.",
 "O07": "the walk visits each label entry once, prints its own name and value, and nothing else.",
 "O08": "base name after the last separator, before the extension, upper case where the format demands, at most eight characters, padded.",
 "M01": "extent of the destination against an upper bound of what is written.",
 "M02": "array lengths of the types in the IR.",
 "M03": "the C library's and spasm's own failing functions, by summary.",
 "M04": "undef values of the IR and unwritten locals / heap fields.",
 "M06": "the processor's rule for integer division.",
 "M05": "the allocator's rule: a block released is dead, and every place that outlives the function must not hold it.",
 "Z05": "every write's failure is observable before the program reports success.",
}
EXTRA = {
 "E07": "An error that ends the assembly (`error_occurred`) makes the counters irrelevant: those paths are exempt. False alarm corrected: `write_out` returning early once an error is set (introduced by the overflow fix 47a9431) first looked like a lost byte.",
 "O01": "False alarm corrected: the success tests added by 3372658 (`ferror`, `fflush`) looked like other writers; they are classed passive.",
 "M05": "False alarms corrected while it was built: a block released inside `if (order == X)` of a counting loop is released in one round only (the branch is found by dominance); arguments a definition releases one by one before itself are not places that live on. Aliases between tables (`#undef` of the running macro, `last_define` after `#undef`) are outside the statement: they depend on which entries a program made share a block.",
 "M01": "A file name that was opened has fewer than PATH_MAX characters: that is what bounds the copies of `curr_input_file` and `output_filename` (the latter only behind the successful `fopen`, which the rule checks).",
 "M02": "Inference is a whole-program ascending fixpoint: bounds of globals, structure fields, parameters and results start empty and grow with what the interpretation of each function derives, widened to thresholds. No bound is assumed.",
}
DEFECTS = r"""
Each was shown with an input against the real program (ASan/UBSan build where the effect is memory corruption), then
repaired by a `fix:` commit where small and safe. The list is `known_findings.txt`:
"""
TAIL = r"""
## 6. False alarms met and what was done

- E04/E07 on the repaired `write_out`: the rule now treats `error_occurred` as 0 (the property speaks of error-free assembly).
- O01 on `ferror/fflush/fclose` tests: passive calls.
- Refactorings on which checks alarmed during development (helper extraction, loop rewriting, switch/if, merged
  branches, reordered independent statements) led to general machinery each time: inlining of new helpers, falling
  counters, nested loop rules, join-by-typestate. Known remaining sensitivity: `while (++i < size)` style loops in
  the file writers, a pointer-walking loop instead of an indexed one for the raw copy, and merging the name loop
  with its padding loop in `makeprgm`.

## 7. Defects seen and not claimed by a check

- TI-85 variables store 6+len as the entry header's length where the link guide says 4+len; calculators and linkers
  in the field accept it, so it was left alone.
- `-V` together with a positional output name ignores the name.
- `adl_mode` is set again by every nested run of pass one in eZ80 mode.
"""
SEEDS = r"""
Each is in `seeded/<id>/` (patch.diff, demo.sh, meta.json), written from the property's text and the code. Besides these,
several hundred small mutations (flip a comparison, drop a call, swap operands, change a constant) and as many
behaviour-preserving rewrites were run against the checks while they were built.
"""
CAUGHT = {}
