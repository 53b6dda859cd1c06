"""Command line: options (C01), colours (C02), search of include files (C03)."""
import ai
import bits
from ai import C
from ir import AnalysisBroken
from util import *

MODES = {"T": "MODE_LIST", "C": "MODE_CODE_COUNTER", "L": "MODE_SYMTABLE", "S": "MODE_STATS", "E": "MODE_EZ80", "V": "MODE_COMMANDLINE"}
OPTIONS = "OTCLSENIADVHh"
CUR = 5
# calls an option may make besides its own
NEUTRAL = ("strlen", "printf", "puts", "fprintf", "fputs", "fputc", "putchar", "llvm.", "__", "fwrite")


def arg(k, off=0):
    """Text of command line argument k."""
    return ai.add(64, ("x", ("ld", ai.add(64, P(1), 8 * k), 8, "argv"), 64), off)


def option_loop(m, f):
    """Header of the loop over the arguments."""
    A = ai.Analysis(m, f, ai.Rule())
    argv = f.params[1][0]
    blocks = {I.bb.name for I in f.instrs() if I.op == "gep" and I.ops[0] == ("v", argv)}
    best, score = None, 0
    for h, body in A.loops.items():
        n = len(blocks & (set(body) | {h}))
        if n > score or n == score and n and len(body) > len(A.loops[best]):
            best, score = h, n
    if best is None:
        raise AnalysisBroken("loop over the command line arguments not found in main")
    return best, set(A.loops[best]) | {best}


class Opt(ai.Rule):
    """One round of the loop over the arguments, with the argument's first characters given."""
    retsplit = True

    def __init__(self, m, f, head, body, chars, argc, at_end):
        self.m, self.f, self.head, self.body, self.chars, self.argc, self.at_end = m, f, head, body, chars, argc, at_end
        self.phis = [I for I in f.bmap[head].ins if I.op == "phi"]
        self.calls = {}         # call sites seen -> argument expressions
        self.curname = None

    def init(self, A, st):
        A.constrain(st, P(0, 32), ((self.argc, self.argc),))
        st.ts = (0, frozenset())

    def key(self, A, st):
        return st.ts, attached(A, st)

    def edge(self, A, st, src, dst):
        if dst == self.head:
            if src in self.body:
                return False
            # any round: flags and lists collected so far are arbitrary, the place is argument CUR
            for I in self.phis:
                v = st.env.get(I.res)
                w = A.wid(I.ty)
                if v == C(1) and w == 32:
                    st.env[I.res] = C(CUR)
                    self.curname = I.res
                elif v is not None and v[0] == "c":
                    st.env[I.res] = ("x", ("phi", self.head, I.res), w)
            for k in list(st.mem):
                if k[0][0] == "g":
                    del st.mem[k]
                elif k[0][0] == "al" and st.mem[k] == (C(1), 4):
                    st.mem[k] = (C(CUR), 4)
                    self.curname = k
                elif k[0][0] == "al" and st.mem[k][0][0] == "c":
                    st.mem[k] = (("x", ("ld", ai.add(64, k[0], k[1]), st.mem[k][1], "entry"), 8 * st.mem[k][1]), st.mem[k][1])
            st.ts = (1, frozenset())
        return True

    def load(self, A, st, I, addr):
        b, o = ai.split(addr)
        if b == P(1):
            return ("x", ("ld", addr, 8, "argv"), 64)
        if st.ts[0] == 1 and b[0] == "x" and b[1][0] == "ld" and b[1][3] == "argv" and A.wid(I.ty) == 8:
            c = self.chars.get(o) if b == arg(CUR) else None
            e = ("x", ("ld", addr, 1, "argv"), 8)
            if c is not None:
                if isinstance(c, str):
                    return C(ord(c))
                A.constrain(st, e, c)
            return e
        return None

    def note(self, st, *e):
        if st.ts[0] == 1:
            st.ts = (1, st.ts[1] | {e})

    def store(self, A, st, I, addr, val):
        b, o = ai.split(addr)
        if b[0] == "g":
            self.note(st, "set", b[1], I)

    def call(self, A, st, I, n, args):
        if n is None or n.startswith("llvm."):
            return None
        self.note(st, "call", n, I)
        if A.reporting and st.ts[0] == 1:
            self.on_call(A, st, I, n, args)
        if n == "print_help_message":
            # does not come back; if it does, the option has no further effect
            A.default_call(st, I, n, args)
            return [(st, st.env.get(I.res))]
        return None

    def on_call(self, A, st, I, n, args):
        pass

    def back(self, A, st, src, dst):
        if dst == self.head and A.reporting and st.ts[0] == 1:
            new = {I.res: A.val(st, o, I.ty) for I in self.phis for o, blk in zip(I.ops, I.x) if blk == src}
            st.env.update(new)
            self.at_end(self, A, st, "next", None)

    def ret(self, A, st, I, v):
        if A.reporting and st.ts[0] == 1:
            self.at_end(self, A, st, "return", v)

    def next_arg(self, A, st):
        if isinstance(self.curname, tuple):
            return A.load_expr(st, ai.add(64, self.curname[0], self.curname[1]), 4, 32)
        return st.env.get(self.curname)

    def locals(self, A, st):
        """Flags and lists that are not as they were."""
        out = {}
        for I in self.phis:
            if I.res == self.curname:
                continue
            v = st.env.get(I.res)
            if v != ("x", ("phi", self.head, I.res), A.wid(I.ty)):
                out[I.res] = v
        for k in st.mem:
            if k[0][0] == "al" and k != self.curname:
                v, s = st.mem[k]
                if v != ("x", ("ld", ai.add(64, k[0], k[1]), s, "entry"), 8 * s):
                    out[k] = v
        return out


def attached(A, st, k=CUR):
    """True/False/None: the option letter is followed by more text in the same argument."""
    ln = [e for e in st.cons if e[0] == "x" and e[1][0] in ("call", "ap") and "strlen" in e[1]]
    for e in ln:
        S = A.iset(st, e)
        if not ai.iinter(S, ((0, 2),)):
            return True
        if ai.subset(S, ((0, 2),)):
            return False
    S = A.iset(st, ("x", ("ld", arg(k, 2), 1, "argv"), 8))
    if S == ((0, 0),):
        return False
    if ai.iinter(S, ((0, 0),)) == ():
        return True
    return None


def check_C01(m, R):
    f = m.fn("main")
    head, body = option_loop(m, f)
    mode0 = None
    flags = {}

    def run(chars, argc, at_end, on_call=None):
        r = Opt(m, f, head, body, chars, argc, at_end)
        if on_call:
            r.on_call = lambda A, st, I, n, args: on_call(r, A, st, I, n, args)
        ai.Analysis(m, f, r, max_visits=4000).run()
        return r

    def mode_is(A, st, want):
        cur = gval(A, st, "mode")
        old = [e for e in ai.subexprs(cur) if e[0] == "x" and e[1][0] == "ld" and e[1][1] == G("mode")]
        old = old[0] if old else None
        return old is not None and bits.equal(cur, want(old), 32)

    toks = from_calls(m, f, "strtok")
    for o in OPTIONS:
        ends = []
        calls = []

        def at_end(r, A, st, kind, v, o=o):
            sets = {e[1] for e in st.ts[1] if e[0] == "set"}
            callees = {e[1] for e in st.ts[1] if e[0] == "call" and not e[1].startswith(NEUTRAL)}
            cell = None
            if "mode" in sets:
                if o == "O":
                    cell = mode_is(A, st, lambda x: ai.binop("and", 32, x, C(~modebit(m, "MODE_NORMAL"))))
                elif o in MODES:
                    cell = mode_is(A, st, lambda x: ai.binop("or", 32, x, C(modebit(m, MODES[o]))))
                else:
                    cell = False
            ends.append(dict(kind=kind, sets=sets, callees=callees, mode=cell, next=A.fold(st, r.next_arg(A, st)) if r.next_arg(A, st) else None,
                             locals=r.locals(A, st), att=attached(A, st),
                             colors=A.iset(st, A.load_expr(st, G("use_colors"), 1, 8)),
                             table=A.load_expr(st, G("all_opcodes"), 8, 64),
                             dirs=A.load_expr(st, G("include_dirs"), 8, 64),
                             out=A.load_expr(st, G("output_filename"), 8, 64),
                             src=A.load_expr(st, G("input_contents"), 8, 64),
                             file=A.load_expr(st, G("curr_input_file"), 8, 64),
                             tok=[A.iset(st, st.env[t]) for t in toks if t in st.env],
                             ret=A.iset(st, v) if v is not None else None))

        def on_call(r, A, st, I, n, args):
            calls.append((n, args, attached(A, st), I))
        for argc in ((CUR + 1, CUR + 4) if o in "IDV" else (CUR + 4,)):
            del ends[:], calls[:]
            run({0: "-", 1: o}, argc, at_end, on_call)
            last = argc == CUR + 1
            lab = "-" + o
            w = fn_where(m, f)
            if not ends:
                R.check(o in "Hh" and any(c[0] in ("print_help_message", "exit") for c in calls), "option", w, lab + " shows the help", lab + " never ends", lab + " end")
                continue
            for e in ends:
                want_sets, want_calls, step, kinds = set(), set(), 1, {"next"}
                extra = None
                missing = o in "IDV" and last and e["att"] is False
                if o in "IDV" and e["att"] is None:
                    R.bad("argument", w, "%s: whether the argument is attached is not decided on a way through it" % lab, lab + " attached")
                    continue
                if o in "IDV" and e["att"] is False and not last:
                    step = 2
                if missing:
                    kinds = {"next", "return"} if o != "V" else {"return"}
                elif o in "OTCLS":
                    want_sets = {"mode"}
                elif o == "E":
                    want_sets = {"mode", "all_opcodes"}
                elif o == "N":
                    want_sets = {"use_colors"}
                elif o == "I":
                    want_sets = {"include_dirs"}
                elif o == "V":
                    want_sets = {"mode", "curr_input_file", "input_contents", "output_filename"}
                R.check(e["kind"] in kinds, "option", w, "%s goes on with the next argument" % lab, "%s ends the run" % lab if e["kind"] == "return" else
                        "%s without its argument goes on" % lab, lab + " kind")
                if e["kind"] == "return":
                    R.check(e["ret"] is not None and not ai.iinter(e["ret"], ((0, 0),)), "option", w, "%s without its argument fails" % lab,
                            "%s without its argument ends with status 0" % lab, lab + " status")
                    R.check(not e["sets"], "only", w, "%s without its argument changes nothing" % lab, "%s without its argument sets %s" %
                            (lab, sorted(e["sets"])), lab + " sets")
                    continue
                if o != "I" or e["sets"]:
                    R.check(want_sets <= e["sets"], "option", w, "%s sets %s" % (lab, sorted(want_sets) or "nothing"),
                            "%s does not set %s" % (lab, sorted(want_sets - e["sets"])), lab + " effect")
                R.check(e["sets"] <= want_sets, "only", w, "%s changes nothing else" % lab, "%s also sets %s" % (lab, sorted(e["sets"] - want_sets)), lab + " other")
                if "mode" in want_sets:
                    R.check(e["mode"], "option", w, "%s changes exactly its own bit of the mode" % lab, "%s does not change exactly its own bit of the mode" % lab, lab + " bit")
                R.check(e["next"] == C(CUR + step), "argument", w, "%s takes %d argument(s)" % (lab, step), "after %s the next argument looked at is not the next one (%s)" %
                        (lab, e["next"]), lab + " step")
                if o == "E":
                    R.check(e["table"] == G("opcode_list_ez80"), "option", w, "-E selects the eZ80 table", "-E does not select the eZ80 instruction table", "-E table")
                if o == "N":
                    R.check(e["colors"] == ((0, 0),), "option", w, "-N turns colours off", "-N leaves colours on", "-N value")
                loc = e["locals"]
                if o == "A":
                    ok = len(loc) == 1 and all(v == C(1) or v == C(-1) for v in loc.values())
                    R.check(ok, "option", w, "-A sets its flag and nothing else", "-A does not set exactly one flag (%s)" % loc, "-A flag")
                    if ok:
                        flags["A"] = list(loc)[0]
                elif o == "D" and not missing:
                    ok = len(loc) == 1
                    v = list(loc.values())[0] if ok else None
                    ok = ok and v[0] == "x" and v[1][0] == "call" and v[1][3] == "list_append"
                    R.check(ok, "option", w, "-D keeps its text for later", "-D does not add its text to exactly one list", "-D list")
                    if ok:
                        flags["D"] = list(loc)[0]
                else:
                    R.check(not loc, "only", w, "%s leaves the other options as they are" % lab, "%s changes another option's flag" % lab, lab + " flag")
                text = arg(CUR, 2) if e["att"] else arg(CUR + 1)
                if o == "I" and not missing:
                    R.check(any(S == ((0, 0),) for S in e["tok"]), "option", w, "-I goes through all its directories",
                            "-I stops before its last directory", "-I all")
                allowed = {"I": {"strdup", "strtok", "list_append", "free"}, "D": {"list_append"}, "V": {"strdup", "malloc", "change_extension", "strcpy", "strcat", "memcpy", "strncpy", "sprintf", "snprintf"},
                           "H": {"print_help_message"}, "h": {"print_help_message"}}.get(o, set())
                R.check(e["callees"] <= allowed, "only", w, "%s calls nothing else" % lab, "%s also calls %s" % (lab, sorted(e["callees"] - allowed)), lab + " calls")
                if o in "Hh":
                    R.check("print_help_message" in e["callees"], "option", w, lab + " shows the help", lab + " shows no help", lab + " help")
            for n, args, att, I in calls:
                if o == "D" and n == "list_append":
                    lst = flags.get("D")
                    same = not isinstance(lst, str) or args[0] == ("x", ("phi", head, lst), 64)
                    R.check(args[1] == (arg(CUR, 2) if att else arg(CUR + 1)) and same, "argument", fn_where(m, f, I),
                            "-D appends the text of its argument to its list", "-D does not append the text of its argument to its list", "-D text")
                if o == "I" and n == "strdup" and not value_of(args[0], toks):
                    R.check(args[0] == (arg(CUR, 2) if att else arg(CUR + 1)), "argument", fn_where(m, f, I), "-I takes its directories from its argument",
                            "-I does not take its directories from its argument", "-I text")
                if o == "I" and n == "list_append":
                    v = args[1]
                    R.check(is_call(v, "strdup") and any(is_sub(v, J) and value_of(a[0], toks) for c, a, t, J in calls if c == "strdup") and A_load(args[0]), "argument", fn_where(m, f, I),
                            "-I appends each directory", "-I appends something else", "-I append")
                if o == "V" and n in ("strcpy", "memcpy"):
                    R.check(args[1] == (arg(CUR, 2) if att else arg(CUR + 1)), "argument", fn_where(m, f, I), "-V assembles the text of its argument",
                            "-V does not assemble the text of its argument", "-V text")
    # any other letter is an error
    ends = []
    rest = ai.icompl(ai.iv(*[(ord(c), ord(c)) for c in OPTIONS]), ai.itop(8))
    run({0: "-", 1: rest}, CUR + 4, lambda r, A, st, kind, v: ends.append((kind, A.iset(st, v) if v is not None else None, A.iset(st, ("x", ("ld", arg(CUR, 1), 1, "argv"), 8)))))
    for kind, S, ch in ends:
        R.check(kind == "return" and S is not None and not ai.iinter(S, ((0, 0),)), "unknown", fn_where(m, f), "an unknown option ends the run with an error",
                "an undocumented option letter (%s) is accepted" % setstr(ch), "unknown " + kind)
    R.check(bool(ends), "unknown", fn_where(m, f), "unknown options are handled", "unknown options never return", "unknown")
    positional(m, R, f, head, body, run)
    after(m, R, f, head, body, flags)
    effects(m, R)
    R.need("option", 30)
    R.need("only", 30)
    R.need("argument", 15)
    R.need("unknown", 2)
    R.need("file names", 4)
    R.need("applied", 3)
    R.need("output", 30)


def from_calls(m, f, name):
    """Registers that hold a result of name: calls, and phis of nothing else."""
    r = {I.res for I in f.instrs() if I.op == "call" and m.callee_name(I) == name}
    while True:
        n = {I.res for I in f.instrs() if I.op == "phi" and I.res not in r and all(o[0] == "v" and (o[1] in r or o[1] == I.res) for o in I.ops)}
        if not n:
            return r
        r |= n


def value_of(e, regs):
    """e is the value of one of the registers (a call's result or a phi)."""
    return e[0] == "x" and (e[1][0] == "phi" and e[1][2] in regs or e[1][0] == "call" and e[1][3] == "strtok")


def is_sub(e, I):
    return e[0] == "x" and e[1][0] == "call" and e[1][1] == I.bb.name and e[1][2] == I.idx


def is_call(e, *names):
    return e is not None and e[0] == "x" and e[1][0] == "call" and e[1][3] in names


class Files(Opt):
    """With the input and output names given so far pinned."""
    START, IN, OUT = 4096, 8192, 12288

    def __init__(self, *a, infile=None, outfile=None, mode=None):
        super().__init__(*a)
        self.infile, self.outfile, self.mode = infile, outfile, mode

    def edge(self, A, st, src, dst):
        start = A.load_expr(st, G("curr_input_file"), 8, 64) if dst == self.head and src not in self.body else None
        if not super().edge(A, st, src, dst):
            return False
        if start is not None:
            if start[0] == "x":
                A.constrain(st, start, ((self.START, self.START),))
            st.mem[(G("curr_input_file"), 0)] = (start if self.infile is None else C(self.infile), 8)
            st.mem[(G("output_filename"), 0)] = (C(self.outfile or 0), 8)
            if self.mode is not None:
                st.mem[(G("mode"), 0)] = (C(self.mode), 4)
        return True


def positional(m, R, f, head, body, run):
    w = fn_where(m, f)
    notdash = ai.icompl(((45, 45),), ai.itop(8))
    for lab, fin, fout, want in (("the first file name", None, 0, "curr_input_file"), ("the second file name", Files.IN, 0, "output_filename"),
                                 ("a third file name", Files.IN, Files.OUT, None)):
        ends, calls = [], []

        def at_end(r, A, st, kind, v):
            sets = {e[1] for e in st.ts[1] if e[0] == "set"}
            n = A.fold(st, r.next_arg(A, st))
            ends.append((kind, sets, n, A.load_expr(st, G(want), 8, 64) if want else None, r.locals(A, st)))
        r = Files(m, f, head, body, {0: notdash}, CUR + 4, at_end, infile=fin, outfile=fout)
        r.on_call = lambda A, st, I, n, args: calls.append((n, args, I))
        ai.Analysis(m, f, r, max_visits=4000).run()
        R.check(bool(ends), "file names", w, lab + " is handled", lab + " never ends", lab)
        for kind, sets, n, v, loc in ends:
            good = kind == "next" and sets == ({want} if want else set()) and n == C(CUR + 1) and not loc
            if want:
                good = good and is_call(v, "strdup") and any(c == "strdup" and args[0] == arg(CUR) for c, args, I in calls)
            R.check(good, "file names", w, "%s is the %s" % (lab, want or "one ignored"), "%s is not taken as the %s" % (lab, want or "one to ignore"), lab + " kept")


def after(m, R, f, head, body, flags):
    """After the last argument: the options are applied in an order in which each can still have its effect."""
    from rules_ctl import cstr
    w = fn_where(m, f)
    nor = modebit(m, "MODE_NORMAL")
    cmdl = modebit(m, "MODE_COMMANDLINE")
    off = m.struct_fields("struct define") if False else None
    for lab, fin, fout, mode in (("an input file", Files.IN, 0, nor), ("both files", Files.IN, Files.OUT, nor), ("no file", None, 0, nor),
                                 ("an expression", Files.IN, Files.OUT, nor | cmdl)):
        ends, calls, rounds = [], [], []

        def at_end(r, A, st, kind, v):
            done = {e[1] for e in st.ts[1] if e[0] == "call"}
            S = A.iset(st, v) if v is not None else None
            # a -D that cannot be defined may end the program with a failure
            if "run_assembly" not in done and S is not None and not ai.iinter(S, ((0, 0),)) and any(is_call(x, "add_define") and T == ((0, 0),) for x, T in st.cons.items()):
                return
            ends.append((kind, v, done, S))

        def on_call(A, st, I, n, args):
            done = {e[1] for e in st.ts[1] if e[0] == "call" and e[2] is not I}
            if n == "set_case_sensitive":
                calls.append((n, args, I, None, None))
            elif n in ("init_storage", "add_define", "run_assembly"):
                calls.append((n, args, I, done, A.load_expr(st, G("output_filename"), 8, 64)))
            elif n == "read_expr_impl":
                calls.append((n, args, I, A.load_expr(st, args[0], 8, 64), cstr(m, args[2])))
            elif n == "set_define":
                calls.append((n, args, I, cstr(m, args[1]), None))
            elif n == "change_extension":
                calls.append((n, args, I, cstr(m, args[1]), None))

        class Ru(Files):
            def back(self, A, st, src, dst):
                if dst != self.head:
                    rounds.append({e[1] for e in st.ts[1] if e[0] in ("call", "heap")})
                    st.ts = (st.ts[0], frozenset(e for e in st.ts[1] if not (e[0] == "heap" or e[1] in ("set_define", "add_define", "read_expr_impl", "strdup"))))

            def store(self, A, st, I, addr, val):
                super().store(A, st, I, addr, val)
                b, o = ai.split(addr)
                if is_call(b, "add_define") and is_call(val, "strdup"):
                    self.note(st, "heap", "contents", I)
        r = Ru(m, f, head, body, {}, CUR, at_end, infile=fin, outfile=fout, mode=mode)
        r.on_call = on_call
        ai.Analysis(m, f, r, max_visits=4000).run()
        runs = [c for c in calls if c[0] == "run_assembly"]
        if fin is None:
            R.check(not runs and ends and all(S is not None and not ai.iinter(S, ((0, 0),)) for k, v, d, S in ends), "applied", w,
                    "without an input file the run fails", "without an input file the run does not fail", "no input")
            continue
        R.check(bool(runs) and bool(ends) and all(is_call(v, "run_assembly") for k, v, d, S in ends), "applied", w,
                "with %s the source is assembled and its status returned" % lab, "with %s the status of the assembly is not what is returned" % lab, "status " + lab)
        for n, args, I, done, out in runs:
            if fout:
                R.check(out == C(fout), "file names", fn_where(m, f, I), "the output name given is used", "the output name given is not used", "output given")
            else:
                R.check(is_call(out, "change_extension") and any(c[0] == "change_extension" and c[1][0] == C(fin) and c[3] == "bin" for c in calls),
                        "file names", fn_where(m, f, I), "without an output name it is the input's with bin", "without an output name it is not the input's with extension bin", "output default")
            R.check({"init_storage", "set_case_sensitive"} <= done, "applied", fn_where(m, f, I), "storage and case are set up before assembly",
                    "assembly starts before storage and case are set up", "order assembly")
        sc = [c for c in calls if c[0] == "set_case_sensitive"]
        R.check(bool(sc), "applied", w, "-A is applied", "-A is never applied", "-A applied")
        for n, args, I, a, b in sc:
            fl = flags.get("A")
            lv = [e for e in ai.subexprs(args[0]) if e[0] == "x" and e[1][0] in ("phi", "ld")]
            good = len(lv) == 1 and (isinstance(fl, str) and lv[0][1][:3] == ("phi", head, fl) or isinstance(fl, tuple) and lv[0][1][0] == "ld")
            R.check(good, "applied", fn_where(m, f, I), "labels are case sensitive exactly with -A", "set_case_sensitive is not given the flag of -A", "-A value")
        for n, args, I, done, out in calls:
            if n == "init_storage":
                R.check("set_case_sensitive" in done, "applied", fn_where(m, f, I), "tables are made after case is known", "tables are made before case is known", "order storage")
            elif n == "add_define":
                R.check("init_storage" in done, "applied", fn_where(m, f, I), "-D defines are added to the initialised tables", "-D defines are added before the tables are made", "order define")
                R.check(is_call(args[0], "strdup"), "applied", fn_where(m, f, I), "the name of a -D define is kept", "the name of a -D define is not copied", "-D name")
        dl = [c for c in calls if c[0] == "read_expr_impl"]
        R.check(bool(dl), "applied", w, "-D defines are read", "-D defines are never read", "-D read")
        for n, args, I, v, delim in dl:
            R.check(delim == "=" and v[0] == "x" and v[1][0] == "ld", "applied", fn_where(m, f, I), "the name of a -D define ends at =", "the name of a -D define does not end at =", "-D delimiter")
        for n, args, I, v, x in [c for c in calls if c[0] == "set_define"]:
            R.check(v == "1" and args[2] in (C(1), C(-1)), "applied", fn_where(m, f, I), "a -D define without value is 1", "a -D define without value is not 1", "-D default")
        for d in rounds:
            R.check("add_define" in d and ("set_define" in d or "contents" in d), "applied", w, "every -D define gets a value", "a -D define is dropped or gets no value", "-D value")
        R.check(bool(rounds), "applied", w, "all -D defines are gone through", "-D defines are not gone through", "-D loop")


def effects(m, R):
    """What run_assembly does under each combination of modes."""
    from rules_ctl import cstr
    import itertools
    f = m.fn("run_assembly")
    bit = {n: modebit(m, n) for n in ("MODE_NORMAL", "MODE_CODE_COUNTER", "MODE_SYMTABLE", "MODE_STATS", "MODE_LIST")}
    names = sorted(bit)
    for combo in itertools.product((0, 1), repeat=len(names)):
        on = {n for n, c in zip(names, combo) if c}
        mode = sum(bit[n] for n in on)
        rets, ext = [], []

        class Ru(ai.Rule):
            retsplit = True

            def init(self, A, st):
                st.ts = frozenset()

            def key(self, A, st):
                return st.ts

            def load(self, A, st, I, addr):
                if addr == G("mode"):
                    return C(mode)
                if addr == G("output_filename"):
                    return C(Files.OUT)
                if addr == G("error_occurred"):
                    return C(0)
                return None

            def call(self, A, st, I, n, args):
                ev = None
                if n in ("write_labels", "write_file", "run_first_pass", "run_second_pass"):
                    ev = n
                elif n == "get_num_labels":
                    ev = "statistics"
                elif n in ("fopen", "fopen64"):
                    ev = "open"
                elif n == "fwrite":
                    ev = "listing"
                elif n == "change_extension" and A.reporting:
                    ext.append((args[0], cstr(m, args[1]), I))
                if n in ("printf", "fprintf"):
                    loads = {e[1][1] for a in args for e in ai.subexprs(a) if e[0] == "x" and e[1][0] == "ld"}
                    if G("stats_mintime") in loads and G("stats_maxtime") in loads:
                        ev = "cycles"
                if ev:
                    st.ts = st.ts | {ev}
                return None

            def ret(self, A, st, I, v):
                if A.reporting:
                    rets.append((st.ts, v, I))
        ai.Analysis(m, f, Ru(), max_visits=4000).run()
        lab = "+".join(sorted(n[5:] for n in on)) or "none"
        full = [t for t in rets if t[1] is not None and t[1][0] != "c"]
        R.check(bool(full), "output", fn_where(m, f), "with %s the run ends normally" % lab, "with %s the run never ends normally" % lab, "none " + lab)
        want = {"run_first_pass"}
        want |= {"run_second_pass"} if on & {"MODE_NORMAL", "MODE_SYMTABLE", "MODE_LIST"} else set()
        want |= {"write_file"} if "MODE_NORMAL" in on else set()
        want |= {"write_labels"} if "MODE_SYMTABLE" in on else set()
        want |= {"open", "listing"} if "MODE_LIST" in on else set()
        want |= {"statistics"} if "MODE_STATS" in on else set()
        want |= {"cycles"} if "MODE_CODE_COUNTER" in on else set()
        for ts, v, I in full:
            miss, more = want - ts, ts - want
            R.check(not miss and not more, "output", fn_where(m, f), "with %s exactly the results asked for are produced" % lab,
                    "with the modes %s: %s" % (lab, "; ".join((["not produced: " + ", ".join(sorted(miss))] if miss else []) +
                                                              (["produced unasked: " + ", ".join(sorted(more))] if more else []))), "effects " + " ".join(sorted(miss) + sorted(more)))
        for ts, v, I in rets:
            if v is not None and v[0] == "c":
                R.check(not (ts - want) and v != C(0), "output", fn_where(m, f, I), "a run that is given up fails", "a run that is given up ends with status 0 or produced what was not asked for", "given up")
        for a, e, I in ext:
            R.check(a == C(Files.OUT) and e in ("lab", "lst"), "output", fn_where(m, f, I), "the symbol and list files are named after the output file",
                    "the file with extension %s is not named after the output file" % e, "extension %s" % e)


def A_load(e):
    """e if it is what include_dirs held, or what an append to it returned."""
    if e[0] == "x" and e[1][0] == "ld" and e[1][1] == G("include_dirs"):
        return e
    if is_call(e, "list_append") or e[0] == "x" and e[1][0] == "memphi" and e[1][2][1] == G("include_dirs"):
        return e
    return None


# ------------------------------------------------------------------ C02
def escape_of(m, a):
    """'on'/'off' when the argument is text with a terminal escape sequence."""
    b, o = ai.split(a)
    if b[0] != "g":
        return None
    t = m.cstring(("g", b[1]))
    if t is None or b"\x1b[" not in t[o:]:
        return None
    t = t[o:]
    last = t[t.rindex(b"\x1b["):]
    return "off" if last.startswith((b"\x1b[0m", b"\x1b[m")) else "on"


def refers(m, f):
    """The function mentions text with an escape sequence, or the escape character as an argument."""
    for I in f.instrs():
        for o in I.ops:
            if o[0] == "g":
                t = m.cstring(o)
                if t is not None and b"\x1b[" in t:
                    return True
        if I.op == "call" and (m.callee_name(I) or "") in ("putchar", "fputc", "putc", "_IO_putc") and I.ops and I.ops[0] == ("c", 27):
            return True
    return False


class Colour(ai.Rule):
    def __init__(self, m, f, colours, summary):
        self.m, self.f, self.colours, self.summary = m, f, colours, summary
        self.printed, self.exits, self.sets = [], [], []

    def init(self, A, st):
        st.ts = "off"

    def key(self, A, st):
        return st.ts

    def load(self, A, st, I, addr):
        if addr == G("use_colors"):
            return C(1 if self.colours else 0)
        return None

    def call(self, A, st, I, n, args):
        esc = None
        for a in args:
            esc = escape_of(self.m, a) or esc
        if n in ("putchar", "fputc", "putc") and args and args[0] == C(27):
            esc = "on"
        if esc:
            if A.reporting:
                self.printed.append(I)
            st.ts = esc
        elif n in self.summary:
            if self.summary[n] == "on" and A.reporting:
                self.sets.append(I)
            st.ts = self.summary[n]
        if n in ("exit", "abort", "_exit"):
            return []
        return None

    def ret(self, A, st, I, v):
        if A.reporting:
            self.exits.append((I, st.ts))


def check_C02(m, R):
    roots = [f for f in m.own if refers(m, f)]
    if not roots:
        raise AnalysisBroken("no escape sequence is printed anywhere")
    summary = {}
    for f in roots:
        c = Colour(m, f, False, {})
        ai.Analysis(m, f, c).run()
        R.check(not c.printed, "disabled", fn_where(m, f, c.printed[0] if c.printed else None), "%s prints no escape sequence when colours are off" % f.name,
                "%s prints an escape sequence although colours are off" % f.name, f.name)
        c = Colour(m, f, True, {})
        ai.Analysis(m, f, c).run()
        ends = {t for I, t in c.exits}
        if c.printed:
            R.check(len(ends) == 1, "changes", fn_where(m, f), "%s always leaves the colour %s" % (f.name, sorted(ends)), "%s sets the colour on some paths only" % f.name, f.name)
        if ends == {"on"}:
            summary[f.name] = "on"
        elif ends == {"off"} and c.printed:
            summary[f.name] = "off"
    # what prints escapes without a name of its own is only reached where it is called
    n = 0
    for f in m.own:
        if f.name in summary:
            continue
        used = [I for I in f.instrs() if I.op == "call" and m.callee_name(I) in summary]
        if not used:
            continue
        c = Colour(m, f, True, summary)
        ai.Analysis(m, f, c, max_visits=8000).run()
        on = [I for I, t in c.exits if t == "on"]
        n += 1
        R.check(not on, "undone", fn_where(m, f, on[0] if on else None), "%s puts the colour back on every path" % f.name,
                "%s can return with the colour of a message still set" % f.name, f.name)
    regs = [m.resolve_sym(I.ops[0][1]) for f in m.own for I in f.instrs() if I.op == "call" and m.callee_name(I) == "atexit" and I.ops[0][0] == "g"]
    ok = any(m.funcs[r].name in summary and summary[m.funcs[r].name] == "off" for r in regs if r in m.funcs)
    R.check(ok, "at exit", "main.cpp:main", "the colour is put back when the program ends", "nothing puts the colour back when the program ends", "atexit")
    # who sets the switch
    for f in m.own:
        for I in f.instrs():
            if I.op == "store" and I.ops[1] == ("g", "use_colors"):
                v = I.ops[0]
                R.check(f.name == "main" and v[0] == "c", "switch", fn_where(m, f, I), "colours are switched by the command line only", "%s changes the colour switch" % f.name, f.name)
    R.need("disabled", 3)
    R.need("undone", 8)
    R.need("switch", 2)


# ------------------------------------------------------------------ C03
def check_C03(m, R):
    from rules_ctl import cstr
    f = m.fn("full_path")
    sf = m.struct_fields("_list") or m.struct_fields("list_t")
    DATA, NEXT = sf["data"][0], sf["next"][0]
    probs, done = [], []

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            st.ts = ((), None)          # what has been put together, the path it became (call site)
            self.lists = {}
            for h in A.loops:
                for I in f.bmap[h].ins:
                    if I.op == "phi" and I.ty.k == "ptr":
                        self.lists.setdefault(h, []).append(I)

        def key(self, A, st):
            mine = None
            if st.ts[1] is not None and st.ts[1].res in st.env:
                mine = self.acc(A, st, st.env[st.ts[1].res]) == ((0, 0),)
            return st.ts, A.iset(st, ("x", ("abs", P(0)), 1)), self.acc(A, st, P(0)), mine

        def cursors(self, A, st):
            """Values that are places in the list of directories."""
            out = []
            for h, L in self.lists.items():
                for I in L:
                    ini = [o for o, b in zip(I.ops, I.x) if b not in A.loops[h]]
                    if all(self.from_list(A, st, o) for o in ini):
                        out.append(I.res)
            return out

        def from_list(self, A, st, o):
            if o[0] == "v":
                d = f.defs.get(o[1])
                return d is not None and d.op == "load" and d.ops[0] == ("g", "include_dirs")
            return False

        def is_node(self, A, st, e):
            if e[0] == "x" and e[1][0] == "ld" and e[1][1] == G("include_dirs"):
                return True
            return e[0] == "x" and e[1][0] == "phi" and e[1][2] in self.cursors(A, st)

        def call(self, A, st, I, n, args):
            if n == "is_abs_path":
                A.default_call(st, I, n, args)
                return [(st, ("x", ("abs", args[0]), 1))]
            if n == "access":
                if args[0] == C(0):
                    return [(st, C(-1))]
                if A.reporting:
                    done.append(("access", I))
                    if args[1] != C(4):
                        probs.append((I, "a candidate is not tested for being readable", "mode"))
                A.default_call(st, I, n, args)
                return [(st, ("x", ("acc", args[0]), 32))]
            if n == "eb_init":
                st.ts = ((), st.ts[1])
            elif n == "eb_append":
                b, o = ai.split(args[1])
                what = "?"
                if args[1] == P(0):
                    what = "name"
                elif cstr(m, args[1]) is not None and args[2] in (C(1), C(-1)):
                    what = cstr(m, args[1])
                elif b[0] == "x" and b[1][0] == "ld" and self.is_node(A, st, ai.add(64, b[1][1], -DATA)):
                    what = "dir"
                st.ts = ((st.ts[0] + (what,))[-6:], st.ts[1])
            elif n == "eb_extract":
                A.default_call(st, I, n, args)
                leaf = st.env[I.res]
                for e in list(st.cons):
                    if ai.mentions(e, lambda x: x == leaf[1]):
                        del st.cons[e]
                if A.reporting:
                    done.append(("path", I))
                    if st.ts[0] not in (("dir", "/", "name"), ("dir", "\\", "name")):
                        probs.append((I, "a candidate is not directory, separator and name (%s)" % " ".join(st.ts[0]), "parts"))
                st.ts = (("built",), I)
                return [(st, leaf)]
            elif n == "fix_filename":
                return [(st, args[0])]
            return None

        def acc(self, A, st, path):
            return A.iset(st, ("x", ("acc", path), 32))

        def back(self, A, st, src, dst):
            if not A.reporting:
                st.ts = ((), None)
                return
            done.append(("next", None))
            for I in self.lists.get(dst, ()):
                if I.res in self.cursors(A, st):
                    new = next(A.val(st, o) for o, b in zip(I.ops, I.x) if b == src)
                    ok = new[0] == "x" and new[1][0] == "ld" and self.is_node(A, st, ai.add(64, new[1][1], -NEXT)) and A.loops
                    if not ok:
                        probs.append((f.bmap[src].ins[-1], "the directories are not gone through one after the other", "step"))
            if st.ts[0] != ("built",):
                probs.append((f.bmap[src].ins[-1], "a directory is passed over untried", "skip"))
            elif ai.iinter(self.acc(A, st, A.val(st, ("v", st.ts[1].res))), ((0, 0),)):
                probs.append((f.bmap[src].ins[-1], "the search goes on after a file that can be read", "first"))

        def ret(self, A, st, I, v):
            if not A.reporting:
                return
            if A.iset(st, v) == ((0, 0),):
                ok = not ai.iinter(self.acc(A, st, P(0)), ((0, 0),)) or A.iset(st, ("x", ("abs", P(0)), 1)) == ((0, 0),)
                if not ok:
                    probs.append((I, "an absolute name that can be read is not found", "absolute"))
                done.append(("none", I))
                if st.ts[0] == ("built",) and ai.iinter(self.acc(A, st, A.val(st, ("v", st.ts[1].res))), ((0, 0),)):
                    probs.append((I, "a file that can be read is not found", "found"))
                # every directory was tried: the place in the list is its end
                ends = [A.iset(st, st.env[r]) == ((0, 0),) for r in st.env if self.place(A, st, r)]
                if not any(ends):
                    probs.append((I, "the search ends before the last directory", "last"))
                return
            done.append(("found", I))
            if v[0] == "x" and v[1][0] == "call" and v[1][3] in ("strdup", "strndup"):
                J = f.bmap[v[1][1]].ins[v[1][2]]
                if A.val(st, J.ops[0]) != P(0):
                    probs.append((I, "what is returned is not the name", "copy"))
                if self.acc(A, st, P(0)) != ((0, 0),):
                    probs.append((I, "an absolute name that cannot be read is used", "unreadable"))
                if A.iset(st, ("x", ("abs", P(0)), 1)) == ((0, 0),) or not ai.iinter(A.iset(st, ("x", ("abs", P(0)), 1)), ((0, 0),)) == ():
                    probs.append((I, "a relative name is used as it is", "relative"))
                return
            if not (st.ts[0] == ("built",) and v == A.val(st, ("v", st.ts[1].res)) and self.acc(A, st, v) == ((0, 0),)):
                probs.append((I, "what is returned is not a candidate that can be read", "candidate"))

        def place(self, A, st, r):
            d = f.defs.get(r)
            if d is None:
                return False
            if d.op == "load":
                a = st.env.get(r)
                if d.ops[0] == ("g", "include_dirs"):
                    return True
                b = a is not None and a[0] == "x" and a[1][0] == "ld" and self.is_node(A, st, ai.add(64, a[1][1], -NEXT))
                return bool(b)
            if d.op == "phi" and d.ty.k == "ptr":
                e = st.env.get(r)
                if e is None:
                    return False
                return self.is_node(A, st, e) or e[0] == "x" and e[1][0] == "ld" and self.is_node(A, st, ai.add(64, e[1][1], -NEXT))
            return False
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    for what, n in (("access", 2), ("path", 1), ("found", 2), ("none", 1), ("next", 1)):
        got = len([d for d in done if d[0] == what])
        R.check(got >= n if what != "access" else got >= 1, "search", fn_where(m, f), "full_path: " + what, "full_path never does: " + what, "full_path " + what)
    bad = {}
    for I, text, k in probs:
        bad.setdefault(k, (I, text))
    for k in ("mode", "parts", "step", "skip", "first", "absolute", "found", "last", "copy", "unreadable", "relative", "candidate"):
        if k in bad:
            R.bad("search", fn_where(m, f, bad[k][0]), bad[k][1], "full_path " + k)
        else:
            R.ok("search", "full_path: " + k)
    lists(m, R, DATA, NEXT)
    first_dir(m, R)
    users(m, R)
    R.need("search", 15)
    R.need("list", 5)
    R.need("first directory", 3)
    R.need("use", 6)


def lists(m, R, DATA, NEXT):
    for name in ("list_append", "list_prepend"):
        f = m.fn(name)
        outs = []

        class Ru(ai.Rule):
            retsplit = True

            def init(self, A, st):
                st.ts = (None,)

            def key(self, A, st):
                return st.ts

            def store(self, A, st, I, addr, val):
                b, o = ai.split(addr)
                if is_call(val, "malloc") and o == NEXT:
                    # the node it is hung to has no successor
                    node = [A.load_expr(st, ai.add(64, val, k), 8, 64) for k in (DATA, NEXT)]
                    st.ts = (("hung", self.next0(A, st, b), *node),)

            def next0(self, A, st, b):
                """The successor of node b is known to be none."""
                return A.iset(st, A.load_expr(st, ai.add(64, b, NEXT), 8, 64)) == ((0, 0),)

            def ret(self, A, st, I, v):
                if A.reporting:
                    new = [("x", ("call", J.bb.name, J.idx, "malloc"), 64) for J in f.instrs() if J.op == "call" and m.callee_name(J) == "malloc"]
                    for n in new:
                        if st.ts[0]:
                            outs.append((v, n, st.ts[0][2], st.ts[0][3], A.iset(st, P(0)), st.ts[0][:2], I))
                            continue
                        outs.append((v, n, A.load_expr(st, ai.add(64, n, DATA), 8, 64), A.load_expr(st, ai.add(64, n, NEXT), 8, 64), A.iset(st, P(0)), st.ts[0], I))
        ai.Analysis(m, f, Ru(), max_visits=2000).run()
        R.check(bool(outs), "list", fn_where(m, f), name + " returns", name + " never returns", name)
        for v, n, d, nx, S, hung, I in outs:
            w = fn_where(m, f, I)
            R.check(d == P(1), "list", w, "%s keeps the data it is given" % name, "%s does not keep the data it is given" % name, name + " data")
            if name == "list_prepend":
                R.check(v == n and nx == P(0), "list", w, "list_prepend puts the new node before the list", "list_prepend does not put the new node first", "list_prepend order")
            elif S == ((0, 0),):
                R.check(v == n and nx == C(0), "list", w, "list_append to nothing is the new node", "list_append to nothing is not the new node", "list_append empty")
            else:
                R.check(v == P(0) and nx == C(0) and hung == ("hung", True), "list", w, "list_append hangs the new node to the last one",
                        "list_append does not hang the new node to the last one", "list_append order")


def first_dir(m, R):
    """The directory searched first."""
    f = m.fn("run_assembly")
    seen, order = [], []

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = (None, False)

        def key(self, A, st):
            return st.ts

        def call(self, A, st, I, n, args):
            if n == "is_abs_path":
                A.default_call(st, I, n, args)
                return [(st, ("x", ("abs", args[0]), 1))]
            if n in ("strcpy", "strncpy", "snprintf", "getcwd", "strdup", "strndup", "__strcpy_chk") and len(args) > 1:
                src = args[1]
                if src[0] == "x" and src[1][0] == "ld" and src[1][1] == G("curr_input_file"):
                    st.ts = (("input", args[0]), st.ts[1])
            if n == "getcwd":
                st.ts = (("cwd", args[0]), st.ts[1])
            if n in ("list_prepend", "list_append") and args[0][0] == "x" and args[0][1][0] == "ld" and args[0][1][1] == G("include_dirs"):
                absy = [S for e, S in st.cons.items() if e[0] == "x" and e[1][0] == "abs"]
                if A.reporting:
                    seen.append((n, st.ts[0], absy[0] if absy else None, args[1], I))
                st.ts = (st.ts[0], True)
            if n == "run_first_pass" and A.reporting:
                order.append((st.ts[1], I))
            return None
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    R.check(bool(order) and all(o for o, I in order), "first directory", fn_where(m, f), "it is registered before the source is read",
            "the directory of the input file is not registered before the source is read", "before")
    R.check(bool(seen) and all(n == "list_prepend" for n, s, a, x, I in seen), "first directory", fn_where(m, f), "it comes before those given with -I",
            "the directory of the input file does not come before those given with -I", "front")
    for g in m.own:
        for I in g.instrs() if g is not f else ():
            n = m.callee_name(I) if I.op == "call" else None
            if n not in ("list_append", "list_prepend", "list_insert") or not I.ops or I.ops[0][0] != "v":
                continue
            d = g.defs.get(I.ops[0][1])
            if d is not None and d.op == "load" and d.ops[0] == ("g", "include_dirs"):
                R.check(n == "list_append", "given order", fn_where(m, g, I), "a directory given with -I comes after those given before it",
                        "a directory given with -I does not come after those given before it", "%s given order" % g.name)
    for n, src, S, x, I in seen:
        if src and src[0] == "input":
            R.check(S is not None and not ai.iinter(S, ((0, 0),)), "first directory", fn_where(m, f, I), "an absolute input file gives its own directory",
                    "the path of a relative input file is used as a directory", "absolute")
        elif src and src[0] == "cwd":
            R.check(S == ((0, 0),), "first directory", fn_where(m, f, I), "a relative input file gives the working directory",
                    "the working directory is used although the input file has a directory", "relative")
        else:
            R.bad("first directory", fn_where(m, f, I), "the first directory is neither the input file's nor the working directory", "neither")


def users(m, R):
    """Every use of full_path: the file read is the one found; nothing found is reported and nothing read."""
    from util import callers
    for f, I0 in callers(m, "full_path"):
        outs, opened = [], []

        class Ru(ai.Rule):
            retsplit = True

            def init(self, A, st):
                st.ts = (None, False, False)

            def key(self, A, st):
                return st.ts

            def call(self, A, st, I, n, args):
                if n == "full_path":
                    A.default_call(st, I, n, args)
                    v = st.env[I.res]
                    out = []
                    s2 = st.copy()
                    if A.constrain(s2, v, ((0, 0),)):
                        s2.ts = ("none", False, False)
                        out.append((s2, v))
                    if A.constrain(st, v, ai.icompl(((0, 0),), ai.itop(64))):
                        st.ts = ("found", False, False)
                        out.append((st, v))
                    return out
                if n in ("SetLastSPASMError", "show_error", "show_fatal_error"):
                    st.ts = (st.ts[0], True, st.ts[2])
                elif n in ("fopen", "fopen64", "get_file_contents"):
                    if A.reporting:
                        opened.append((args[0], I, st.ts[0], n))
                    st.ts = (st.ts[0], st.ts[1], True)
                elif n in ("run_first_pass", "write_out", "handle_bitmap") and st.ts[0] == "none":
                    st.ts = ("none", st.ts[1], True)
                return None

            def ret(self, A, st, I, v):
                if A.reporting:
                    outs.append((st.ts, I))
        ai.Analysis(m, f, Ru(), max_visits=4000).run()
        none = [t for t in outs if t[0][0] == "none"]
        R.check(bool(none) and all(t[1] and not t[2] for t, I in none), "use", fn_where(m, f, I0), "%s reports a name found nowhere" % f.name,
                "%s does not report a name found nowhere, or reads something for it" % f.name, f.name + " none")
        R.check(bool(opened), "use", fn_where(m, f, I0), "%s opens the file found" % f.name, "%s opens nothing" % f.name, f.name + " opens")
        for a, I, t, n in opened:
            R.check(is_call(a, "full_path") and t == "found", "use", fn_where(m, f, I), "%s reads the file found" % f.name,
                    "%s reads another file than the one found" % f.name, f.name + " file")


CHECKS = {
    "C03": (check_C03, "proof", ["access(R_OK) tells whether a file can be read", "the expanding buffer appends what it is given (see M01)"]),
    "C02": (check_C02, "proof", ["text that comes from the source files is printed as it is"]),
    "C01": (check_C01, "proof", ["strlen, strtok, strdup and the list functions behave as documented"]),
}
