"""Dispatch and control: P01 directive names, P02 conditionals, P03 nested sources, C01-C03 command line."""
import ai
import bits
from ai import C
from ir import AnalysisBroken
from util import *
from rules_data import dispatch, string_table
from rules_diag import own_cells, macros
from rules_expr import Nest, call_graph, components, SOURCE, STRUCTURAL, LIM

DIRS = ("db", "dw", "dl", "org", "fill", "echo")
PREOPS = ("define", "include", "if", "endif", "macro")
DOC_DIRS = ("db dw end org byte word fill block addinstr echo error list nolist equ show option seek assume dl long").split()
DOC_PREOPS = ("define include if ifdef ifndef else elif endif undef undefine comment endcomment macro endmacro import defcont "
              "region endregion").split()
COMPARE = ("strcasecmp",)


def codes(m):
    return {v & 0xFFFFFFFF: k for k, v in macros(m).items() if k.startswith("SPASM_")}


def cstr(m, a):
    b, o = ai.split(a)
    if b[0] == "g":
        s = m.cstring(("g", b[1]))
        if s is not None:
            return s[o:].decode("latin-1")
    return None


class Case(ai.Rule):
    """The dispatcher with the table index pinned to one name; collects the effects of the case."""
    retsplit = True

    def __init__(self, m, f, sw, index, code):
        self.m, self.f, self.sw, self.index, self.code = m, f, sw, index, code
        self.events = {}        # event -> where
        self.rets = []          # event sets of the exits
        self.heap = {}

    def init(self, A, st):
        st.ts = (0, frozenset())

    def edge(self, A, st, src, dst):
        if src == self.sw.bb.name:
            if not A.constrain(st, A.val(st, self.sw.ops[0]), ((self.index, self.index),)):
                return False
            st.ts = (1, frozenset())
        return True

    def ev(self, A, st, I, *e):
        if st.ts[0] != 1:
            return
        st.ts = (1, st.ts[1] | {e})
        if A.reporting:
            self.events.setdefault(e, fn_where(self.m, self.f, I))

    def call(self, A, st, I, name, args):
        if name is None:
            return None
        m = self.m
        if name == "SetLastSPASMError" or name == "SetLastSPASMWarning":
            c = A.fold(st, args[0])
            self.ev(A, st, I, "raise", self.code.get(c[1] & 0xFFFFFFFF, "?") if c[0] == "c" else "?")
        elif name == "parse_emit_string":
            c = A.fold(st, args[1])
            self.ev(A, st, I, "emit", c[1] if c[0] == "c" else "?")
        elif name == "add_pass_two_output":
            c = A.fold(st, args[1])
            self.ev(A, st, I, "output", c[1] if c[0] == "c" else "?")
        elif name == "skip_until":
            self.ev(A, st, I, "skip", tuple(cstr(m, a) or "?" for a in args[3:]))
        elif name == "do_if":
            self.ev(A, st, I, "do_if")
            if A.reporting:
                self.cond(A, st, I, args)
        elif name.startswith("llvm.") or name in ("free", "strlen", "malloc"):
            return None
        else:
            self.ev(A, st, I, "call", name)
        return None

    def cond(self, A, st, I, args):
        pass

    def store(self, A, st, I, addr, val):
        b, o = ai.split(addr)
        if b[0] == "g":
            v = A.fold(st, val)
            self.ev(A, st, I, "set", b[1], v[1] if v[0] == "c" else "?")
        elif b[0] == "x" and b[1][0] == "ld":
            self.ev(A, st, I, "setin", b[1][1][1] if b[1][1][0] == "g" else "?")

    def ret(self, A, st, I, v):
        if st.ts[0] == 1 and A.reporting:
            self.rets.append((st.ts[1], fn_where(self.m, self.f, I)))


def case_effects(m, f, sw, index, code):
    r = Case(m, f, sw, index, code)
    ai.Analysis(m, f, r, max_visits=6000).run()
    return r


# ------------------------------------------------------------------ P01
def num_leaf(I):
    return ("x", ("num", I.bb.name, I.idx), 32)


class DCase(Case):
    """Directive case: operands become symbols so that what is stored can be compared with them."""

    def __init__(self, m, f, sw, index, code, name):
        Case.__init__(self, m, f, sw, index, code)
        self.name = name
        self.values = []        # (what, ok, where)

    def call(self, A, st, I, name, args):
        if name in ("parse_num", "parse_num_now") and st.ts[0] == 1:
            A.default_call(st, I, name, args)
            self.ev(A, st, I, "call", "parse_num")
            ok, bad = st.copy(), st.copy()
            out = []
            for s, r, v in ((ok, 1, num_leaf(I)), (bad, 0, C(0))):
                A.store_expr(s, args[1], 4, v, ("w", I.bb.name, I.idx))
                s.ts = (1, st.ts[1] | {("read" if r else "unread", I.idx)})
                out.append((s, C(r)))
            return out
        if name == "write_out" and st.ts[0] == 1 and A.reporting:
            v = A.fold(st, args[0])
            lo = ai.binop("and", 32, v, C(255))
            good = v[0] == "c" and v[1] == 0 or bits_low_num(A, st, v)
            self.values.append(("the bytes it writes are the low byte of its fill value (or zero)", good, fn_where(self.m, self.f, I)))
        return Case.call(self, A, st, I, name, args)

    def store(self, A, st, I, addr, val):
        Case.store(self, A, st, I, addr, val)
        if st.ts[0] != 1 or not A.reporting:
            return
        b, o = ai.split(addr)
        w = fn_where(self.m, self.f, I)
        v = A.fold(st, val)
        n = self.name
        if b == G("program_counter") and n == "org":
            self.values.append(("the location counter is set to the value of the operand", is_num(v), w))
            self.values.append(("a negative origin is refused", ai.subset(A.iset(st, v), ((0, (1 << 31) - 1),)), w))
        if b[0] == "x" and b[1][0] == "ld" and b[1][1] == G("last_label") and n == "equ":
            self.values.append(("the label gets the value of the operand", is_num(v) or has(st.ts[1], (("unread",),)), w))
        if b == G("adl_mode") and n == "assume":
            self.values.append(("ADL mode is set exactly when the operand is not zero", nonzero_of(A, st, v), w))
        if b == G("out_ptr") and n == "seek":
            pc = A.load_expr(st, G("program_counter"), 4, 32)
            self.values.append(("the output position moves as far as the location counter", moves_with(A, st, v, pc), w))
        if b == G("program_counter") and n == "seek":
            self.values.append(("the location counter is set to the value of the operand", is_num(v), w))


def is_num(v):
    return v[0] == "x" and v[1][0] == "num" or v == C(1) and False


def bits_low_num(A, st, v):
    if is_num(v):
        return True
    for e in ai.subexprs(v):
        if is_num(e):
            return bits.equal(v, e, 8)
    return False


def nonzero_of(A, st, v):
    """v is 1 exactly when the operand (or the constant default) is not 0."""
    if v[0] == "c":
        return v[1] in (1, -1)      # no value given: the mode is switched on
    leaves = [e for e in ai.subexprs(v) if is_num(e)]
    if len(leaves) != 1:
        return False
    l = leaves[0]
    for S, want in ((((0, 0),), 0), (((1, (1 << 31) - 1),), 1), (((-(1 << 31), -1),), 1)):
        s = st.copy()
        if not A.constrain(s, l, S):
            continue
        r = A.iset(s, v)
        if [x & 1 for a, b in r for x in {a, b}] != [want] * len([x for a, b in r for x in {a, b}]):
            return False
    return True


def moves_with(A, st, v, pc):
    """v == out_ptr + (num - pc), with the operations the width of an int or a pointer."""
    old = A.load_expr(st, G("out_ptr"), 8, 64)
    nums = [e for e in ai.subexprs(v) if is_num(e)]
    if len(nums) != 1:
        return False
    d = ai.binop("sub", 64, v, old)
    return bits.equal(d, ai.binop("sub", 32, nums[0], pc), 32)


def emits(k):
    return ("emit", k)


def has(events, pats):
    return any(any(ev[:len(p)] == p for p in pats) for ev in events)


RAISED = (("raise",), ("call", "show_error"), ("call", "show_fatal_error"))


def directive_spec(m):
    es, ot = m.enum("ES_BYTE"), m.enum("OUTPUT_ECHO")
    B, W, L = (("emit", es["ES_BYTE"]),), (("emit", es["ES_WORD"]),), (("emit", es["ES_LONG"]),)
    # name: (what it must be able to do, what every way through it must do: one of)
    S = {
        "db": (B, B), "byte": (B, B), "dw": (W, W), "word": (W, W), "dl": (L, L), "long": (L, L),
        "end": ((), None),
        "org": ((("set", "program_counter"), ("raise", "SPASM_ERR_INVALID_ADDRESS"), ("raise", "SPASM_ERR_VALUE_EXPECTED")),
                (("set", "program_counter"), ("unread",)) + RAISED),
        "fill": ((("call", "write_out"), ("set", "program_counter"), ("raise", "SPASM_ERR_SIZE_MUST_BE_POSITIVE"),
                  ("raise", "SPASM_WARN_TRUNCATING_8")), (("set", "program_counter"),) + RAISED),
        "addinstr": ((("set", "all_opcodes"), ("raise", "SPASM_ERR_INVALID_ADDINSTR")), None),
        "echo": ((("emit", es["ES_ECHO"]), ("output", ot["OUTPUT_ECHO"]), ("call", "fopen")),
                 (("emit", es["ES_ECHO"]), ("output", ot["OUTPUT_ECHO"])) + RAISED),
        "error": ((("raise", "SPASM_ERR_CUSTOM"),), (("raise", "SPASM_ERR_CUSTOM"),)),
        "list": ((("set", "listing_on", 1),), (("set", "listing_on", 1),)),
        "nolist": ((("set", "listing_on", 0),), (("set", "listing_on", 0),)),
        "equ": ((("setin", "last_label"), ("raise", "SPASM_ERR_EQUATE_MISSING_LABEL")),
                (("setin", "last_label"), ("unread",)) + RAISED),
        "show": ((("call", "show_define"), ("output", ot["OUTPUT_SHOW"])),
                 (("call", "show_define"), ("output", ot["OUTPUT_SHOW"]))),
        "option": ((("call", "add_define"), ("raise", "SPASM_ERR_INVALID_OPTION")), None),
        "seek": ((("set", "out_ptr"), ("set", "program_counter"), ("call", "show_fatal_error")),
                 (("set", "out_ptr"), ("unread",)) + RAISED),
        "assume": ((("set", "adl_mode"), ("raise", "SPASM_ERR_INVALID_OPTION")), (("set", "adl_mode"),) + RAISED),
    }
    S["block"] = S["fill"]
    # effects that belong to some names only
    X = {("emit", es["ES_BYTE"]): "db byte", ("emit", es["ES_WORD"]): "dw word", ("emit", es["ES_LONG"]): "dl long",
         ("emit", es["ES_ECHO"]): "echo", ("output", ot["OUTPUT_ECHO"]): "echo", ("output", ot["OUTPUT_SHOW"]): "show",
         ("set", "program_counter"): "org fill block seek", ("set", "out_ptr"): "seek", ("call", "write_out"): "fill block",
         ("set", "adl_mode"): "assume", ("set", "all_opcodes"): "addinstr", ("set", "listing_on", 1): "list",
         ("set", "listing_on", 0): "nolist", ("setin", "last_label"): "equ", ("call", "show_define"): "show",
         ("call", "add_define"): "option", ("call", "set_define"): "option", ("call", "fopen"): "echo",
         ("raise", "SPASM_ERR_CUSTOM"): "error", ("raise", "SPASM_ERR_INVALID_ADDINSTR"): "addinstr",
         ("raise", "SPASM_ERR_INVALID_OPTION"): "option assume", ("call", "remove_define"): "", ("call", "run_first_pass"): "",
         ("set", "mode"): "", ("set", "stats_datasize"): "fill block"}
    return S, X


def preop_spec(m):
    lvl = if_level(m)
    SK = lambda *w: (("skip", tuple("#" + x for x in w)),)
    one = lambda n: ((("call", n),), (("call", n),))
    S = {"define": one("handle_preop_define"), "include": one("handle_preop_include"), "import": one("handle_preop_import"),
         "if": ((("call", "handle_preop_if"), ("set", lvl)), (("call", "handle_preop_if"),)),
         "ifdef": ((("do_if",), ("call", "search_defines"), ("set", lvl)), (("do_if",),) + RAISED),
         "else": (SK("else", "elif", "endif") + (("raise", "SPASM_ERR_STRAY_PREOP"),), SK("else", "elif", "endif") + RAISED),
         "elif": (SK("endif") + (("raise", "SPASM_ERR_ELIF_WITHOUT_IF"),), SK("endif") + RAISED),
         "endif": ((("set", lvl), ("raise", "SPASM_ERR_STRAY_PREOP")), (("set", lvl),) + RAISED),
         "undef": ((("call", "remove_define"), ("raise", "SPASM_ERR_NAME_EXPECTED")), (("call", "remove_define"),) + RAISED),
         "comment": (SK("endcomment"), SK("endcomment")),
         "endcomment": ((), None), "endmacro": ((), None), "region": ((), None), "endregion": ((), None),
         "macro": (SK("endmacro") + (("call", "add_define"), ("call", "set_define"), ("call", "parse_arg_defs"),
                                     ("raise", "SPASM_ERR_NAME_EXPECTED")), None),
         "defcont": ((("call", "set_define"), ("raise", "SPASM_ERR_NO_PREVIOUS_DEFINE")),
                     (("call", "set_define"),) + RAISED)}
    S["ifndef"] = S["ifdef"]
    S["undefine"] = S["undef"]
    X = {("call", "handle_preop_define"): "define", ("call", "handle_preop_include"): "include",
         ("call", "handle_preop_import"): "import", ("call", "handle_preop_if"): "if", ("do_if",): "ifdef ifndef",
         ("set", lvl): "if ifdef ifndef endif", ("call", "remove_define"): "undef undefine",
         ("call", "add_define"): "macro", ("call", "set_define"): "macro defcont",
         ("raise", "SPASM_ERR_ELIF_WITHOUT_IF"): "elif", ("raise", "SPASM_ERR_STRAY_PREOP"): "else endif",
         SK("else", "elif", "endif")[0]: "else", SK("endif")[0]: "elif", SK("endcomment")[0]: "comment",
         SK("endmacro")[0]: "macro", ("set", "program_counter"): "", ("set", "out_ptr"): "", ("call", "run_first_pass"): "",
         ("call", "fopen"): "", ("set", "mode"): ""}
    return S, X


def if_level(m):
    """The counter of open conditionals: the integer global that #if's own case sets."""
    lv = getattr(m, "_iflevel", None)
    if lv is None:
        f, names, sw = dispatch(m, "handle_preop", PREOPS)
        r = Case(m, f, sw, names.index("if"), codes(m))
        ai.Analysis(m, f, r, max_visits=6000).run()
        c = {e[1] for e in r.events if e[0] == "set"}
        if len(c) != 1:
            raise AnalysisBroken("the level of open conditionals is not recognisable in handle_preop")
        m._iflevel = lv = c.pop()
    return lv


def check_P01(m, R):
    code = codes(m)
    for fn, hint, docs, spec in (("handle_directive", DIRS, DOC_DIRS, directive_spec), ("handle_preop", PREOPS, DOC_PREOPS, preop_spec)):
        f, names, sw = dispatch(m, fn, hint)
        S, X = spec(m)
        w = fn_where(m, f)
        for n in docs:
            R.check(n in names, "names", w, "%s is recognised" % n, "%s is not in the table of names" % n, fn + " " + n)
        for n in names:
            R.check(names.count(n) == 1, "names", w, "%s is listed once" % n, "%s is listed twice" % n, fn + " twice " + n)
        for i, n in enumerate(names):
            if n not in S:
                R.note("no documented action for " + n)
                continue
            r = DCase(m, f, sw, i, code, n)
            ai.Analysis(m, f, r, max_visits=6000).run()
            must, every = S[n]
            if not r.rets:
                R.bad("action", w, "%s never returns" % n, "%s %s returns" % (fn, n))
            for p in must:
                R.check(has(r.events, (p,)), "action", w, "%s can %s" % (n, show(m, code, p)),
                        "%s never does: %s" % (n, show(m, code, p)), "%s %s %s" % (fn, n, p))
            if every is not None:
                for evs, rw in r.rets:
                    R.check(has(evs, every), "every way", rw, "%s acts or reports" % n,
                            "a way through %s neither acts nor reports an error" % n, "%s %s" % (fn, n))
            else:
                R.ok("every way", n + ": no effect required on every way")
            for p, own in X.items():
                if n in own.split():
                    continue
                bad = [ww for e, ww in r.events.items() if e[:len(p)] == p]
                R.check(not bad, "other names", bad[0] if bad else w, "%s does not %s" % (n, show(m, code, p)),
                        "%s does what belongs to %s: %s" % (n, own or "no name", show(m, code, p)), "%s %s not %s" % (fn, n, p))
            if must == () and every is None:
                bad = [(e, ww) for e, ww in r.events.items() if e[0] in ("raise", "set", "setin", "emit", "output", "skip")]
                R.check(not bad, "other names", bad[0][1] if bad else w, n + " does nothing",
                        "%s has an effect: %s" % (n, bad and bad[0][0]), "%s %s nothing" % (fn, n))
            for what, ok, ww in r.values:
                R.check(ok, "value", ww, "%s: %s" % (n, what), "%s: it is not the case that %s" % (n, what), "%s %s %s" % (fn, n, what))
        match_rule(m, R, f, names, sw, code)
    builtin_rule(m, R)
    R.need("names", 70)
    R.need("action", 60)
    R.need("every way", 60)
    R.need("other names", 500)
    R.need("value", 8)
    R.need("match", 6)
    R.need("built-in", 4)


def show(m, code, p):
    k = p[0]
    if k == "emit":
        return "emit elements of type %d" % p[1]
    if k == "raise":
        return "report " + (p[1] if len(p) > 1 else "an error")
    if k == "set":
        return "set %s%s" % (p[1], " to %d" % p[2] if len(p) > 2 else "")
    if k == "setin":
        return "set the value of " + p[1]
    if k == "skip":
        return "skip to " + "/".join(p[1])
    if k == "output":
        return "queue output of type %d" % p[1]
    if k == "do_if":
        return "open a conditional"
    return "call " + p[1]


class MatchRule(ai.Rule):
    """Which comparison leads to the dispatch, and what happens when none does."""
    retsplit = True

    def __init__(self, m, f, sw, n, code):
        self.m, self.f, self.sw, self.n, self.code = m, f, sw, n, code
        self.hits, self.exits, self.sites = [], [], {}

    def init(self, A, st):
        st.ts = (0, None, False, frozenset())      # (dispatched, last comparison (result, table entry, name), matched)

    def call(self, A, st, I, name, args):
        d, last, ok, evs = st.ts
        if d:
            return None
        if name in ("strcasecmp", "strcmp", "strncasecmp", "strncmp", "_stricmp", "stricmp"):
            A.default_call(st, I, name, args)
            self.sites[(I.bb.name, I.idx)] = (I, name)
            st.ts = (d, (I.bb.name, I.idx), ok, evs)
            return [(st, st.env[I.res])]
        if name == "SetLastSPASMError":
            c = A.fold(st, args[0])
            st.ts = (d, last, ok, evs | {("raise", self.code.get(c[1] & 0xFFFFFFFF, "?") if c[0] == "c" else "?")})
        elif name == "handle_opcode_or_macro":
            at = ai.split(args[0])
            st.ts = (d, last, ok, evs | {("opcode", at[0] == P(0) and at[1] == -1)})
        return None

    def edge(self, A, st, src, dst):
        if src == self.sw.bb.name and not st.ts[0]:
            d, last, ok, evs = st.ts
            e = A.val(st, self.sw.ops[0])
            good = why = None
            if last is None:
                good, why = False, "no name was compared"
            else:
                J, fn = self.sites[last]
                res, x, y = A.val(st, ("v", J.res)), A.val(st, J.ops[0]), A.val(st, J.ops[1])
                if fn not in ("strcasecmp", "_stricmp", "stricmp"):
                    good, why = False, "names are compared with " + fn
                elif A.iset(st, res) != ((0, 0),):
                    good, why = False, "the last comparison need not have matched"
                else:
                    idx = [z for z in (x, y) if entry_at(self.m, A, st, z, e)]
                    good, why = bool(idx), "the entry that matched is not the one acted on"
            if A.reporting:
                self.hits.append((good, why))
            return False
        return True

    def ret(self, A, st, I, v):
        if A.reporting and not st.ts[0]:
            self.exits.append((st.ts[3], fn_where(self.m, self.f, I)))


def entry_at(m, A, st, z, idx):
    """z is table[idx]."""
    if not (z[0] == "x" and z[1][0] == "ld"):
        return False
    a = z[1][1]
    b, o = a, 0
    names = [s for s in ai.subexprs(a) if s[0] == "g"]
    if len(names) != 1:
        return False
    want = bits.linkey(ai.cast("sext", 64, idx, 32), 64)
    off = ai.binop("sub", 64, a, names[0])
    mul = ai.binop("mul", 64, ai.cast("sext", 64, idx, 32), C(8))
    return bits.linkey(off, 64) == bits.linkey(mul, 64) or A.fold(st, off) == A.fold(st, mul)


def match_rule(m, R, f, names, sw, code):
    r = MatchRule(m, f, sw, len(names), code)
    ai.Analysis(m, f, r, max_visits=6000).run()
    w = fn_where(m, f, sw)
    for good, why in r.hits:
        R.check(good, "match", w, "%s dispatches on the entry that equals the whole name, in any case" % f.name,
                "%s: %s" % (f.name, why), f.name + " dispatch")
    for evs, ww in r.exits:
        want = (("raise", "SPASM_ERR_UNKNOWN_PREOP"),) if f.name == "handle_preop" else (("opcode", True), ("raise",))
        R.check(has(evs, want), "match", ww, "a name that is not in the table is reported or handed on whole",
                "a name that is not in the table is neither reported nor handed on", f.name + " unknown")
    # the search starts at the first entry and skips none
    first = search_start(m, f)
    R.check(first == 0, "match", w, f.name + " starts the search with the first name", f.name + " starts the search at entry %s" % first,
            f.name + " start")


def search_start(m, f):
    """Constant initial value of the loop counter whose loop compares names, stepping by one."""
    A = ai.Analysis(m, f, ai.Rule(), max_visits=1)
    for h, body in A.loops.items():
        calls = [I for b in body for I in f.bmap[b].ins if I.op == "call" and m.callee_name(I) in ("strcasecmp", "_stricmp", "stricmp")]
        if not calls:
            continue
        used = set()

        def walk(v, d=0):
            if v[0] != "v" or d > 12:
                return
            J = f.defs.get(v[1])
            if J is None:
                return
            if J.op == "phi" and J.bb.name == h and J.ty.k == "i":
                used.add(J)
                return
            for o in J.ops:
                if isinstance(o, tuple):
                    walk(o, d + 1)
        for c in calls:
            for o in c.ops:
                if isinstance(o, tuple):
                    walk(o)
        if len(used) == 1:
            phi = next(iter(used))
            outs = [(v, p) for v, p in phi_in(phi)]
            init = [v for v, p in outs if p not in body]
            back = [v for v, p in outs if p in body]
            ok = all(step_one(f, v, phi.res) for v in back) and len(init) == 1 and init[0][0] in ("c", "i")
            return init[0][1] if ok else None
    return None


def phi_in(phi):
    return list(zip(phi.ops, phi.x)) if phi.x and not isinstance(phi.x[0], tuple) else [(v, b) for v, b in phi.x]


def step_one(f, v, r):
    d = f.defs.get(v[1]) if v[0] == "v" else None
    return d is not None and d.op == "add" and d.ops[0] == ("v", r) and d.ops[1][1] == 1


BUILTINS = {"buf": ("set cur_buf", lambda e: e == ("set", "cur_buf")),
            "clr": ("start an empty buffer", lambda e: e == ("call", "eb_init")),
            "wr": ("append to the buffer", lambda e: e[0] == "emit"),
            "run": ("assemble the buffer", lambda e: e == ("call", "run_first_pass"))}


def builtin_rule(m, R):
    f = m.fn("handle_opcode_or_macro")
    es = m.enum("ES_BYTE")
    seen = {}

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = ()      # (name, result leaf, length)

        def call(self, A, st, I, name, args):
            if name in ("strncasecmp", "strcasecmp", "strncmp", "strcmp"):
                s = next((x for x in (cstr(m, a) for a in args[:2]) if x in BUILTINS), None)
                A.default_call(st, I, name, args)
                if s:
                    st.ts = (s, st.env[I.res], args[2] if len(args) > 2 else None, name)
                return [(st, st.env[I.res])]
            if name == "strlen":
                s = cstr(m, args[0])
                if s is not None:
                    return [(st, C(len(s)))]
            ev = None
            if name == "parse_emit_string":
                c = A.fold(st, args[1])
                ev = ("emit", c[1] if c[0] == "c" else None)
            elif name in ("run_first_pass", "eb_init"):
                ev = ("call", name)
            if ev:
                self.hit(A, st, I, ev)
            return None

        def store(self, A, st, I, addr, val):
            b, o = ai.split(addr)
            if b[0] == "g" and "cur_buf" in b[1]:
                self.hit(A, st, I, ("set", "cur_buf"))

        def hit(self, A, st, I, ev):
            if not A.reporting:
                return
            n = st.ts[0] if st.ts else None
            good, why = True, ""
            if n is None:
                good, why = False, "reached without the name of a built-in"
            else:
                s, res, ln, cmp = st.ts
                if A.iset(st, res) != ((0, 0),):
                    good, why = False, "reached although the name differs"
                elif "case" not in cmp:
                    good, why = False, "the name is compared with regard to letter case"
                elif ln is not None:
                    L = A.iset(st, ln)
                    tok = [x for x in st.env.values() if x[0] == "x" and x[1][0] == "call" and x[1][3] == "skip_to_name_end"]
                    whole = any(A.iset(st, ai.binop("sub", 64, t, P(0))) == ((len(s), len(s)),) for t in set(tok))
                    good = L == ((len(s), len(s)),) and whole
                    why = "the whole name is not compared (length %s of %d)" % (setstr(L), len(s))
            seen.setdefault((n, ev), []).append((good, why, fn_where(m, f, I)))
    ai.Analysis(m, f, Ru(), max_visits=6000).run()
    for n, (what, pred) in BUILTINS.items():
        hits = [(g, wy, w) for (k, ev), l in seen.items() for g, wy, w in l if k == n and pred(ev)]
        R.check(bool(hits), "built-in", fn_where(m, f), "%s() can %s" % (n, what), "%s() never does: %s" % (n, what), n + " action")
        for g, wy, w in hits:
            R.check(g, "built-in", w, "%s is matched by its whole name" % n, "%s: %s" % (n, wy), n + " match")
    for (k, ev), l in seen.items():
        if ev in (("set", "cur_buf"), ("call", "run_first_pass")) or ev[0] == "emit":
            own = [n for n, (wt, pr) in BUILTINS.items() if pr(ev)]
            if ev == ("call", "eb_init"):
                own = ["clr", "wr"]
            R.check(k in own, "built-in", l[0][2], "%s belongs to %s" % (ev, own), "%s is done for %s" % (ev, k), "%s for %s" % (ev, k))


# ------------------------------------------------------------------ P02
class LevelCase(ai.Rule):
    """One preprocessor name: what its case does to the number of open conditionals."""
    retsplit = True

    def __init__(self, m, f, sw, index, code, lvl):
        self.m, self.f, self.sw, self.index, self.code, self.lvl = m, f, sw, index, code, lvl
        self.rets, self.before, self.conds, self.skips = [], [], [], []

    def init(self, A, st):
        st.ts = (0, frozenset())

    def edge(self, A, st, src, dst):
        if src == self.sw.bb.name:
            if not A.constrain(st, A.val(st, self.sw.ops[0]), ((self.index, self.index),)):
                return False
            st.ts = (1, frozenset())
        return True

    def entry(self):
        return ("x", ("ld", G(self.lvl), 4, "entry"), 32)

    def delta(self, A, st):
        v = gval(A, st, self.lvl)
        d = ai.binop("sub", 32, v, self.entry())
        d = A.fold(st, d)
        return d[1] if d[0] == "c" else None

    def call(self, A, st, I, name, args):
        if not st.ts[0]:
            return None
        if name == "SetLastSPASMError":
            c = A.fold(st, args[0])
            st.ts = (1, st.ts[1] | {self.code.get(c[1] & 0xFFFFFFFF, "?") if c[0] == "c" else "?"})
        elif name in ("do_if", "handle_preop_if", "skip_until"):
            st.ts = (1, st.ts[1] | {name})
            if A.reporting:
                self.before.append((name, self.delta(A, st), A.iset(st, self.entry()), fn_where(self.m, self.f, I)))
                if name == "do_if":
                    self.conds.append((A.fold(st, args[1]), st.copy(), A, fn_where(self.m, self.f, I)))
        if name is None or name.startswith("llvm."):
            return None
        # nested source does what its own lines do: only what this line does to the level is judged here
        v = gval(A, st, self.lvl)
        A.default_call(st, I, name, args)
        A.store_expr(st, G(self.lvl), 4, v, ("w", I.bb.name, I.idx))
        if name == "search_defines":
            out = []
            for k in (0, 1):
                s = st.copy()
                if A.constrain(s, s.env[I.res], ((0, 0),) if not k else ((1, (1 << 63) - 1), (-(1 << 63), -1))):
                    s.ts = (1, st.ts[1] | {("found", k)})
                    out.append((s, s.env[I.res]))
            return out
        return [(st, st.env[I.res] if I.res is not None else None)]

    def ret(self, A, st, I, v):
        if A.reporting and st.ts[0]:
            self.rets.append((st.ts[1], self.delta(A, st), A.iset(st, self.entry()), fn_where(self.m, self.f, I)))


POS = ((1, (1 << 31) - 1),)
NONZERO = ((-(1 << 31), -1), (1, (1 << 31) - 1))


def check_P02(m, R):
    code = codes(m)
    f, names, sw = dispatch(m, "handle_preop", PREOPS)
    lvl = if_level(m)
    mr = own_cells(m, lvl)
    w = fn_where(m, f)
    for i, n in enumerate(names):
        if names.index(n) != i:
            continue
        r = LevelCase(m, f, sw, i, code, lvl)
        ai.Analysis(m, f, r, modref=mr, max_visits=6000).run()
        for evs, d, E, ww in r.rets:
            if n in ("if", "ifdef", "ifndef"):
                early = bool(evs & {"SPASM_ERR_EXPRESSION_EXPECTED"}) and n != "if" and not evs & {"do_if", "handle_preop_if"}
                good = d == 1 or early and d == 0
                text = "#%s opens one level (or reports a missing name)" % n
            elif n == "endif":
                good = d == -1 and ai.subset(E, POS) or d == 0 and "SPASM_ERR_STRAY_PREOP" in evs and not ai.iinter(E, POS)
                text = "#endif closes one level, or reports that none is open"
            else:
                good = d == 0
                text = "#%s leaves the level" % n
            if n == "else":
                stray = not ai.iinter(E, NONZERO)
                good = good and (("SPASM_ERR_STRAY_PREOP" in evs) == stray)
                text += ", and is reported exactly where no conditional is open"
            if n == "elif":
                stray = not ai.iinter(E, NONZERO)
                good = good and (("SPASM_ERR_ELIF_WITHOUT_IF" in evs) == stray)
                text += ", and is reported exactly where no conditional is open"
            R.check(good, "level", ww, text, "a way through #%s changes the level by %s with %s open, reporting %s" % (
                n, d, setstr(E), sorted(str(x) for x in evs if isinstance(x, str) and x.startswith("SPASM")) or "nothing"), n)
        for k, d, E, ww in r.before:
            if k in ("do_if", "handle_preop_if"):
                R.check(d == 1, "level", ww, "#%s has opened its level before the branch is chosen" % n,
                        "#%s chooses its branch with the level at %s" % (n, d), n + " before")
        for c, st, A, ww in r.conds:
            found = 1 if ("found", 1) in st.ts[1] else 0
            # without a definition the name is undefined; with one it is defined exactly when it has a value
            S = A.iset(st, c)
            if not found:
                want = 0 if n == "ifdef" else 1
                R.check(S == ((want, want),), "condition", ww, "#%s of an unknown name is %s" % (n, bool(want)),
                        "#%s of an unknown name takes %s as its condition" % (n, setstr(S)), n + " unknown")
            else:
                R.check(value_decides(m, A, st, c, n == "ifdef"), "condition", ww, "#%s of a known name depends on its having a value" % n,
                        "#%s of a known name does not follow from its having a value: %s" % (n, bits.show(c)), n + " known")
    for g in m.own:
        for I in g.instrs():
            if I.op == "store" and I.ops[1] == ("g", lvl) and g is not f:
                R.check(I.ops[0] == ("c", 0), "owner", fn_where(m, g, I), "%s resets the level" % g.name,
                        "%s changes the number of open conditionals" % g.name, g.name)
    R.ok("owner", "no other function than handle_preop changes the level")
    if_rule(m, R)
    branch_rule(m, R)
    skip_rule(m, R)
    word_rule(m, R)
    R.need("level", 18)
    R.need("condition", 6)
    R.need("branch", 8)
    R.need("skip", 10)


def value_decides(m, A, st, c, positive):
    off = m.struct_fields("define")["contents"][0] if "contents" in m.struct_fields("define") else None
    if c[0] == "c":
        # the path has already been split on the value
        loads = [(e, S) for e, S in st.cons.items() if e[0] == "x" and e[1][0] == "ld" and is_contents(e, off)]
        if not loads:
            return False
        z = all(S == ((0, 0),) for _, S in loads)
        nz = all(not any(a <= 0 <= b for a, b in S) for _, S in loads)
        if not (z or nz):
            return False
        return bool(c[1]) == (nz == positive)
    for z in (True, False):
        loads = {e for e in ai.subexprs(c) if e[0] == "x" and e[1][0] == "ld" and is_contents(e, off)}
        if len(loads) != 1:
            return False
        s = st.copy()
        l = next(iter(loads))
        if not A.constrain(s, l, ((0, 0),) if z else ((1, (1 << 63) - 1), (-(1 << 63), -1))):
            continue
        S = A.iset(s, c)
        want = (not z) == positive
        if want and any(a <= 0 <= b for a, b in S) or not want and S != ((0, 0),):
            return False
    return True


def is_contents(e, off):
    b, o = ai.split(e[1][1])
    return o == off and b[0] == "x" and b[1][0] == "call" and b[1][3] == "search_defines"


def if_rule(m, R):
    """#if hands the value of its expression to the choice of branch."""
    f = m.fn("handle_preop_if")
    got = []

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            st.ts = ()

        def call(self, A, st, I, name, args):
            if name in ("parse_num", "parse_num_now"):
                A.default_call(st, I, name, args)
                out = []
                for r, v in ((1, num_leaf(I)), (0, C(0))):
                    s = st.copy()
                    A.store_expr(s, args[1], 4, v, ("w", I.bb.name, I.idx))
                    s.ts = ("value", r)
                    out.append((s, C(r)))
                return out
            if name == "SetLastSPASMError":
                st.ts = ("raised",)
            if name == "do_if":
                if A.reporting:
                    v = A.fold(st, args[1])
                    got.append((same_truth(A, st, v), fn_where(m, f, I), v))
                st.ts = ("done",)
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                R.check(st.ts in (("done",), ("raised",)), "condition", fn_where(m, f, I), "every #if chooses a branch or reports",
                        "a way through #if neither chooses a branch nor reports", "if every way")
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    R.check(bool(got), "condition", fn_where(m, f), "#if chooses a branch", "#if never chooses a branch", "if never")
    for ok, w, v in got:
        R.check(ok, "condition", w, "#if takes its branch exactly when the value is not zero (0 if it has none)",
                "#if does not decide by the value of its expression: " + bits.show(v), "if value")


def same_truth(A, st, v):
    if st.ts == ("value", 0):
        return v == C(0)
    nums = {e for e in ai.subexprs(v) if is_num(e)}
    if len(nums) != 1:
        return False
    n = next(iter(nums))
    for S, t in ((((0, 0),), False), (POS, True), (((-(1 << 31), -1),), True)):
        s = st.copy()
        if not A.constrain(s, n, S):
            return False
        r = A.iset(s, v)
        if (t and any(a <= 0 <= b for a, b in r)) or (not t and r != ((0, 0),)):
            return False
    return True


ALT = ("#else", "#elif", "#endif")


def branch_rule(m, R):
    """A true condition goes on right behind it; a false one skips to the first alternative of its own level and goes on there."""
    f = m.fn("do_if")
    ci = next((i for i, (n, t) in enumerate(f.params) if t.k == "i"), 1)

    for truth, S in ((True, POS), (True, ((-(1 << 31), -1),)), (False, ((0, 0),))):
        rets = []

        class Ru(ai.Rule):
            retsplit = True

            def init(self, A, st):
                st.ts = frozenset()
                A.constrain(st, P(ci, 32), S)

            def call(self, A, st, I, name, args):
                if name == "skip_until":
                    words = tuple(cstr(m, a) or "?" for a in args[3:])
                    c = A.fold(st, args[1])
                    ln = "probe" if c == C(0) else "move" if args[1] == G("line_num") else "?"
                    st.ts = st.ts | {(ln, words, args[0] == P(0), args[2] == C(len(words)))}
                    A.default_call(st, I, name, args)
                    l = ("x", ("skip", ln, words), 64)
                    return [(st, l)]
                if name == "line_has_word":
                    wd = cstr(m, args[1])
                    out = []
                    for v in (0, 1):
                        s = st.copy()
                        s.ts = st.ts | {("at", wd, v, args[0] == ("x", ("skip", "move", ALT), 64), args[2] == C(len(wd or "")))}
                        out.append((s, C(v)))
                    return out
                if name in ("next_code_line", "handle_preop_if", "skip_whitespace"):
                    A.default_call(st, I, name, args)
                    return [(st, ("x", ("ap", name, args[0]), 64))]
                return None

            def store(self, A, st, I, addr, val):
                if ai.split(addr)[0][0] == "g":
                    st.ts = st.ts | {("store", ai.split(addr)[0][1])}

            def ret(self, A, st, I, v):
                if A.reporting:
                    rets.append((st.ts, v, fn_where(m, f, I)))
        ai.Analysis(m, f, Ru(), max_visits=4000).run()
        nm = "true" if truth else "false"
        R.check(bool(rets), "branch", fn_where(m, f), "a %s condition returns" % nm, "a %s condition never returns" % nm, nm + " returns")
        for ts, v, w in rets:
            probe = ("probe", ("#endif",), True, True) in ts
            R.check(probe, "branch", w, "a missing #endif is looked for (%s condition)" % nm,
                    "a %s condition does not look for its #endif" % nm, nm + " probe")
            moves = [t for t in ts if t[0] in ("move", "?")]
            if truth:
                good = v == P(0) and not moves and not any(t[0] == "store" for t in ts)
                R.check(good, "branch", w, "a true condition goes on behind it", "a true condition skips text", "true")
                continue
            skip = ("x", ("skip", "move", ALT), 64)
            seen = {t[1]: t[2] for t in ts if t[0] == "at" and t[3] and t[4]}
            good = moves == [("move", ALT, True, True)]
            R.check(good, "branch", w, "a false condition skips to #else, #elif or #endif",
                    "a false condition skips otherwise: %s" % (moves,), "false skip")
            if seen.get("#else"):
                want = ("x", ("ap", "next_code_line", skip), 64)
                good = ai.split(v) == (want, -1)
                why = "#else"
            elif seen.get("#elif"):
                good = v == ("x", ("ap", "handle_preop_if", ai.add(64, ("x", ("ap", "skip_whitespace", skip), 64), 5)), 64)
                why = "#elif"
            else:
                good = v == skip and seen.get("#else") == 0 and seen.get("#elif") == 0
                why = "#endif"
            R.check(good, "branch", w, "a false condition goes on at the %s" % why,
                    "at the %s a false condition goes on at the wrong place" % why, "false " + why)


def skip_rule(m, R):
    """skip_until steps over complete nested conditionals, stops only at one of its words at its own level, keeps the line number
    in step, and reports the end of the text."""
    f = m.fn("skip_until")
    A0 = ai.Analysis(m, f, ai.Rule(), max_visits=1)
    calls = [I for I in f.instrs() if I.op == "call" and m.callee_name(I) == "line_has_word"]
    w = fn_where(m, f)
    # the level: the loop variable that is both raised and lowered by one
    webs = phi_webs(f)
    outer = max(A0.loops, key=lambda h: len(A0.loops[h]), default=None)
    lv = None
    for web in webs:
        down = any(J.op in ("add", "sub") and J.res in web and J.ops[1][0] == "c" and (J.ops[1][1] < 0) == (J.op == "add")
                   for J in f.instrs())
        if down and outer and any(J.op == "phi" and J.res in web for J in f.bmap[outer].ins):
            lv = web
    cnt = set()
    for J in f.instrs():
        if J.op == "store" and J.ops[0][0] == "v" and J.ops[1] == ("v", f.params[1][0]):
            cnt |= next((s for s in webs if J.ops[0][1] in s), {J.ops[0][1]})
    if lv is None and outer:
        # raised but never lowered
        up = [web for web in webs if not web & cnt and any(J.op == "add" and J.res in web and J.ops[1] == ("c", 1) for J in f.instrs())
              and any(J.op == "phi" and J.res in web and J.ty.k == "i" for J in f.bmap[outer].ins)]
        if len(up) == 1:
            lv = up[0]
    if lv is None or not calls:
        raise AnalysisBroken("the nesting level of skip_until is not recognisable")
    heads = [h for h, body in A0.loops.items() if any(c.bb.name in body for c in calls)]
    out = []
    line = []

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            st.ts = (None, None)        # (nested word matched in this round, terminator matched)

        def level(self, A, st, h):
            for I in f.bmap[h].ins:
                if I.op == "phi" and I.res in lv:
                    return st.env.get(I.res)
            return None

        def inner(self, A, blk):
            c = [h for h in heads if blk in A.loops[h]]
            c = [h for h in c if self.phi(h)]
            return min(c, key=lambda h: len(A.loops[h])) if c else None

        def phi(self, h):
            return next((I for I in f.bmap[h].ins if I.op == "phi" and I.res in lv), None)

        def cur(self, A, st):
            """the level in this round: the innermost head's value"""
            return self.level(A, st, self.h)

        def key(self, A, st):
            return st.ts

        def call(self, A, st, I, name, args):
            if name == "line_has_word":
                wd = cstr(m, args[1])
                self.h = self.inner(A, I.bb.name)
                lvl = self.level(A, st, self.h)
                S = A.iset(st, lvl) if lvl else None
                outs = []
                if wd is not None and wd.upper() in ("#IF", "#ENDIF"):
                    n = A.fold(st, args[2])
                    if A.reporting:
                        out.append((n == C(len(wd)), "the whole of %s is compared" % wd, I, "length " + wd))
                        if wd.upper() == "#ENDIF":
                            out.append((S is not None and ai.subset(S, POS), "only the #endif of a nested conditional is counted", I, "endif level"))
                    for v in (0, 1):
                        s = st.copy()
                        if v:
                            s.ts = (wd.upper(), st.ts[1])
                        outs.append((s, C(v)))
                    return outs
                if A.reporting:
                    out.append((S == ((0, 0),), "its words count only at its own level", I, "word level"))
                    out.append((st.ts[0] is None, "its words are not looked for on the line of a nested one", I, "word nested"))
                A.default_call(st, I, name, args)
                for v in (0, 1):
                    s = st.copy()
                    if v:
                        s.ts = (st.ts[0], ("word", args[0]))
                    outs.append((s, C(v)))
                return outs
            if name == "SetLastSPASMError":
                st.ts = (st.ts[0], ("raised",))
            return None

        def back(self, A, st, src, dst):
            if dst not in heads:
                return
            if dst == outer and A.reporting:
                for J in f.bmap[dst].ins:
                    if J.op == "phi" and J.res in cnt:
                        new = next(A.val(st, v) for v, b in zip(J.ops, J.x) if b == src)
                        out.append((A.fold(st, ai.binop("sub", 32, new, st.env[J.res])) == C(1), "the line number grows by one per line skipped",
                                    A.fn.bmap[src].ins[-1], "line step"))
            p = self.phi(dst)
            if p is None:
                return
            h = dst
            old = st.env.get(p.res)
            new = None
            for v, b in zip(p.ops, p.x):
                if b == src:
                    new = A.val(st, v)
            inner = min((x for x in heads if self.phi(x)), key=lambda x: len(A.loops[x]))
            if dst != inner:
                oldi = None
                st_ = self.phi(inner)
                old = st.env.get(st_.res)
            if A.reporting and old is not None and new is not None:
                d = A.fold(st, ai.binop("sub", 32, new, old))
                d = d[1] if d[0] == "c" else None
                want = {"#IF": 1, "#ENDIF": -1}.get(st.ts[0], 0)
                out.append((d == want, "a line with %s changes the level by %d" % (st.ts[0] or "neither #if nor #endif", want),
                            A.fn.bmap[src].ins[-1], "delta %s" % st.ts[0]))
            st.ts = (None, None)

        def edge(self, A, st, src, dst):
            return True

        def store(self, A, st, I, addr, val):
            if addr == P(1):
                line.append((I, I.ops[0]))

        def ret(self, A, st, I, v):
            if A.reporting:
                t = st.ts[1]
                if t and t[0] == "word":
                    out.append((v == t[1], "it stops at the line of the word found", I, "where"))
                elif t and t[0] == "raised":
                    out.append((True, "the end of the text is reported", I, "end"))
                else:
                    z = A.iset(st, P(2, 32)) == ((0, 0),)
                    out.append((z, "it ends only at one of its words or with a report", I, "end"))
    ai.Analysis(m, f, Ru(), max_visits=6000).run()
    for ok, text, I, k in out:
        R.check(ok, "skip", fn_where(m, f, I), text, "skip_until: it is not the case that " + text, k)
    # where the text is taken up again the line number goes with it
    for g, I in callers(m, "skip_until"):
        used = I.res is not None and any(("v", I.res) in J.ops for J in g.instrs() if not (J.op == "call" and (m.callee_name(J) or "").startswith("llvm.")))
        R.check(not used or I.ops[1][0] != "null", "skip", fn_where(m, g, I), "%s goes on after skipped lines with their number" % g.name if used else
                "%s only looks ahead" % g.name, "%s goes on after skipped lines without counting them" % g.name, "uncounted %s" % g.name)
    # the level starts at zero
    for h in heads:
        p = next((I for I in f.bmap[h].ins if I.op == "phi" and I.res in lv), None)
        if p is not None:
            for v, b in zip(p.ops, p.x):
                if b not in A0.loops[h] and not (v[0] == "v" and v[1] in lv):
                    R.check(v == ("c", 0), "skip", w, "the level starts at zero", "the level starts at %s" % (v,), "start")
    # the line number written back: line_num at the start, one more per line of text
    for I, v in {(I, v) for I, v in line}:
        ok = v[0] == "v" and line_counter(m, f, A0, v[1])
        R.check(ok, "skip", fn_where(m, f, I), "the line number grows by one per line skipped", "the line number written back does not count the lines skipped",
                "line")
    R.check(bool(line), "skip", w, "the line number is written back", "the line number is never written back", "line none")


def phi_webs(f):
    """Registers connected by phis and by additions of constants."""
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for I in f.instrs():
        if I.ty is None or I.res is None:
            continue
        if I.op == "phi":
            for o in I.ops:
                if o[0] == "v":
                    par[find(I.res)] = find(o[1])
        elif I.op in ("add", "sub") and I.ops[0][0] == "v":
            par[find(I.res)] = find(I.ops[0][1])
    out = {}
    for x in list(par):
        out.setdefault(find(x), set()).add(x)
    return [s for s in out.values() if len(s) > 1]


def line_counter(m, f, A0, reg):
    web = next((s for s in phi_webs(f) if reg in s), {reg})
    incs = [J for J in f.instrs() if J.op in ("add", "sub") and J.res in web]
    if len(incs) != 1 or incs[0].op != "add" or incs[0].ops[1] != ("c", 1):
        return False
    # the addition is done once per line: in the outer loop, not in an inner one
    lines = [I for I in f.instrs() if I.op == "call" and m.callee_name(I) == "skip_to_next_line"]
    if len(lines) != 1:
        return False
    depth = lambda b: sorted(h for h, body in A0.loops.items() if b in body)
    if depth(incs[0].bb.name) != depth(lines[0].bb.name):
        return False
    outer = {x for x in web}
    src = set()
    for J in f.instrs():
        if J.op == "phi" and J.res in web:
            for o in J.ops:
                if not (o[0] == "v" and o[1] in web):
                    src.add(o)
    for J in f.instrs():
        if J.res in web and J.op == "load":
            src.add(("v", J.res))
    def is_ln(o):
        J = f.defs.get(o[1]) if o[0] == "v" else None
        return J is not None and J.op == "load" and J.ops[0] == ("g", "line_num")
    src = {o for o in src}
    return bool(src) and all(is_ln(o) for o in src)


def word_rule(m, R):
    """line_has_word compares exactly the first word_len characters behind the blanks, in any case."""
    f = m.fn("line_has_word")
    got = []

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            st.ts = ()

        def call(self, A, st, I, name, args):
            if name == "skip_whitespace":
                A.default_call(st, I, name, args)
                return [(st, ("x", ("ap", name, args[0]), 64))]
            if name in ("strncasecmp", "strncmp", "strnlen", "_strnicmp"):
                A.default_call(st, I, name, args)
                st.ts = st.ts + ((name, tuple(args), st.env[I.res]),)
                return [(st, st.env[I.res])]
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                got.append((st.ts, A.iset(st, v), dict((t[0], A.iset(st, t[2])) for t in st.ts), fn_where(m, f, I)))
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    txt = ("x", ("ap", "skip_whitespace", P(0)), 64)
    R.check(bool(got), "word", fn_where(m, f), "line_has_word returns", "line_has_word never returns", "none")
    for ts, S, res, w in got:
        cmp = [t for t in ts if t[0] in ("strncasecmp", "_strnicmp", "strncmp")]
        if S == ((0, 0),):
            R.ok("word", "a line without the word is not taken for one")
            if cmp:
                R.check(res[cmp[-1][0]] != ((0, 0),), "word", w, "a line with the word is recognised", "a line with the word is not recognised", "missed")
            continue
        good = bool(cmp) and cmp[-1][0] != "strncmp" and {cmp[-1][1][0], cmp[-1][1][1]} == {txt, P(1)} \
            and res[cmp[-1][0]] == ((0, 0),) and bits.equal(cmp[-1][1][2], P(2, 32), 32)
        R.check(good, "word", w, "a line is said to have the word only if its text begins with it, in any case",
                "a line is said to have a word it does not begin with", "found")


# ------------------------------------------------------------------ P03
class Nest3(Nest):
    """Also: which edges the function takes."""

    def __init__(self, *a, rng=None):
        super().__init__(*a)
        self.edges = set()
        self.rng = rng          # (counter, low, high) at entry
        self.limit = None       # edges taken only beyond the limit
        self.quiet = []

    def init(self, A, st):
        super().init(A, st)
        if self.rng:
            c, lo, hi = self.rng
            A.constrain(st, self.e[c], ((lo, hi),))

    def edge(self, A, st, src, dst):
        self.edges.add((src, dst))
        if self.limit is not None and (src, dst) in self.limit and st.ts[1] != "told":
            st.ts = (st.ts[0], "limit")
        return True

    def key(self, A, st):
        # only a level that is above the limit keeps paths apart
        return st.ts, tuple(self.bound(A, st, c) <= LIM for c in self.tops)

    def call(self, A, st, I, n, args):
        if self.limit is not None and n == "show_fatal_error" and st.ts[1] == "limit":
            t = (st.ts[0], "told")
        else:
            t = st.ts
        r = super().call(A, st, I, n, args)
        st.ts = (st.ts[0], t[1] if self.limit is not None else st.ts[1])
        return r

    def store(self, A, st, I, addr, val):
        t = st.ts[1]
        super().store(A, st, I, addr, val)
        if self.limit is not None:
            st.ts = (st.ts[0], t)

    def ret(self, A, st, I, v):
        super().ret(A, st, I, v)
        if A.reporting and self.limit is not None and st.ts[1] == "limit":
            self.quiet.append(I)


def check_P03(m, R):
    g = call_graph(m)
    for n in SOURCE:
        m.fn(n)
    edges = {n: {x for x in s if (n, x) not in STRUCTURAL and (n, x) != ("run_first_pass_line_sec", "run_first_pass_line_sec")}
             for n, s in g.items()}
    group, reach = components(edges)
    group = {n for n in group if reach[n] & SOURCE}         # functions on a cycle through the reading of source
    if not group & SOURCE:
        raise AnalysisBroken("reading of source lines is not recursive")
    cs, flags = set(), set()
    for f in m.own:
        for I in f.instrs():
            if I.op == "store" and I.ops[1][0] == "g":
                gl = m.globals.get(I.ops[1][1])
                if gl is None or gl["const"]:
                    continue
                t = m.norm(gl["type"])
                if f.name in group and t.k == "i" and t.n == 32 and g[f.name] & SOURCE:
                    cs.add(I.ops[1][1])
    usable = []
    for c in sorted(cs):
        try:
            own_cells(m, c)
        except AnalysisBroken:
            continue
        usable.append(c)
    # a nesting counter is counted up by a known step before some call of the recursion and is otherwise only put back
    cand = []
    for c in usable:
        up = any(I.op == "store" and I.ops[1] == ("g", c) and I.ops[0][0] != "c" for f in m.own if f.name in group for I in f.instrs())
        if up:
            cand.append(c)
    fs = [f for f in m.own if f.name in group]
    good, runs, rough = [], {}, set()
    for c in cand:
        mr = own_cells(m, c)
        counts = False
        for f in fs:
            if g[f.name] & SOURCE:
                r = Nest3(m, f, [c], group, set(), flags)
                ai.Analysis(m, f, r, mr, max_visits=6000).run()
                counts = counts or any(n in SOURCE and (info[c][0] or 0) > 0 for I, n, info, step in r.calls)
        if not counts:
            continue
        rg = set()
        while True:
            rs, again = {}, False
            for f in fs:
                r = Nest3(m, f, [c], group, rg, flags)
                ai.Analysis(m, f, r, mr, max_visits=6000).run()
                rs[f.name] = r
                for I, info, rep in r.exits:
                    d, exact = info[c]
                    if (d != 0 or not exact) and (f.name, c) not in rg:
                        rg.add((f.name, c))
                        again = True
            if not again:
                break
        ok, up = True, False
        for f in fs:
            for I, n, info, step in rs[f.name].calls:
                d = info[c][0]
                ok = ok and d is not None and d >= 0
                up = up or (d or 0) > 0
            if f.name in ("run_first_pass",):
                ok = ok and (f.name, c) not in rg
        runs[c] = rs
        rough |= rg
        if ok and up:
            good.append(c)
    R.count("functions that read source recursively", len(group))
    R.count("nesting counters", len(good))
    R.note("nesting counters: " + ", ".join(good))
    inc, bnd = {c: set() for c in good}, {c: set() for c in good}
    for c in good:
        for f in fs:
            by = {}
            for I, n, info, step in runs[c][f.name].calls:
                by.setdefault(n, []).append(info[c])
            for n, v in by.items():
                if all(d >= 1 for d, b in v):
                    inc[c].add((f.name, n))
                if all(b <= LIM for d, b in v):
                    bnd[c].add((f.name, n))
    e2 = {n: {x for x in edges[n] if x in group} for n in group}
    worst = None
    import itertools
    for pick in itertools.product((0, 1), repeat=len(good)):
        cut = set()
        for k, c in zip(pick, good):
            cut |= (inc if k == 0 else bnd)[c]
        e3 = {n: {x for x in s if (n, x) not in cut} for n, s in e2.items()}
        gr, rc = components(e3)
        on = gr & SOURCE
        if on:
            worst = path_round(e3, sorted(on)[0])
            break
    R.check(worst is None, "bounded", "pass_one.cpp:run_first_pass", "every recursion of source reading (%d functions) counts up and checks a nesting counter"
            % len(group), "the recursion %s is not bounded by any nesting limit" % " -> ".join(worst or ()),
            "cycle " + " ".join(sorted(set(worst or ()))))
    for f in fs:
        R.ok("analysed", f.name)
    # the level comes back to where it was
    for c in good:
        for f in fs:
            R.check((f.name, c) not in rough, "restored", fn_where(m, f), "%s leaves %s as it was" % (f.name, c),
                    "%s can return with the nesting level %s changed" % (f.name, c), "%s %s" % (f.name, c))
    # the limit is reported, and ends the run
    for c in good:
        mr = own_cells(m, c)
        for f in fs:
            calls = [(n, info[c]) for I, n, info, step in runs[c][f.name].calls if (f.name, n) in inc[c] | bnd[c] and info[c][1] <= LIM]
            if not calls:
                continue
            top = max(b - d for n, (d, b) in calls)
            R.check(min(b - d for n, (d, b) in calls) >= 15, "room", fn_where(m, f), "%s allows %d levels of %s" % (f.name, top, c),
                    "%s allows no useful depth of nesting (%d levels of %s)" % (f.name, top, c), f.name + " " + c)
            lo = Nest3(m, f, [c], group, {x for x in rough if x[1] == c}, flags, rng=(c, 0, max(0, min(b - d for n, (d, b) in calls))))
            ai.Analysis(m, f, lo, mr, max_visits=6000).run()
            hi = Nest3(m, f, [c], group, {x for x in rough if x[1] == c}, flags, rng=(c, top + 1, 1 << 30))
            hi.limit = set()
            ai.Analysis(m, f, hi, mr, max_visits=6000).run()
            limit = hi.edges - lo.edges
            end = Nest3(m, f, [c], group, {x for x in rough if x[1] == c}, flags, rng=(c, top + 1, 1 << 30))
            end.limit = limit
            ai.Analysis(m, f, end, mr, max_visits=6000).run()
            R.check(bool(limit) and not end.quiet, "diagnosed", fn_where(m, f), "%s reports that %s is beyond its limit and stops" % (f.name, c),
                    "%s gives up at the nesting limit of %s without a fatal diagnostic" % (f.name, c), f.name + " " + c)
    R.need("bounded", 1)
    R.need("restored", 4)
    R.need("diagnosed", 2)


def path_round(edges, n):
    """A cycle from n back to n."""
    prev, todo = {}, [n]
    while todo:
        x = todo.pop(0)
        for y in sorted(edges.get(x, ())):
            if y == n:
                p = [n]
                while x != n:
                    p.append(x)
                    x = prev[x]
                p.append(n)
                return p[::-1]
            if y not in prev:
                prev[y] = x
                todo.append(y)
    return [n]

# ------------------------------------------------------------------ P04
DEFERS = ("add_pass_two_expr", "add_pass_two_output")
RAISES = ("SetLastSPASMError", "show_error", "show_fatal_error")
DEFERRABLE = ("SPASM_ERR_LABEL_NOT_FOUND", "SPASM_ERR_LOCAL_LABEL_FORWARD_REF")
# where an expression without a value has a documented meaning, and why
UNKNOWN_OK = {
    ("eval", "expand_expr"): "an expression without a value stays text, which is evaluated again where it is used",
}


class Known(ai.Rule):
    """What follows an evaluation that gave no value."""
    retsplit = True

    def __init__(self, m, f, evals, raising):
        self.m, self.f, self.evals, self.raising = m, f, evals, raising
        self.sites = {}         # call -> None or where it goes on without a report
        self.handled = {}
        self.rets = []

    def init(self, A, st):
        st.ts = (None, None)    # site of an evaluation that failed, session known to be fatal

    def key(self, A, st):
        return st.ts

    def open(self, A, st, how):
        s = st.ts[0]
        if s is not None and A.reporting:
            if how is None:
                self.sites[s] = self.sites.get(s) or "goes on"
            else:
                self.handled.setdefault(s, set()).add(how)

    def call(self, A, st, I, n, args):
        site = None
        if n in self.evals:
            self.open(A, st, None)
            A.default_call(st, I, n, args)
            if A.reporting:
                self.sites.setdefault(I, None)
            v = st.env.get(I.res)
            if v is None:
                st.ts = (I, None) if not self.evals[n] else (None, None)
                return [(st, None)]
            out = []
            s2 = st.copy()
            if A.constrain(s2, v, ((0, 0),)):
                s2.ts = ((None, None) if self.evals[n] else (I, None))
                out.append((s2, v))
            if A.constrain(st, v, ((1, 1),)):
                st.ts = (None, None)
                out.append((st, v))
            return out
        if n in RAISES:
            c = A.fold(st, args[0])
            if n == "SetLastSPASMError" and self.raising.get(c[1] & 0xFFFFFFFF if c[0] == "c" else None) in DEFERRABLE:
                return None         # dropped at the end of pass one
            self.open(A, st, "raise")
            st.ts = (None, None)
        elif n in DEFERS:
            self.open(A, st, "defer")
            st.ts = (None, None)
        elif n in UNKNOWN_OK_CALLS.get(self.f.name, ()):
            self.open(A, st, "text")
            st.ts = (None, None)
        elif n == "IsSPASMErrorSessionFatal" and st.ts[0] is not None:
            A.default_call(st, I, n, args)
            v = st.env.get(I.res)
            s2 = st.copy()
            out = []
            if A.constrain(s2, v, ((0, 0),)):
                out.append((s2, v))
            if A.constrain(st, v, ((1, 1),)):
                st.ts = (st.ts[0], "fatal")
                out.append((st, v))
            return out
        elif n == "ReplaySPASMErrorSession" and st.ts[1] == "fatal":
            self.open(A, st, "raise")
            st.ts = (None, None)
        elif n == "EndSPASMErrorSession" and st.ts[0] is not None and st.ts[1] == "fatal":
            st.ts = (st.ts[0], None)
        return None

    def ret(self, A, st, I, v):
        self.open(A, st, None)
        if A.reporting:
            self.rets.append((st.ts[0] is None, A.iset(st, v) if v is not None else None))


UNKNOWN_OK_CALLS = {}
for _k in UNKNOWN_OK:
    UNKNOWN_OK_CALLS.setdefault(_k[0], []).append(_k[1])


def check_P04(m, R):
    m.fn("parse_num")
    evals = {"parse_num": False}
    code = codes(m)
    for c in DEFERRABLE:
        if c not in code.values():
            raise AnalysisBroken("diagnostic %s not found" % c)

    def run(f, label, pin=None):
        class Ru(Known):
            def edge(self, A, st, src, dst):
                if pin and src == pin[0].bb.name:
                    return A.constrain(st, A.val(st, pin[0].ops[0]), ((pin[1], pin[1]),))
                return True
        r = Ru(m, f, evals, code)
        ai.Analysis(m, f, r, max_visits=8000).run()
        for k, (I, w) in enumerate(sorted(r.sites.items(), key=lambda x: str(x[0].loc()))):
            R.count("evaluations", 1)
            R.check(w is None and r.handled.get(I), "known", fn_where(m, f, I), "%s: a value that is not known is reported" % label,
                    "%s: a value that is not known yet is silently taken as something else" % label, label)
        return r
    f, names, sw = dispatch(m, "handle_directive", DIRS)
    seen = set()
    for i, n in enumerate(names):
        r = run(f, "." + n, (sw, i))
        if r.sites:
            seen.add(n)
    for n in ("org", "fill", "block", "equ", "seek", "assume"):
        R.check(n in seen, "operand", fn_where(m, f), "the operand of .%s is evaluated" % n, ".%s does not evaluate its operand" % n, "." + n)
    r = run(m.fn("run_first_pass_line_sec"), "name = value")
    R.check(bool(r.sites), "operand", "pass_one.cpp", "the value of name = value is evaluated", "name = value does not evaluate it", "=")
    r = run(m.fn("handle_opcode_or_macro"), "buf()")
    R.check(bool(r.sites), "operand", "pass_one.cpp", "the buffer number is evaluated", "buf() does not evaluate it", "buf")
    r = run(m.fn("handle_preop_define"), "concat()")
    R.check(bool(r.sites), "operand", "preop.cpp", "the arguments of concat() are evaluated", "concat() does not evaluate its arguments", "concat")
    R.need("known", 9)
    R.need("operand", 9)


CHECKS = {
    "P04": (check_P04, "proof", ["parse_num answers false when the value is not known"]),
    "P03": (check_P03, "proof", ["calls through pointers do not read source"]),
    "P02": (check_P02, "other: typestate abstract interpretation of the conditional-assembly state", [
        "strncasecmp and strnlen behave as documented",
        "text is skipped line by line by skip_to_next_line and next_code_line, whose own scanning is not restated here",
    ]),
    "P01": (check_P01, "other: abstract interpretation of the dispatchers per name", [
        "the C library's strcasecmp compares whole strings without regard to letter case",
        "what the named actions do inside the handlers they call is decided by the properties of those handlers",
    ]),
}
