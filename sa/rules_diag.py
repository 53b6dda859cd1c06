"""D01 sessions, D02 message table, D03 exit status, D04 positions, D05 format strings, D06 classification and replay."""
import os, re, subprocess
import ai
import bits
import ir
from ai import C
from ir import AnalysisBroken
from util import *

ALLI = ((-(1 << 63), -1), (1, (1 << 63) - 1))
START, END = "StartSPASMErrorSession", "EndSPASMErrorSession"
USERS = ("ReplaySPASMErrorSession", "ReplayFatalSPASMErrorSession", "IsSPASMErrorSessionFatal", "IsErrorInSPASMErrorSession",
         "AddSPASMErrorSessionAnnotation", "GetSPASMErrorSessionErrorCount")
TOPONLY = ("ReplaySPASMErrorSession", "ReplayFatalSPASMErrorSession", "IsSPASMErrorSessionFatal")


def macros(m):
    """Object-like macros of errors.h with integer values, as the build's compiler sees them."""
    r = getattr(m, "_macros", None)
    if r is None:
        u = [x for x in ir.build_units() if os.path.basename(x[0]) == "errors.cpp"]
        if not u:
            raise AnalysisBroken("errors.cpp is not built")
        src, flags = u[0]
        p = ir.run([ir.tool("clang++-18", "clang++"), "-E", "-dM"] + flags + [src], cwd=ir.REPO)
        r = {}
        for ln in p.stdout.decode("latin-1").splitlines():
            g = re.match(r"#define\s+(SPASM_(?:ERR|WARN)_\w+)\s+\(?(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\)?\s*$", ln)
            if g:
                r[g.group(1)] = int(g.group(2), 0)
        if len(r) < 30:
            raise AnalysisBroken("only %d diagnostic codes found" % len(r))
        m._macros = r
    return r


# ------------------------------------------------------------------ D01
def check_D01(m, R):
    n = 0
    for f in m.own:
        if f.blocks and any(m.callee_name(I) == START for I in f.instrs() if I.op == "call"):
            n += 1
            sessions(m, R, f)
    # no function closes or replays a scope it did not open
    for f in m.own:
        if not f.blocks or f.file.endswith("errors.cpp"):
            continue
        if any(m.callee_name(I) == START for I in f.instrs() if I.op == "call"):
            continue
        for I in f.instrs():
            if I.op == "call" and m.callee_name(I) in (END, "CleanupSPASMErrorSession") + TOPONLY:
                R.bad("pairing", fn_where(m, f, I), "%s uses a diagnostic scope it did not open (%s)" % (f.name, m.callee_name(I)), "foreign " + f.name)
    R.note("%d functions open scopes" % n)
    level_rules(m, R)
    R.need("pairing", 20)
    R.need("balance", 8)
    R.need("level", 4)


def sessions(m, R, f):
    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = ()

        def call(self, A, st, I, name, args):
            s = st.ts
            if name == START:
                A.default_call(st, I, name, args)
                leaf = ("x", ("call", I.bb.name, I.idx, "session%d" % len(s)), 32)
                A.purge(st, leaf)
                if len(s) > 6:
                    if A.reporting:
                        R.bad("balance", fn_where(m, f, I), "%s opens scopes in a loop without closing them" % f.name, "grow " + f.name)
                    return [(st, leaf)]
                st.ts = s + (leaf,)
                return [(st, leaf)]
            if name in (END, "CleanupSPASMErrorSession"):
                ok = bool(s) and args[0] == s[-1]
                if A.reporting:
                    R.check(ok, "pairing", fn_where(m, f, I), "%s closes the innermost scope it opened" % f.name,
                            "%s closes %s" % (f.name, "a scope although none is open" if not s else "something other than its innermost open scope (%s)" % bits.show(args[0])),
                            "close " + f.name)
                A.default_call(st, I, name, args)
                st.ts = s[:-1] if s else s
                return [(st, A.callleaf(st, I, name) if I.res is not None else None)]
            if name in USERS and A.reporting:
                if name in TOPONLY:
                    ok = bool(s) and args[0] == s[-1]
                else:
                    ok = args[0] in s
                R.check(ok, "pairing", fn_where(m, f, I), "%s: %s is applied to an open scope" % (f.name, name),
                        "%s applies %s to %s" % (f.name, name, "something that is not its innermost open scope (%s)" % bits.show(args[0])),
                        "use %s %s" % (f.name, name))
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                R.check(st.ts == (), "balance", fn_where(m, f, I), "%s returns with every scope it opened closed" % f.name,
                        "%s can return with %d scope(s) it opened still open" % (f.name, len(st.ts)), "open " + f.name)
    ai.Analysis(m, f, Ru(), max_visits=4000).run()


def level_rules(m, R):
    """The primitives themselves: opening raises the level by one and returns it, closing lowers it by one."""
    lv = ("x", ("ld", G("g_nErrorSession"), 4, "entry"), 32)

    def ends(fname, hook=None):
        out = []

        class Ru(ai.Rule):
            def ret(self, A, st, I, v):
                if A.reporting:
                    out.append((A.load_expr(st, G("g_nErrorSession"), 4, 32), v, I))
        ai.Analysis(m, m.fn(fname), Ru()).run()
        return out
    for fin, v, I in ends(START):
        R.check(bits.linkey(fin, 32) == bits.linkey(ai.add(32, lv, 1), 32) and v == fin, "level", fn_where(m, m.fn(START), I),
                "opening a scope raises the level by one and returns it", "opening a scope leaves the level at %s and returns %s" % (bits.show(fin), bits.show(v)), "start")
    for fin, v, I in ends("CleanupSPASMErrorSession"):
        R.check(bits.linkey(fin, 32) == bits.linkey(ai.add(32, lv, -1), 32), "level", fn_where(m, m.fn("CleanupSPASMErrorSession"), I),
                "closing a scope lowers the level by one", "closing a scope leaves the level at %s" % bits.show(fin), "cleanup")
    # End closes what it is given, once
    f = m.fn(END)
    got = []

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = 0

        def call(self, A, st, I, name, args):
            if name == "CleanupSPASMErrorSession":
                A.default_call(st, I, name, args)
                st.ts = min(st.ts + 1, 3) if args[0] == P(0, 32) else 9
                return [(st, A.callleaf(st, I, name))]
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                R.check(st.ts == 1, "level", fn_where(m, f, I), "EndSPASMErrorSession closes its scope once", "EndSPASMErrorSession closes its scope %s times" % st.ts, "end")
    ai.Analysis(m, f, Ru()).run()
    f = m.fn("SetLastSPASMProblem")
    fi = m.struct_fields("tagERRORINSTANCE")

    class R2(ai.Rule):
        def init(self, A, st):
            st.ts = None

        def store(self, A, st, I, addr, val):
            if ai.split(addr)[1] == fi["nSession"][0] and m.size(I.ty) == 4 and ai.split(addr)[0][0] == "x":
                st.ts = val == gval(A, st, "g_nErrorSession")
                if A.reporting:
                    R.check(st.ts, "level", fn_where(m, f, I), "a diagnostic belongs to the innermost open scope",
                            "a new diagnostic is attached to scope %s" % bits.show(val), "attach")
    for g in ("AllocErrorInstance", "SetLastSPASMProblem"):
        h = m.fn(g, required=False)
        if h is not None and h.blocks:
            ai.Analysis(m, h, R2()).run()


# ------------------------------------------------------------------ formats
PLACE = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L)?(.)", re.S)
# function -> (index of the format operand, index of the first operand it describes or None for a va_list)
FORMATTERS = {"printf": (0, 1), "fprintf": (1, 2), "dprintf": (1, 2), "sprintf": (1, 2), "snprintf": (2, 3), "asprintf": (1, 2),
              "vprintf": (0, None), "vfprintf": (1, None), "vsprintf": (1, None), "vsnprintf": (2, None), "vasprintf": (1, None),
              "syslog": (1, 2), "scanf": (0, 1), "sscanf": (1, 2), "fscanf": (1, 2)}


def placeholders(fmt):
    """Argument kinds a format string asks for: 'i32', 'i64', 'ptr', 'fp'; None if malformed."""
    out = []
    i = 0
    while True:
        i = fmt.find("%", i)
        if i < 0:
            return out
        if fmt[i:i + 2] == "%%":
            i += 2
            continue
        g = PLACE.match(fmt, i)
        if g is None:
            return None
        for x in (g.group(2), g.group(3)):
            if x == "*":
                out.append("i32")
        l, c = g.group(4) or "", g.group(5)
        if c in "diouxX":
            out.append("i64" if l in ("l", "ll", "z", "j", "t") else "i32")
        elif c == "c":
            out.append("i32")
        elif c in "spn":
            out.append("ptr")
        elif c in "eEfFgGaA":
            out.append("fp")
        else:
            return None
        i = g.end()


def argkind(t):
    if t.k == "i":
        return "i%d" % max(32, t.n)
    if t.k == "ptr":
        return "ptr"
    return "fp" if t.k in ("fp", "double", "float") else t.k


def arg_types(m, I, first):
    return [argkind(t) for t in I.tys[first:len(I.ops)]]


def fmt_sources(m, f, v, seen=None):
    """What a format operand can be: list of ('const', bytes) / ('param', i) / ('table', global) / ('other', text)."""
    seen = seen if seen is not None else set()
    s = m.cstring(v) if v[0] in ("g", "cgep") else None
    if s is not None:
        g = m.globals.get(m.const_ptr(v)[0])
        if g is not None and g["const"]:
            return [("const", s)]
        return [("other", "the writable object %s" % m.const_ptr(v)[0])]
    if v[0] == "v":
        if v[1] in seen:
            return []
        seen.add(v[1])
        for i, p in enumerate(f.params):
            if p[0] == v[1]:
                return [("param", i)]
        I = f.defs.get(v[1])
        if I is not None:
            if I.op == "phi":
                return [x for o in I.ops for x in fmt_sources(m, f, o, seen)]
            if I.op == "select":
                return fmt_sources(m, f, I.ops[1], seen) + fmt_sources(m, f, I.ops[2], seen)
            if I.op in ("bitcast", "freeze"):
                return fmt_sources(m, f, I.ops[0], seen)
            if I.op == "gep" and all(o == ("c", 0) for o in I.ops[1:]):
                return fmt_sources(m, f, I.ops[0], seen)
            if I.op == "load":
                b = table_of(m, f, I.ops[0])
                if b is not None:
                    return [("table", b)]
                return [("other", "a text held in memory")]
            if I.op == "call":
                return [("other", "the result of %s" % m.callee_name(I))]
    return [("other", "a text that is not a constant")]


def table_of(m, f, v, depth=0):
    """Global constant-text table a load reads from."""
    while v[0] == "v" and depth < 20:
        I = f.defs.get(v[1])
        if I is None or I.op not in ("gep", "bitcast"):
            return None
        v = I.ops[0]
        depth += 1
    b = m.const_ptr(v)[0] if v[0] in ("g", "cgep") else None
    if b is None:
        return None
    g = m.globals.get(m.resolve_sym(b)) or m.globals.get(b)
    return b if g is not None and g["init"] is not None and never_written(m, b) else None


def never_written(m, g):
    c = getattr(m, "_written", None)
    if c is None:
        c = m._written = set()
        for f in m.funcs.values():
            for I in (f.instrs() if f.blocks else ()):
                tg = I.ops[1] if I.op == "store" else None
                if tg is None:
                    continue
                d = 0
                while tg[0] == "v" and d < 20:
                    J = f.defs.get(tg[1])
                    if J is None or J.op not in ("gep", "bitcast"):
                        break
                    tg = J.ops[0]
                    d += 1
                b = m.const_ptr(tg)[0] if tg[0] in ("g", "cgep") else None
                if b:
                    c.add(b)
    return g not in c


def formatters(m):
    """Known formatters plus every own function that hands one of its parameters to a formatter as the format."""
    r = getattr(m, "_formatters", None)
    if r is not None:
        return r
    r = dict(FORMATTERS)
    while True:
        n = len(r)
        for f in m.own:
            for I in (f.instrs() if f.blocks else ()):
                if I.op != "call":
                    continue
                d = r.get(m.callee_name(I))
                if d is None:
                    continue
                for k, x in fmt_sources(m, f, I.ops[d[0]]):
                    if k == "param" and f.name not in r:
                        r[f.name] = (x, len(f.params) if f.vararg else None)
        if len(r) == n:
            m._formatters = r
            return r


def check_D05(m, R):
    F = formatters(m)
    n = 0
    for f in m.own:
        for I in (f.instrs() if f.blocks else ()):
            if I.op != "call":
                continue
            name = m.callee_name(I)
            d = F.get(name)
            if d is None:
                continue
            srcs = fmt_sources(m, f, I.ops[d[0]])
            if not srcs:
                srcs = [("other", "an unknown text")]
            for k, x in srcs:
                if k == "other" or k == "table" and x != g_table(m):
                    R.bad("constant", fn_where(m, f, I), "%s passes %s to %s as its format" % (f.name, x, name), "format %s %s" % (f.name, name))
                    continue
                R.ok("constant", "%s: format of %s is a constant" % (f.name, name))
                if k != "const" or d[1] is None:
                    continue
                s = x.decode("latin-1")
                want = placeholders(s)
                have = arg_types(m, I, d[1])
                R.check(want == have, "arguments", fn_where(m, f, I), "%s: arguments of %r match" % (f.name, s),
                        "%s: the format %r asks for %s and is given %s" % (f.name, s, want, have), "arguments %s %r" % (f.name, s))
    for w in sorted(set(F) - set(FORMATTERS)):
        R.note("own formatter: " + w)
    R.need("constant", 40)
    R.need("arguments", 30)


def g_table(m):
    return sym(m, "g_ErrorCodes")


RAISE = {"SetLastSPASMError": ("SPASM_ERR_", "error"), "SetLastSPASMWarning": ("SPASM_WARN_", "warning")}


def check_D02(m, R):
    mac = macros(m)
    tab = error_texts(m)
    for c, texts in sorted(tab.items()):
        R.check(len(texts) == 1 and texts[0], "one message", "errors.h", "0x%03X has one message" % c,
                "0x%03X has %d messages: %r" % (c, len(texts), texts), "messages 0x%03X" % c)
        R.check(placeholders(texts[0]) is not None, "one message", "errors.h", "the message of 0x%03X is well formed" % c,
                "the message of 0x%03X is not a valid format: %r" % (c, texts[0]), "malformed 0x%03X" % c)
    # every use of the raising functions
    kinds = {}
    for n, v in mac.items():
        kinds.setdefault(v, set()).add("SPASM_WARN_" if n.startswith("SPASM_WARN_") else "SPASM_ERR_")
    bytext = {}
    for c, t in tab.items():
        bytext.setdefault(t[0], []).append(c)
    for t, cs in sorted(bytext.items()):
        R.check(len(cs) == 1, "one message", "errors.h", "message %r belongs to one code" % t,
                "the codes %s share the message %r" % (", ".join("0x%03X" % c for c in cs), t), "shared %r" % t)
    raised = set()
    for f in m.own:
        if not f.blocks or not any(m.callee_name(I) in RAISE for I in f.instrs() if I.op == "call"):
            continue
        got = {}

        class Ru(ai.Rule):
            def call(self, A, st, I, name, args):
                if name in RAISE and A.reporting:
                    got[(I.bb.name, I.idx)] = (I, name, ai.iunion(got.get((I.bb.name, I.idx), (None, None, ()))[2], A.iset(st, args[0])))
                return None
        try:
            ai.Analysis(m, f, Ru(), max_visits=4000).run()
        except AnalysisBroken:
            pass
        for I in f.instrs():
            if I.op != "call" or m.callee_name(I) not in RAISE:
                continue
            g = got.get((I.bb.name, I.idx))
            if g is None:
                S = const_set(m, f, I.ops[0])
                if S is None:
                    continue            # unreachable
            else:
                S = [x for a, b in g[2] for x in range(a, min(b, a + 2) + 1)]
                if any(b - a > 2 for a, b in g[2]):
                    S = const_set(m, f, I.ops[0])
                    if S is None:
                        R.bad("raised", fn_where(m, f, I), "%s raises a code that is not a constant" % f.name, "not constant " + f.name)
                        continue
            pre, kind = RAISE[m.callee_name(I)]
            for c in S:
                raised.add(c)
                nm = errname(m, c)
                if c not in tab:
                    R.bad("raised", fn_where(m, f, I), "%s raises %s 0x%X, which has no message" % (f.name, kind, c), "no message %s 0x%X" % (f.name, c))
                    continue
                want = placeholders(tab[c][0])
                have = arg_types(m, I, 1)
                R.check(want == have, "raised", fn_where(m, f, I), "%s raises %s with matching arguments" % (f.name, nm),
                        "%s raises %s: the message asks for %s and is given %s" % (f.name, nm, want, have), "arguments %s 0x%X" % (f.name, c))
                R.check(kinds.get(c) == {pre}, "kind", fn_where(m, f, I), "%s raises %s as %s" % (f.name, nm, kind),
                        "%s raises %s as %s" % (f.name, nm, kind), "kind %s 0x%X" % (f.name, c))
    lookup(m, R)
    R.need("raised", 55)
    R.need("kind", 55)
    R.need("one message", 100)
    R.note("%d codes raised, %d in the table" % (len(raised), len(tab)))


def const_set(m, f, v, seen=()):
    """Constants a value can be: through phis, selects, casts and the arguments of every caller; None if unknown."""
    if v[0] == "c":
        return [v[1]]
    if v[0] != "v" or (f.name, v[1]) in seen:
        return [] if v[0] == "v" else None
    seen = seen + ((f.name, v[1]),)
    for i, p in enumerate(f.params):
        if p[0] == v[1]:
            out = []
            cs = callers(m, f.name)
            for g, I in cs:
                s = const_set(m, g, I.ops[i], seen)
                if s is None:
                    return None
                out += s
            return out if cs else None
    I = f.defs.get(v[1])
    if I is None or I.op not in ("phi", "select", "zext", "sext", "trunc", "freeze"):
        return None
    ops = I.ops[1:3] if I.op == "select" else I.ops
    out = []
    for o in ops:
        s = const_set(m, f, o, seen)
        if s is None:
            return None
        out += s
    return sorted(set(out))


def lookup(m, R):
    """The description that is formatted is the one stored with the code that was raised, with the raiser's arguments."""
    f = m.fn("SetLastSPASMProblem")
    tb = g_table(m)
    g = m.globals[tb]
    es = m.size(m.norm(g["type"]).e)
    cover = [()]

    class Ru(ai.Rule):
        def load(self, A, st, I, addr):
            if A.reporting and m.size(I.ty) == 4 and A.addr_root(addr)[:2] == ("g", tb):
                b, o = ai.split(addr)
                if b[0] == "g":
                    cover[0] = ai.iunion(cover[0], ((o // es,) * 2,))
                for t in ai.subexprs(b):
                    if t[0] == "op" and t[1] in ("mul", "shl"):
                        for y in t[3:5]:
                            if y[0] != "c":
                                cover[0] = ai.iunion(cover[0], A.iset(st, y))
            return None

        def call(self, A, st, I, name, args):
            if name != "vsnprintf" or not A.reporting:
                return None
            e = args[2]
            ok = False
            if e[0] == "x" and e[1][0] == "ld":
                a = e[1][1]
                b, o = ai.split(a)
                code = A.load_expr(st, ai.add(64, a, -8 if o >= 8 else 0), 4, 32)
                d = A.decide(st, ai.cmpexpr("eq", 32, code, P(0, 32))[0])
                ok = A.addr_root(a)[:2] == ("g", tb) and code != P(0, 32) and d == 1
            R.check(ok, "lookup", fn_where(m, f, I), "the message formatted is the one of the code raised",
                    "the message formatted is not the one stored with the code raised (%s)" % bits.show(e), "message")
            R.check(args[3] == P(2), "lookup", fn_where(m, f, I), "with the arguments of the raising call",
                    "the message is formatted with something else than the raiser's arguments", "args")
            return None
    ai.Analysis(m, f, Ru()).run()
    n = m.norm(g["type"]).n
    R.check(cover[0] == ((0, n - 1),), "lookup", fn_where(m, f), "the search covers the %d entries of the table" % n,
            "the search for the message covers the entries %s of the table's %d" % (setstr(cover[0]), n), "cover")
    for fn, (pre, kind) in RAISE.items():
        h = m.fn(fn)

        class R2(ai.Rule):
            def call(self, A, st, I, name, args):
                if name == "SetLastSPASMProblem" and A.reporting:
                    R.check(args[0] == P(0, 32) and A.iset(st, args[1]) == ((int(kind == "warning"),) * 2,), "lookup", fn_where(m, h, I),
                            "%s raises its code as %s" % (fn, kind), "%s raises %s with the warning flag %s" % (fn, bits.show(args[0]), bits.show(args[1])), "flag " + fn)
                return None
        ai.Analysis(m, h, R2()).run()
    R.need("lookup", 5)


# ------------------------------------------------------------------ D03
WRITERS = ("fopen", "fopen64", "open", "open64", "creat", "freopen")
PASSES = {"run_first_pass": "one", "run_second_pass": "two"}


def opens_for_writing(m):
    """Own functions from which a file can be opened for writing."""
    direct = set()
    calls = {}
    for f in m.own:
        for I in (f.instrs() if f.blocks else ()):
            if I.op != "call":
                continue
            n = m.callee_name(I)
            if n is None:
                continue
            calls.setdefault(f.name, set()).add(n)
            if n in WRITERS and writes_mode(m, I, n):
                direct.add(f.name)
    while True:
        k = len(direct)
        for f, cs in calls.items():
            if cs & direct:
                direct.add(f)
        if len(direct) == k:
            return direct


def writes_mode(m, I, n):
    if not n.startswith("f"):
        return not (len(I.ops) > 1 and I.ops[1][0] == "c" and I.ops[1][1] & 3 == 0)
    s = m.cstring(I.ops[1]) if I.ops[1][0] in ("g", "cgep") else None
    return s is None or any(c in s for c in b"wa+")


def check_D03(m, R):
    order_rules(m, R)
    end_rules(m, R)
    exit_code_rules(m, R)
    R.need("order", 8)
    R.need("fatal end", 4)
    R.need("exit status", 8)


def order_rules(m, R):
    f = m.fn("run_assembly")
    wr = opens_for_writing(m)
    seen = set()

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            st.ts = ((), "start", False)

        def call(self, A, st, I, name, args):
            ss, ph, rep = st.ts
            if name == START:
                A.default_call(st, I, name, args)
                leaf = ("x", ("call", I.bb.name, I.idx, "session%d" % len(ss)), 32)
                A.purge(st, leaf)
                st.ts = (ss + (leaf,) if len(ss) < 6 else ss, ph, False)
                return [(st, leaf)]
            w = fn_where(m, f, I)
            if name in PASSES:
                p = PASSES[name]
                seen.add(p)
                if A.reporting:
                    R.check(len(ss) == 1, "order", w, "pass %s runs inside the outermost scope" % p, "pass %s runs with %d scopes open" % (p, len(ss)), "scope " + p)
                    want = "start" if p == "one" else "one done"
                    R.check(ph == want, "order", w, "pass %s starts in state '%s'" % (p, want),
                            "pass %s can start in state '%s': the errors of pass one have not been acted on" % (p, ph), "start " + p)
                A.default_call(st, I, name, args)
                st.ts = (ss, p, False)
                return [(st, A.callleaf(st, I, name) if I.res is not None else None)]
            if name in ("ReplaySPASMErrorSession", "ReplayFatalSPASMErrorSession"):
                st.ts = (ss, ph, bool(ss) and args[0] == ss[-1])
                return None
            if name in (END, "CleanupSPASMErrorSession"):
                if A.reporting:
                    R.check(rep, "order", w, "diagnostics are shown before their outermost scope is closed (state '%s')" % ph,
                            "the outermost scope is closed in state '%s' without showing its diagnostics" % ph, "unshown " + ph)
                    R.check(name == END, "order", w, "a fatal error ends the program at the end of the outermost scope",
                            "the outermost scope is closed in a way that ignores fatal errors (state '%s')" % ph, "no exit " + ph)
                if ph in ("one", "two") and len(ss) == 1:
                    ph = ph + " done" if name == END else ph
                A.default_call(st, I, name, args)
                st.ts = (ss[:-1], ph, False)
                return [(st, A.callleaf(st, I, name) if I.res is not None else None)]
            if A.reporting and (name in wr and name not in PASSES or name in WRITERS and writes_mode(m, I, name)):
                R.check(ph == "two done", "order", w, "%s is reached only after pass two ended without fatal error" % name,
                        "%s can write a file in state '%s'" % (name, ph), "early " + name)
                if name in wr:
                    R.check(len(ss) == 1, "order", w, "%s runs inside the outermost scope" % name,
                            "what %s reports is lost: no outermost scope is open" % name, "scope " + name)
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                S = A.iset(st, v)
                ok = v == gval(A, st, "exit_code") or S == ((3, 3),)
                R.check(ok, "order", fn_where(m, f, I), "run_assembly returns the exit status", "run_assembly can return %s instead of the exit status" % bits.show(v), "return")
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    if seen != {"one", "two"}:
        raise AnalysisBroken("run_assembly does not run both passes")
    # main hands the result on, and nobody else writes output or runs a pass
    mf = m.fn("main")

    class R2(ai.Rule):
        def init(self, A, st):
            st.ts = None

        def call(self, A, st, I, name, args):
            if name == "run_assembly":
                A.default_call(st, I, name, args)
                v = A.callleaf(st, I, name)
                st.ts = v
                return [(st, v)]
            return None

        def ret(self, A, st, I, v):
            if not A.reporting:
                return
            if st.ts is None:
                R.check(not any(a <= 0 <= b for a, b in A.iset(st, v)), "order", fn_where(m, mf, I), "main fails when it does not assemble", "main can return success without assembling", "main early")
            else:
                R.check(v == st.ts, "order", fn_where(m, mf, I), "main returns the result of the assembly", "main returns %s instead of the result of the assembly" % bits.show(v), "main")
    ai.Analysis(m, mf, R2(), max_visits=4000).run()
    for n in ("write_file", "write_labels") + tuple(PASSES):
        for g, I in callers(m, n):
            if n == "run_first_pass" and g.name != "run_assembly":
                continue        # nested sources
            R.check(g.name == "run_assembly", "order", fn_where(m, g, I), "%s is called from run_assembly only" % n, "%s is called from %s" % (n, g.name), "caller %s %s" % (n, g.name))


def end_rules(m, R):
    f = m.fn(END)
    eo = lambda A, st: gval(A, st, "error_occurred", 1)

    def feasible(A, st, *cs):
        s = st.copy()
        return all(A.constrain(s, e, S) for e, S in cs)

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = None

        def key(self, A, st):
            c = ("x", ("call",) + st.ts, 32) if st.ts else None
            return (st.ts, A.iset(st, P(0, 32)) == ((1, 1),), c and all(b <= 0 for _, b in A.iset(st, c)), A.iset(st, eo(A, st)) == ((0, 0),))

        def call(self, A, st, I, name, args):
            if name == "CleanupSPASMErrorSession":
                A.default_call(st, I, name, args)
                v = A.callleaf(st, I, name)
                A.constrain(st, v, ((0, (1 << 31) - 1),))
                st.ts = v[1][1:]
                return [(st, v)]
            if name in ("exit", "_exit", "abort", "quick_exit"):
                if A.reporting:
                    one, cnt = (P(0, 32), ((1, 1),)), ("x", ("call",) + (st.ts or ()), 32)
                    R.check(name == "exit" and args and args[0] == C(3), "fatal end", fn_where(m, f, I), "a fatal error ends the program with status 3",
                            "a fatal error ends the program with %s(%s)" % (name, bits.show(args[0]) if args else ""), "status")
                    other = iunion_not1()
                    R.check(st.ts is not None and not feasible(A, st, (P(0, 32), other)), "fatal end", fn_where(m, f, I), "only the outermost scope ends the program",
                            "the program can end while an inner scope is closed", "inner")
                    R.check(st.ts is not None and not feasible(A, st, (cnt, ((0, 0),)), (eo(A, st), ((0, 0),))), "fatal end", fn_where(m, f, I),
                            "the program ends only if there was a fatal error", "the program can end without a fatal error", "none")
                return []
            return None

        def ret(self, A, st, I, v):
            if not A.reporting:
                return
            one = (P(0, 32), ((1, 1),))
            cnt = ("x", ("call",) + (st.ts or ()), 32)
            R.check(st.ts is not None and not feasible(A, st, one, (cnt, ((1, (1 << 31) - 1),))), "fatal end", fn_where(m, f, I),
                    "assembly does not go on after a fatal error", "assembly can go on although the outermost scope held a fatal error", "goes on")
            R.check(not feasible(A, st, one, (eo(A, st), ((1, 1),))), "fatal end", fn_where(m, f, I),
                    "assembly does not go on after a fatal error shown directly", "assembly can go on although a fatal error was shown directly", "goes on direct")
    ai.Analysis(m, f, Ru()).run()


def iunion_not1():
    return ((-(1 << 31), 0), (2, (1 << 31) - 1))


RAISES = {"show_error": 2, "show_fatal_error": 3, "show_warning": 1}


def exit_code_rules(m, R):
    ec = lambda A, st: gval(A, st, "exit_code")
    for f in m.own:
        if not f.blocks:
            continue
        gs = [I for I in f.instrs() if I.op == "store" and I.ops[1][0] == "g" and m.resolve_sym(I.ops[1][1]) == sym(m, "exit_code")]
        if gs or f.name in RAISES or f.name == "PrintSPASMError":
            raise_rule(m, R, f, ec)
    R.need("exit status", 8)
    # the fatal flag is raised by the fatal report and reset only before pass one
    for f in m.own:
        for I in (f.instrs() if f.blocks else ()):
            if I.op == "store" and I.ops[1][0] == "g" and m.resolve_sym(I.ops[1][1]) == sym(m, "error_occurred"):
                if I.ops[0] == ("c", 0):
                    R.check(f.name == "run_assembly", "exit status", fn_where(m, f, I), "the fatal flag is cleared at the start only",
                            "%s clears the flag of a fatal error" % f.name, "clear " + f.name)
    # who prints an error or warning heading has raised the status
    for f in m.own:
        if f.name in RAISES or not f.blocks:
            continue
        hs = [I for I in f.instrs() if I.op == "call" and m.callee_name(I) in ("show_error_prefix", "show_warning_prefix")]
        if hs:
            heading_rule(m, R, f)


def raise_rule(m, R, f, ec):
    fatal = sym(m, "error_occurred")

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = False       # has a pass run / a diagnostic possibly been shown

        def key(self, A, st):
            return (st.ts, A.iset(st, ec(A, st)) if ec(A, st)[0] == "c" else None)

        def call(self, A, st, I, name, args):
            if name and any(r == ("G", "exit_code") for r in A.mr.call_writes(f, I)):
                st.ts = True
            return None

        def store(self, A, st, I, addr, val):
            if addr != G("exit_code") or not A.reporting:
                return
            old = ec(A, st)
            hi = max(b for _, b in A.iset(st, old))
            lo = min(a for a, _ in A.iset(st, val))
            less = A.decide(st, ai.cmpexpr("slt", 32, val, old)[0])
            if ai.cmpexpr("slt", 32, val, old)[1] and less is not None:
                less ^= 1
            if f.name == "run_assembly" and not st.ts and val == C(0):
                R.ok("exit status", "run_assembly starts with status 0")
                return
            R.check(lo >= hi or less == 0, "exit status", fn_where(m, f, I), "%s never lowers the exit status" % f.name,
                    "%s can lower the exit status to %s" % (f.name, setstr(A.iset(st, val))), "lower " + f.name)

        def ret(self, A, st, I, v):
            if not A.reporting:
                return
            lo = min(a for a, _ in A.iset(st, ec(A, st)))
            want = RAISES.get(f.name)
            if want is not None:
                R.check(lo >= want, "exit status", fn_where(m, f, I), "%s leaves the exit status at least %d" % (f.name, want),
                        "%s can leave the exit status at %d" % (f.name, lo), "raise " + f.name)
            if f.name == "show_fatal_error":
                R.check(A.iset(st, gval(A, st, "error_occurred", 1)) == ((1, 1),), "exit status", fn_where(m, f, I), "show_fatal_error stops the assembly",
                        "show_fatal_error can return without the fatal flag set", "flag")
            if f.name == "PrintSPASMError":
                fi = m.struct_fields("tagERRORINSTANCE")
                code = A.load_expr(st, ai.add(64, P(0), fi["dwErrorCode"][0]), 4, 32)
                warn = A.load_expr(st, ai.add(64, P(0), fi["fIsWarning"][0]), 1, 8)
                for wv, want in ((1, 1), (0, 2)):
                    s = st.copy()
                    if A.constrain(s, code, ALLI32) and A.constrain(s, warn, ((wv, wv),)):
                        lo = min(a for a, _ in A.iset(s, ec(A, s)))
                        R.check(lo >= want, "exit status", fn_where(m, f, I), "a shown %s leaves the exit status at least %d" % ("warning" if wv else "error", want),
                                "a shown %s can leave the exit status at %d" % ("warning" if wv else "error", lo), "shown %d" % wv)
    if f.name == "PrintSPASMError":
        fi = m.struct_fields("tagERRORINSTANCE")

        class R2(Ru):
            # the three cases are kept apart; fields of the instance do not change while it is printed
            def load(self, A, st, I, addr):
                b, o = ai.split(addr)
                if b == P(0) and (o, m.size(I.ty)) in ((fi["dwErrorCode"][0], 4), (fi["fIsWarning"][0], 1)):
                    return ("x", ("ld", addr, m.size(I.ty), "entry"), m.size(I.ty) * 8)

            def key(self, A, st):
                code = ("x", ("ld", ai.add(64, P(0), fi["dwErrorCode"][0]), 4, "entry"), 32)
                warn = ("x", ("ld", ai.add(64, P(0), fi["fIsWarning"][0]), 1, "entry"), 8)
                return (st.ts, A.iset(st, code) == ((0, 0),), A.iset(st, warn), A.iset(st, ec(A, st)))

            def ret(self, A, st, I, v):
                if not A.reporting:
                    return
                code = ("x", ("ld", ai.add(64, P(0), fi["dwErrorCode"][0]), 4, "entry"), 32)
                warn = ("x", ("ld", ai.add(64, P(0), fi["fIsWarning"][0]), 1, "entry"), 8)
                for wv, want in ((1, 1), (0, 2)):
                    s = st.copy()
                    if A.constrain(s, code, ALLI32) and A.constrain(s, warn, ((wv, wv),)):
                        lo = min(a for a, _ in A.iset(s, ec(A, s)))
                        R.check(lo >= want, "exit status", fn_where(m, f, I), "a shown %s leaves the exit status at least %d" % ("warning" if wv else "error", want),
                                "a shown %s can leave the exit status at %d" % ("warning" if wv else "error", lo), "shown %d" % wv)
        ai.Analysis(m, f, R2()).run()
    else:
        ai.Analysis(m, f, Ru(), max_visits=4000).run()


ALLI32 = ((-(1 << 31), -1), (1, (1 << 31) - 1))


def heading_rule(m, R, f):
    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = 0

        def call(self, A, st, I, name, args):
            if name in RAISES:
                st.ts = max(st.ts, RAISES[name])
            elif name in ("show_error_prefix", "show_warning_prefix") and A.reporting:
                want = 2 if name == "show_error_prefix" else 1
                R.check(st.ts >= want, "exit status", fn_where(m, f, I), "%s raises the exit status before it prints a heading" % f.name,
                        "%s prints an error or warning heading without raising the exit status" % f.name, "heading " + f.name)
            return None
    ai.Analysis(m, f, Ru(), max_visits=4000).run()


# ------------------------------------------------------------------ D06
NONFATAL = ("SPASM_ERR_SUCCESS", "SPASM_ERR_LOCAL_LABEL_FORWARD_REF", "SPASM_ERR_LABEL_NOT_FOUND", "SPASM_ERR_RECURSION_DEPTH")
# scopes whose diagnostics may be dropped: function -> {call made in the scope: why nothing is lost}
DROP = {
    "parse_f": {"parse_num": "documented to ignore errors"},
    "eval": {"parse_num": "an expression that cannot be evaluated is kept and evaluated again where it is used"},
    "handle_preop": {"skip_until": "the text stepped over is not assembled"},
    "handle_directive": {"parse_emit_string": ".echo text is printed, and its diagnostics raised, once more"},
    "parse_emit_string": {"parse_emit_string": "the text was evaluated again element by element"},
    "write_labels": {"hash_enum": "the symbol table is only read"},
}


def check_D06(m, R):
    mac = macros(m)
    nf = set()
    for n in NONFATAL:
        if n not in mac:
            raise AnalysisBroken("no diagnostic code " + n)
        nf.add(mac[n])
    for n, v in sorted(mac.items()):
        S = const_returns(m, "IsSPASMErrorFatal", v)
        want = 0 if v in nf else 1
        R.check(S == ((want, want),), "classification", "errors.cpp:IsSPASMErrorFatal", "%s is %s" % (n, "fatal" if want else "not fatal"),
                "%s is treated as %s" % (n, "not fatal" if want else "fatal"), "class " + n)
    walk_rules(m, R)
    replay_rules(m, R)
    record_rules(m, R)
    drop_rules(m, R)
    R.need("classification", 40)
    R.need("walk", 8)
    R.need("replay", 6)
    R.need("record", 5)
    R.need("dropped", 15)


class EntryWalk(ai.Rule):
    """Walks over the list of diagnostics: which entry is looked at and what is known about it."""
    retsplit = True

    def __init__(self, m):
        self.m = m
        self.fi = m.struct_fields("tagERRORINSTANCE")

    def off(self, n):
        return self.fi[n][0]

    # ts = (entry base or None, in scope?, verdict: 'open'/'yes'/'no', extra)
    def init(self, A, st):
        st.ts = (None, None, "open", ())

    def field(self, A, st, X, n):
        k = 1 if n.startswith("f") else 4
        return A.load_expr(st, ai.add(64, X, self.off(n)), k, k * 8)

    def load(self, A, st, I, addr):
        b, o = ai.split(addr)
        if o == self.off("nSession") and self.m.size(I.ty) == 4 and b[0] == "x":
            if st.ts[0] != b:
                self.enter(A, st, b)
        return None

    def enter(self, A, st, b):
        st.ts = (b, None, "open", ())

    def edge(self, A, st, src, dst):
        X, ins, v, ex = st.ts
        if X is None:
            return True
        if ins is None:
            f = self.field(A, st, X, "nSession")
            e, neg = ai.cmpexpr("eq", 32, f, P(0, 32))
            d = A.decide(st, e)
            if d is not None:
                ins = bool(d) ^ bool(neg)
        if v == "open" and ins is not False:
            W = A.iset(st, self.field(A, st, X, "fIsWarning"))
            if W and W[0][0] >= 1:
                v = "no"
        st.ts = (X, ins, v, ex)
        return True

    def ended(self, A, st):
        """The walk is over: the list has ended or an entry of another scope was met."""
        if st.ts[0] is not None and st.ts[1] is False:
            return True
        cand = {A.load_expr(st, G("g_ErrorList"), 8, 64)}
        for r, v in st.env.items():
            d = A.fn.defs.get(r)
            if d is not None and d.ty is not None and d.ty.k == "ptr":
                cand.add(v)
        return any(v == C(0) or A.iset(st, v) == ((0, 0),) for v in cand if v[0] in ("x", "c"))

    def call(self, A, st, I, name, args):
        if name == "IsSPASMErrorFatal":
            X = st.ts[0]
            A.default_call(st, I, name, args)
            leaf = A.callleaf(st, I, name)
            if X is None or args[0] != self.field(A, st, X, "dwErrorCode"):
                st.ts = st.ts[:2] + ("foreign", st.ts[3])
                return [(st, leaf)]
            out = []
            for v in (0, 1):
                for w in (0, 1):
                    s = st.copy()
                    if A.constrain(s, leaf, ((v, v),)) and A.constrain(s, self.field(A, s, X, "fIsWarning"), ((w, w),)):
                        s.ts = (X, s.ts[1], "yes" if v == 1 and w == 0 else "no", s.ts[3])
                        out.append((s, leaf))
            return out
        return None


def walk_rules(m, R):
    # a scope is fatal exactly if it holds a fatal error
    f = m.fn("IsSPASMErrorSessionFatal")

    class Fatal(EntryWalk):
        def enter(self, A, st, b):
            self.leave(A, st, "the next entry")
            st.ts = (b, None, "open", ())

        def leave(self, A, st, how):
            X, ins, v, ex = st.ts
            if A.reporting and X is not None and ins is not False:
                R.check(v == "no", "walk", fn_where(m, f), "the search for a fatal error goes on only past warnings and non-fatal errors",
                        "the search for a fatal error passes over an entry that may be one", "pass")

        def back(self, A, st, src, dst):
            self.leave(A, st, "loop")
            st.ts = (None, None, "open", ())

        def ret(self, A, st, I, v):
            if not A.reporting:
                return
            S = A.iset(st, v)
            if S == ((1, 1),):
                R.check(st.ts[2] == "yes" and st.ts[1] is True, "walk", fn_where(m, f, I), "a scope counts as fatal only for a fatal error of its own",
                        "a scope counts as fatal although the entry looked at is not a fatal error of this scope", "false fatal")
            elif S == ((0, 0),):
                R.check(st.ts[0] is None or st.ts[1] is False, "walk", fn_where(m, f, I), "a scope without fatal error is not fatal",
                        "a scope with a fatal error can be taken for harmless", "missed fatal")
            else:
                R.bad("walk", fn_where(m, f, I), "the verdict on a scope does not depend on its entries alone", "verdict")
    ai.Analysis(m, f, Fatal(m)).run()
    # closing a scope removes exactly its entries and counts its fatal errors
    f = m.fn("CleanupSPASMErrorSession")
    lf = m.struct_fields("_list")
    noff, doff = lf["next"][0], lf["data"][0]

    class Clean(EntryWalk):
        # extra: (data freed, node freed, next loaded)
        def init(self, A, st):
            st.ts = (None, None, "open", ())
            st.gh = {"n": (0, frozenset())}

        def call(self, A, st, I, name, args):
            r = EntryWalk.call(self, A, st, I, name, args)
            if r is not None:
                return r
            X = st.ts[0]
            if name == "FreeErrorInstance":
                st.ts = st.ts[:3] + (st.ts[3] + ("data" if X is not None and args[0] == X else "other",),)
            elif name == "list_free_node":
                st.ts = st.ts[:3] + (st.ts[3] + ("node" if X is not None and X == ("x", ("ld", ai.add(64, args[0], doff), 8, X[1][3] if X[1][0] == "ld" else None), 64) else "other",),)
            return None

        def done(self, A, st, where, known=True):
            X, ins, v, ex = st.ts
            if X is None or ins is False:
                if A.reporting:
                    R.check(not ex, "walk", where, "an entry of another scope is left alone", "an entry of another scope is removed", "foreign entry")
                return
            if A.reporting:
                R.check(v in ("yes", "no"), "walk", where, "every entry removed is classified", "an entry is removed without looking whether it is a fatal error", "unclassified")
                R.check(sorted(ex) == ["data", "node"], "walk", where, "an entry is released once, with its list node",
                        "an entry of the scope is released as %s" % (list(ex),), "release")
            if v == "yes":
                A.ghost_add(st, "n", C(1))

        def back(self, A, st, src, dst):
            self.done(A, st, fn_where(m, f))
            st.ts = (None, None, "open", ())

        def ret(self, A, st, I, v):
            self.done(A, st, fn_where(m, f, I))
            if A.reporting:
                R.check(self.ended(A, st), "walk", fn_where(m, f, I), "closing a scope removes every entry of it", "closing a scope can stop before its last entry", "stops early")
                g = A.ghost_value(st, "n") if hasattr(A, "ghost_value") else st.gh["n"]
                R.check(g is not None and ai.lform(v) == g, "walk", fn_where(m, f, I), "the result is the number of fatal errors removed",
                        "the result is %s where %s fatal errors were removed" % (bits.show(v), ai.lshow(g)), "count")
    ai.Analysis(m, f, Clean(m)).run()


def replay_rules(m, R):
    fi = m.struct_fields("tagERRORINSTANCE")
    so = fi["nSession"][0]
    f = m.fn("ReplaySPASMErrorSession")
    lv = ("x", ("ld", None, 4, None), 32)

    class Move(EntryWalk):
        def store(self, A, st, I, addr, val):
            b, o = ai.split(addr)
            if o != so or m.size(I.ty) != 4 or b[0] != "x":
                return
            X, ins, v, ex = st.ts
            if A.reporting:
                R.check(ins is True and b == X and bits.linkey(val, 32) == bits.linkey(ai.add(32, self.field(A, st, X, "nSession"), -1), 32) and not ex,
                        "replay", fn_where(m, f, I), "an entry of the scope moves to the enclosing scope",
                        "replaying puts an entry into scope %s" % bits.show(val), "move")
            st.ts = (X, ins, v, ("moved",))

        def leave(self, A, st, where):
            X, ins, v, ex = st.ts
            if A.reporting and X is not None and ins is not False:
                R.check(ex == ("moved",), "replay", where, "no entry of the scope is left behind", "an entry of the scope can be left behind when it is replayed", "left")

        def back(self, A, st, src, dst):
            self.leave(A, st, fn_where(m, f))
            st.ts = (None, None, "open", ())

        def call(self, A, st, I, name, args):
            if name == "ReplayErrorRecursive":
                if A.reporting:
                    R.check(A.iset(st, P(0, 32)) == ((1, 1),), "replay", fn_where(m, f, I), "diagnostics are printed at the outermost scope only",
                            "diagnostics of an inner scope are printed", "print level")
                    R.check(args[0] == A.load_expr(st, G("g_ErrorList"), 8, 64) and ai.width(args[1]) <= 8 and bits.linkey(args[1], 8) == bits.linkey(P(1, ai.width(args[1])), 8)
                            or args[1] == P(1, 1), "replay", fn_where(m, f, I), "the whole list is printed with the caller's filter",
                            "what is printed is not the list of diagnostics with the caller's filter (%s)" % bits.show(args[1]), "print what")
                st.ts = st.ts[:3] + (st.ts[3] + ("printed",),)
            return None

        def ret(self, A, st, I, v):
            self.leave(A, st, fn_where(m, f, I))
            if A.reporting and A.iset(st, P(0, 32)) != ((1, 1),):
                R.check(self.ended(A, st), "replay", fn_where(m, f, I), "every entry of the scope is moved", "replaying can stop before the last entry of the scope", "stops early")
            if A.reporting and A.iset(st, P(0, 32)) == ((1, 1),):
                R.check("printed" in st.ts[3], "replay", fn_where(m, f, I), "the outermost scope is printed", "the diagnostics of the outermost scope are not printed", "unprinted")

        def key(self, A, st):
            return (st.ts, A.iset(st, P(0, 32)) == ((1, 1),))
    ai.Analysis(m, f, Move(m)).run()

    f = m.fn("ReplayErrorRecursive")
    lf = m.struct_fields("_list")

    class Print(ai.Rule):
        """oldest first: the rest of the list comes before the entry itself"""
        def init(self, A, st):
            st.ts = ((), None)

        def load(self, A, st, I, addr):
            # the entry is not changed while the rest of the list is printed
            b, o = ai.split(addr)
            if b == P(0) or b[0] == "x" and b[1][0] == "ld" and ai.split(b[1][1])[0] == P(0):
                return ("x", ("ld", addr, m.size(I.ty), "entry"), m.size(I.ty) * 8 if I.ty.k == "i" else 64)

        def key(self, A, st):
            return (st.ts, A.iset(st, self.sess()), A.iset(st, P(0)) == ((0, 0),), self.filt(A, st))

        def filt(self, A, st):
            for w in (1, 8):
                S = A.iset(st, P(1, w))
                if len(S) == 1 and S[0][0] == S[0][1]:
                    return S[0][0]
            return None

        def node(self):
            return ("x", ("ld", ai.add(64, P(0), lf["data"][0]), 8, "entry"), 64)

        def sess(self):
            return ("x", ("ld", ai.add(64, self.node(), so), 4, "entry"), 32)

        def call(self, A, st, I, name, args):
            ev, fat = st.ts
            w = fn_where(m, f, I)
            if name == f.name:
                nx = ("x", ("ld", ai.add(64, P(0), lf["next"][0]), 8, "entry"), 64)
                if A.reporting:
                    R.check(not ev and args[0] == nx, "replay", w, "earlier diagnostics are printed first", "the rest of the diagnostics is printed after the entry or not at all", "order")
                    R.check(args[1] in (P(1, 1), P(1, 8)) or bits.linkey(args[1], 8) == bits.linkey(P(1, 8), 8), "replay", w, "with the same filter", "earlier diagnostics are printed with another filter", "filter down")
                st.ts = (ev + ("rest",), fat)
            elif name == "IsSPASMErrorFatal":
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                code = ("x", ("ld", ai.add(64, self.node(), fi["dwErrorCode"][0]), 4, "entry"), 32)
                out = []
                for v in (0, 1):
                    s = st.copy()
                    if A.constrain(s, leaf, ((v, v),)):
                        s.ts = (ev, v if args[0] == code else "foreign")
                        out.append((s, leaf))
                return out
            elif name == "PrintSPASMError":
                if A.reporting:
                    R.check(ev == ("rest",) and args[0] == self.node(), "replay", w, "an entry is printed once, after the earlier ones",
                            "an entry is printed out of order, twice or not itself", "print")
                    R.check(A.iset(st, self.sess()) == ((1, 1),), "replay", w, "only entries of the outermost scope are printed", "an entry of an inner scope can be printed", "print inner")
                    R.check(self.filt(A, st) == 0 or fat == 1, "replay", w, "with the filter, only fatal diagnostics are printed", "the filter lets a non-fatal diagnostic through", "filter")
                st.ts = (ev + ("print",), fat)
            return None

        def ret(self, A, st, I, v):
            if not A.reporting:
                return
            ev, fat = st.ts
            w = fn_where(m, f, I)
            if not ev:
                R.check(A.iset(st, P(0)) == ((0, 0),), "replay", w, "only an empty list prints nothing", "the list can be left unprinted", "skip all")
            elif "print" not in ev:
                S = A.iset(st, self.sess())
                out = not any(a <= 1 <= b for a, b in S)
                R.check(out or fat == 0 and self.filt(A, st) == 1, "replay", w, "an entry is left out only by the filter",
                        "a diagnostic of the outermost scope can be left unprinted", "skip one")
    ai.Analysis(m, f, Print()).run()


def record_rules(m, R):
    fi = m.struct_fields("tagERRORINSTANCE")
    f = m.fn("SetLastSPASMProblem")

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = (None, None, frozenset(), False)

        def call(self, A, st, I, name, args):
            inst, dup, done, pre = st.ts
            if name in ("AllocErrorInstance", "malloc", "calloc") and inst is None:
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                A.constrain(st, leaf, ALLI)
                st.ts = (leaf, dup, done, pre)
                return [(st, leaf)]
            if name in ("strdup", "_strdup", "__strdup"):
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                if args[0] == A.load_expr(st, G("curr_input_file"), 8, 64):
                    st.ts = (inst, leaf, done, pre)
                return [(st, leaf)]
            if name == "list_prepend":
                ok = args[0] == A.load_expr(st, G("g_ErrorList"), 8, 64) and args[1] == inst
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                st.ts = (inst, dup, done, leaf if ok else False)
                return [(st, leaf)]
            return None

        def store(self, A, st, I, addr, val):
            inst, dup, done, pre = st.ts
            b, o = ai.split(addr)
            if addr == G("g_ErrorList") and pre and val == pre:
                st.ts = (inst, dup, done | {"list"}, pre)
            if inst is None or b != inst:
                return
            w = fn_where(m, f, I)
            for n, want in (("dwErrorCode", P(0, 32)), ("line_num", gval(A, st, "line_num")), ("lpszFileName", dup)):
                if o == fi[n][0]:
                    ok = want is not None and val == want
                    if A.reporting:
                        R.check(ok, "record", w, "%s of a diagnostic is set" % n, "%s of a diagnostic is set to %s" % (n, bits.show(val)), "field " + n)
                    st.ts = st.ts[:2] + (st.ts[2] | {n},) + st.ts[3:]
            if o == fi["fIsWarning"][0]:
                ok = bits.linkey(val, 8) in (bits.linkey(P(1, 1), 8), bits.linkey(ai.cast("zext", 8, P(1, 1), 1), 8))
                if A.reporting:
                    R.check(ok, "record", w, "fIsWarning of a diagnostic is set", "fIsWarning of a diagnostic is set to %s" % bits.show(val), "field fIsWarning")
                st.ts = st.ts[:2] + (st.ts[2] | {"fIsWarning"},) + st.ts[3:]

        def ret(self, A, st, I, v):
            if not A.reporting:
                return
            if A.iset(st, P(0, 32)) == ((0, 0),):
                return
            for n in ("dwErrorCode", "line_num", "lpszFileName", "fIsWarning"):
                R.check(n in st.ts[2], "record", fn_where(m, f, I), "%s is recorded on every path" % n, "a diagnostic can be recorded without %s" % n, "missing " + n)
            R.check("list" in st.ts[2], "record", fn_where(m, f, I), "a diagnostic is put at the head of the list", "a diagnostic can get lost instead of being put at the head of the list", "lost")

        def key(self, A, st):
            return (st.ts, A.iset(st, P(0, 32)) == ((0, 0),))
    ai.Analysis(m, f, Ru()).run()


def drop_rules(m, R):
    for f in m.own:
        if f.blocks and any(m.callee_name(I) == START for I in f.instrs() if I.op == "call"):
            drop_rule(m, R, f)


def drop_rule(m, R, f):
    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = ()

        def call(self, A, st, I, name, args):
            s = st.ts
            if name == START:
                A.default_call(st, I, name, args)
                leaf = ("x", ("call", I.bb.name, I.idx, "session%d" % len(s)), 32)
                A.purge(st, leaf)
                if len(s) < 6:
                    st.ts = s + ((leaf, frozenset()),)
                return [(st, leaf)]
            if not s:
                return None

            def tag(st, t):
                st.ts = s[:-1] + ((s[-1][0], s[-1][1] | {t}),)
            if name in ("ReplaySPASMErrorSession", "ReplayFatalSPASMErrorSession"):
                for i, (l, tags) in enumerate(s):
                    if args[0] == l:
                        st.ts = s[:i] + ((l, tags | {"replayed"}),) + s[i + 1:]
                return None
            if name in ("IsSPASMErrorSessionFatal", "GetSPASMErrorSessionErrorCount"):
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                out = []
                for v, S in ((0, ((0, 0),)), (1, ((1, (1 << 31) - 1),) if name[0] == "G" else ALLI32)):
                    t = st.copy()
                    if A.constrain(t, leaf, S):
                        if args[0] == s[-1][0]:
                            tag(t, "empty" if name[0] == "G" and v == 0 else "nonempty" if name[0] == "G" else "fatal" if v else "not fatal")
                        out.append((t, leaf))
                return out
            if name in (END, "CleanupSPASMErrorSession"):
                tags = s[-1][1]
                if A.reporting and "parse_args" in tags and not tags & {"replayed", "empty"}:
                    R.bad("dropped", fn_where(m, f, I), "%s reads the arguments of a macro and then drops what was said about them" % f.name, "arguments " + f.name)
                if A.reporting and args[0] == s[-1][0]:
                    why = None
                    if "replayed" in tags:
                        why = "replayed"
                    elif "empty" in tags:
                        why = "empty"
                    else:
                        for c, w in DROP.get(f.name, {}).items():
                            if c in tags:
                                why = w
                    # a scope that contains a nested evaluation of the same text
                    if why is None and f.name in DROP and s[-1][1] & {"again"}:
                        why = "evaluated again"
                    w = fn_where(m, f, I)
                    if why is None and f.name == "parse_emit_string" and "parse_args" in tags:
                        # dropped in favour of a second evaluation that must follow
                        st.ts = s[:-1] + (("owed", frozenset()),)
                        A.default_call(st, I, name, args)
                        return [(st, A.callleaf(st, I, name) if I.res is not None else None)]
                    R.check(why is not None, "dropped", w, "%s: scope closed, diagnostics %s" % (f.name, why),
                            "%s can close a scope whose diagnostics were neither shown to the enclosing scope nor known to be absent (%s)" % (f.name, ", ".join(sorted(map(str, tags)))),
                            "drop %s" % f.name)
                elif f.name == "parse_emit_string" and not s[-1][1] & {"replayed", "empty", "parse_emit_string"} and "parse_args" in s[-1][1]:
                    st.ts = s[:-1] + (("owed", frozenset()),)
                    A.default_call(st, I, name, args)
                    return [(st, A.callleaf(st, I, name) if I.res is not None else None)]
                A.default_call(st, I, name, args)
                st.ts = s[:-1]
                return [(st, A.callleaf(st, I, name) if I.res is not None else None)]
            if name in ("parse_num", "parse_num_full", "parse_args", "parse_emit_string", "skip_until", "hash_enum"):
                if name == "parse_emit_string":
                    # pays for every open scope of the same text and for one given up for it
                    st.ts = tuple((l, t | {name}) for l, t in s if l != "owed")
                    return None
                tag(st, name)
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                R.check(all(l != "owed" for l, t in st.ts), "dropped", fn_where(m, f, I), "%s: what a scope dropped is evaluated again" % f.name,
                        "%s drops the diagnostics of an element without evaluating it again" % f.name, "owed " + f.name)
    ai.Analysis(m, f, Ru(), max_visits=6000).run()


# ------------------------------------------------------------------ D04
POS = {"curr_input_file": 8, "line_num": 4, "in_macro": 4, "line_start": 8}
# drivers: they establish a position or report outside any source line
SETS_FILE = {"main", "run_assembly", "write_file"}
# functions that consume source text and so move the line number forward, one per line consumed
ADVANCES = {"run_first_pass", "run_first_pass_line", "run_first_pass_line_sec", "handle_preop", "handle_preop_if", "do_if",
            "handle_preop_include", "handle_preop_define", "handle_opcode_or_macro", "handle_directive", "parse_define",
            "handle_preop_import"}
NESTS = {"run_first_pass"}          # starts counting at line 1 of another text


def check_D04(m, R):
    ci, ln = G("curr_input_file"), G("line_num")
    touch = position_functions(m)
    R.count("functions that can change the position", len(touch))
    for f in m.own:
        if f.name not in touch or f.name in SETS_FILE:
            continue
        position_rule(m, R, f, touch)
    # the driver itself starts at line 1
    R.need("restore", 40)
    R.need("nested", 2)


def position_functions(m):
    """Functions that store to a position variable or reach one that does."""
    direct = set()
    calls = {}
    for f in m.own:
        for I in f.instrs():
            if I.op == "store" and I.ops[1][0] == "g" and m.resolve_sym(I.ops[1][1]) in POS:
                direct.add(f.name)
            if I.op == "call":
                n = m.callee_name(I)
                calls.setdefault(f.name, set()).add(n)
                for o in I.ops:
                    if o[0] == "g" and m.resolve_sym(o[1]) in POS:
                        direct.add(f.name)
    changed = True
    while changed:
        changed = False
        for f, cs in calls.items():
            if f not in direct and cs & direct:
                direct.add(f)
                changed = True
    return direct


def own_cells(m, *names):
    """Mod/ref information in which the named globals are only reached by name.  Their address may be handed to a call
    (the rule havocs them there) but is stored nowhere."""
    import copy
    for f in m.own:
        for I in f.instrs():
            for k, o in enumerate(I.ops):
                if o[0] == "g" and m.resolve_sym(o[1]) in names:
                    if not (I.op == "load" or I.op == "call" or (I.op == "store" and k == 1)):
                        raise AnalysisBroken("the address of %s is computed with in %s" % (o[1], f.name))
    mr = copy.copy(ai.get_modref(m))
    mr.gpriv = dict(mr.gpriv)
    for n in names:
        mr.gpriv[n] = True
    return mr


def position_rule(m, R, f, touch):
    name = f.name
    mr = own_cells(m, *POS)
    seen = []
    nested_calls = []

    class Ru(ai.Rule):
        def init(self, A, st):
            self.e = {g: A.load_expr(st, G(g), s, 8 * s) for g, s in POS.items()}
            st.ts = (None, False)            # (line number to return to, line_start borrowed)
            for g, s in POS.items():
                st.mem[(G(g), 0)] = (self.e[g], s)

        def load(self, A, st, I, addr):
            return None

        def cur(self, A, st, g):
            return A.load_expr(st, G(g), POS[g], 8 * POS[g])

        def store(self, A, st, I, addr, val):
            if addr == G("line_num"):
                nest, ls = st.ts
                cur = self.cur(A, st, "line_num")
                if val == ai.add(32, cur, 1) or val == cur:
                    return
                if nest is None:
                    st.ts = (cur, ls)
                elif val == nest:
                    st.ts = (None, ls)

        def call(self, A, st, I, n, args):
            if G("line_num") in args:
                A.default_call(st, I, n, args)
                leaf = ("x", ("call", I.bb.name, I.idx, "line_num"), 32)
                A.purge(st, leaf)
                st.mem[(G("line_num"), 0)] = (leaf, 4)
                return [(st, None)]
            if n not in touch:
                return None
            keep = {g: self.cur(A, st, g) for g in POS}
            A.default_call(st, I, n, args)
            for g, s in POS.items():
                if g == "line_num" and n in ADVANCES:
                    continue
                if n in SETS_FILE:
                    continue
                if g == "line_start" and (n in NESTS or n in ("run_first_pass_line", "do_listing_for_line")):
                    continue
                st.mem[(G(g), 0)] = (keep[g], s)
            nest, ls = st.ts
            if nest is None and n in ADVANCES and name not in ADVANCES:
                nest = keep["line_num"]     # the lines the callee steps over are not lines of this source
                st.ts = (nest, ls)
            if n in NESTS:
                if nest is None:
                    nest = keep["line_num"]
                ls = ls or (keep["line_start"],)
                st.ts = (nest, ls)
                if A.reporting:
                    nested_calls.append(I)
            return [(st, None)]

        def edge(self, A, st, src, dst):
            return True

        def ret(self, A, st, I, v):
            nest, ls = st.ts
            bad = []
            if name not in NESTS and nest is not None and self.cur(A, st, "line_num") != nest:
                bad.append("line_num")
            if nest is None and name not in ADVANCES and self.cur(A, st, "line_num") != self.e["line_num"]:
                bad.append("line_num")
            for g in ("curr_input_file", "in_macro"):
                if self.cur(A, st, g) != self.e[g]:
                    bad.append(g)
            if ls and name not in NESTS and self.cur(A, st, "line_start") != ls[0]:
                bad.append("line_start")
            seen.append((I, bad))

    ai.Analysis(m, f, Ru(), mr, max_visits=4000).run()
    what = {"line_num": "the line number", "curr_input_file": "the file name", "in_macro": "the macro nesting",
            "line_start": "the start of the listed line"}
    for g in ("curr_input_file", "in_macro", "line_num"):
        bad = [I for I, b in seen if g in b]
        R.check(not bad, "restore", fn_where(m, f, bad[0] if bad else None), "%s leaves %s as it found it" % (name, what[g]),
                "%s can return with %s of another source" % (name, what[g]), name + " " + g)
    if nested_calls:
        bad = [I for I, b in seen if "line_start" in b]
        R.check(not bad, "nested", fn_where(m, f, nested_calls[0]), "%s restores the listed line after nested source" % name,
                "%s can return with the listing still on a line of the nested source" % name, name + " line_start")


CHECKS = {
    "D02": (check_D02, "proof", ["The C library's formatters follow the C standard."]),
    "D03": (check_D03, "proof", ["exit() ends the program with its argument as status.", "stdout can be written."]),
    "D06": (check_D06, "proof", ["Entries of the list of diagnostics are reached through g_ErrorList only."]),
    "D05": (check_D05, "proof", ["The C library's formatters follow the C standard."]),
    "D01": (check_D01, "proof", ["Calls return (no longjmp); exit() ends the program."]),
    "D04": (check_D04, "proof", ["Calls return (no longjmp)."]),
}
