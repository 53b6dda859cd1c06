"""E06 data directives, E07 counter/output balance, E08 forward references."""
import ai
import bits
from ai import C
from ir import AnalysisBroken
from util import *

NEXT = ("x", ("next character",), 8)
WIDTH = {"ARG_NUM_8": 1, "ARG_NUM_16": 2, "ARG_NUM_24": 3, "ARG_ADDR_OFFSET": 1, "ARG_IX_IY_OFFSET": 1,
         "ARG_BIT_NUM": 1, "ARG_RST": 1}
RAISE = ("SetLastSPASMError", "ReplaySPASMErrorSession", "ReplayFatalSPASMErrorSession", "show_error", "show_fatal_error")


def dispatch(m, fname, table):
    """name (upper case) -> entry block of its handler in the switch of fname; also the default's block."""
    f = m.fn(fname)
    names = string_table(m, table, f)
    sw = None
    for I in f.instrs():
        if I.op == "switch" and len(I.x[1]) >= len(names) * 2 // 3:
            if sw is None or len(I.x[1]) > len(sw.x[1]):
                sw = I
    if sw is None:
        raise AnalysisBroken("no dispatch switch in " + fname)
    return f, names, sw


def string_table(m, hint, f=None):
    """Constant string arrays whose elements include the hint names."""
    best = None
    for n, g in m.globals.items():
        if not g.get("init") or g["type"].k != "arr":
            continue
        try:
            el = [m.cstring(e) for e in m.elems(g["type"], g["init"]) if e[0] in ("g", "cgep")]
        except Exception:
            continue
        el = [e.decode("latin-1").lower() if e is not None else None for e in el]
        if el and all(h in el for h in hint) and (best is None or len(el) > len(best)):
            best = el
    if best is None:
        raise AnalysisBroken("no table of names containing " + ", ".join(hint))
    return best


# ------------------------------------------------------------------ E06
ES = ("ES_BYTE", "ES_WORD", "ES_LONG")
KIND = {"ES_BYTE": "ARG_NUM_8", "ES_WORD": "ARG_NUM_16", "ES_LONG": "ARG_NUM_24"}
BYTES = {"ES_BYTE": 1, "ES_WORD": 2, "ES_LONG": 3}
WANT_ES = {"db": "ES_BYTE", "byte": "ES_BYTE", "dw": "ES_WORD", "word": "ES_WORD", "dl": "ES_LONG", "long": "ES_LONG"}


def check_E06(m, R):
    es = m.enum("ES_BYTE")
    args = m.enum("ARG_NUM_8")
    emit_dispatch(m, R, es)
    for t in ES:
        for mv in (m.enum("MODE_NORMAL")["MODE_NORMAL"], 65, 2):
            emit_elements(m, R, t, es, args, mv)
    R.need("directive", 6)
    R.need("element", 9)
    R.need("place", 6)
    R.need("string", 3)
    R.need("nothing dropped", 6)


def emit_dispatch(m, R, es):
    """directive name -> element type handed to the emitter: found by abstract interpretation of the dispatcher with the
    table index fixed by each name."""
    f, names, sw = dispatch(m, "handle_directive", ("db", "dw", "dl"))
    inv = {v: k for k, v in es.items()}
    for i, n in enumerate(names):
        got = case_calls(m, f, sw, i, "parse_emit_string")
        if n in WANT_ES:
            vals = {inv.get(a[1][1], a[1]) if a[1][0] == "c" else None for _, a in got}
            R.check(bool(got) and vals == {WANT_ES[n]}, "directive", fn_where(m, f), ".%s emits elements of type %s" % (n, WANT_ES[n]),
                    ".%s hands the emitter element type %s, not %s" % (n, sorted(map(str, vals)), WANT_ES[n]), n)
        else:
            for _, a in got:
                R.check(a[1][0] != "c" or inv.get(a[1][1]) not in ES, "directive", fn_where(m, f), ".%s emits no data element" % n,
                        ".%s emits data elements" % n, n)


def case_calls(m, f, sw, value, callee):
    """Calls of callee on the paths where the switch sees `value`: [(instruction, args)]."""
    return case_states(m, f, sw, value, callee)


def case_states(m, f, sw, value, callee):
    out = []

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = 0

        def edge(self, A, st, src, dst):
            if src == sw.bb.name:
                e = A.val(st, sw.ops[0])
                if not A.constrain(st, e, ((value, value),)):
                    return False
                st.ts = 1
            return True

        def call(self, A, st, I, name, args):
            if name == callee and A.reporting and st.ts == 1:
                out.append((I, [A.fold(st, a) for a in args]))
            return None
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    return out


def entry_alloca(m, f, i):
    """The slot parameter i is kept in."""
    p = f.params[i][0]
    for I in f.instrs():
        if I.op == "store" and I.ops[0] == ("v", p) and I.ops[1][0] == "v":
            return ("al", I.ops[1][1], 0)
    return None


def emit_elements(m, R, t, es, args, mv):
    f = m.fn("parse_emit_string")
    ti = [i for i, (n, ty) in enumerate(f.params) if ty.k == "i"]
    if len(ti) != 1:
        raise AnalysisBroken("parse_emit_string has no single element type parameter")
    ti = ti[0]
    slot = entry_alloca(m, f, 0)
    if slot is None:
        raise AnalysisBroken("parse_emit_string does not keep its source position")
    where = fn_where(m, f)
    emits = bool(mv & (m.enum("MODE_NORMAL")["MODE_NORMAL"] | m.enum("MODE_NORMAL")["MODE_LIST"]))
    counter = {"program_counter": "pc", "stats_datasize": "ds"}
    K = args[KIND[t]]
    coff = m.struct_fields("define")["contents"][0]
    inv = {v: k for k, v in args.items()}
    nm = "%s, mode %d" % (t, mv)

    def settle(A, st, I):
        """the current word has been dealt with"""
        ts = st.ts
        if ts[0] in ("idle",):
            return
        if not A.reporting:
            return
        if ts[0] == "pending":
            R.bad("nothing dropped", fn_where(m, f, I), "%s: an element can be left without being emitted and without a diagnostic" % nm, "drop %s" % t)
        else:
            R.ok("nothing dropped", "%s: element settled as '%s'" % (nm, ts[0]))
        if ts[0] in ("value", "deferred", "text"):
            for g in ("pc", "ds"):
                v = A.ghost_value(st, g)
                n = A.ghost_value(st, "n")
                ok = v is not None and n is not None and ai.ladd(v, n, -1) == ai.L0
                what = {"pc": "location counter", "ds": "data size"}[g]
                R.check(ok, "element", fn_where(m, f, I), "%s: %s advances by the bytes of a '%s' element" % (nm, what, ts[0]),
                        "%s: the %s advances by %s for a '%s' element of %s bytes" % (nm, what, ai.lshow(v), ts[0], ai.lshow(n)),
                        "%s %s %s" % (t, g, ts[0]))
            if ts[0] == "text":
                # left the string at its end: the character that follows the last one written is the terminator
                fin = A.iset(st, NEXT) == ((0, 0),)
                R.check(fin, "string", fn_where(m, f, I), "%s: a string is emitted up to its terminator" % nm,
                        "%s: emission of a string can stop before its terminator" % nm, "end %s" % t)

    class Ru(ai.Rule):
        def init(self, A, st):
            st.env[f.params[ti][0]] = C(es[t])
            st.ts = ("idle", None)
            st.gh = {"pc": ai.L0, "ds": ai.L0, "n": ai.L0}

        def load(self, A, st, I, addr):
            if addr == G("mode"):
                return C(mv)
            if st.ts[0] == "text" and m.size(I.ty) == 1:
                d = offset_form(addr, st.ts[1])
                n = A.ghost_value(st, "n")
                if n is not None and ai.ladd(d, n, -1) == ai.L0:
                    return NEXT
            return None

        def contents(self, A, st, I, d):
            A.store_expr(st, ai.add(64, d, coff), 8, ("x", ("contents", d), 64), ("w", I.bb.name, I.idx))

        def place(self, A, st, I, what):
            if A.reporting:
                R.check(A.ghost_value(st, "pc") == ai.L0, "place", fn_where(m, f, I), "%s: an element is %s at its own address" % (nm, what),
                        "%s: an element is %s after the location counter has moved past it" % (nm, what), "place %s" % t)

        def back(self, A, st, src, dst):
            if dst in self.outer(A):
                settle(A, st, A.fn.bmap[src].ins[-1])
                st.ts = ("idle", None)
                st.gh = {"pc": ai.L0, "ds": ai.L0, "n": ai.L0}

        def outer(self, A):
            """headers of the loop over the elements"""
            if not hasattr(self, "_o"):
                x = {I.bb.name for I in f.instrs() if I.op == "call" and m.callee_name(I) == "extract_arg_string" and I.ops[0] == ("v", slot[1])}
                self._o = {h for h, body in A.loops.items() if x & body}
            return self._o

        def store(self, A, st, I, addr, val):
            b, o = ai.split(addr)
            if b[0] == "g" and o == 0 and b[1] in counter:
                g = counter[b[1]]
                old = A.load_expr(st, addr, 4, 32)
                A.ghost_add(st, g, val)
                A.ghost_add(st, g, old, -1)

        def call(self, A, st, I, name, args_):
            ts = st.ts
            if name == "extract_arg_string":
                if args_[0] != slot:
                    return None
                settle(A, st, I)
                A.default_call(st, I, name, args_)
                leaf = A.callleaf(st, I, name)
                A.store_expr(st, slot, 8, ("x", ("pos", I.bb.name, I.idx), 64), ("w", I.bb.name, I.idx))
                out = []
                a = st.copy()
                if A.constrain(a, leaf, ((0, 0),)):
                    a.ts = ("idle", None)
                    a.gh = {"pc": ai.L0, "ds": ai.L0, "n": ai.L0}
                    out.append((a, C(0)))
                if A.constrain(st, leaf, ((-(1 << 63), -1), (1, (1 << 63) - 1))):
                    st.ts = ("pending", leaf)
                    st.gh = {"pc": ai.L0, "ds": ai.L0, "n": ai.L0}
                    out.append((st, leaf))
                return out
            if name == "parse_num":
                A.default_call(st, I, name, args_)
                leaf = A.callleaf(st, I, name)
                if ts[0] == "pending" and args_[0] == ts[1]:
                    A.store_expr(st, args_[1], 4, ("x", ("num", "word"), 32), ("w", I.bb.name, I.idx))
                    self.place(A, st, I, "evaluated")
                return [(st, leaf)]
            if name == "write_arg":
                if A.reporting:
                    if R.check(ts[0] == "pending", "element", fn_where(m, f, I), "%s: one emission per element" % nm,
                               "%s: an element is emitted a second time or outside the element loop" % nm, "twice %s" % t):
                        k = A.fold(st, args_[1])
                        R.check(k == C(K), "element", fn_where(m, f, I), "%s: known value emitted as %s" % (nm, KIND[t]),
                                "%s: a known value is emitted as %s" % (nm, inv.get(k[1], k)), "kind %s" % t)
                        R.check(args_[0] == ("x", ("num", "word"), 32), "element", fn_where(m, f, I), "%s: the value emitted is the element's" % nm,
                                "%s: the value emitted is %s, not the element's value" % (nm, bits.show(args_[0])), "value %s" % t)
                A.default_call(st, I, name, args_)
                st.ts = ("value", ts[1])
                A.ghost_add(st, "n", C(BYTES[t]))
                return [(st, None)]
            if name == "add_pass_two_expr":
                if A.reporting:
                    if R.check(ts[0] == "pending", "element", fn_where(m, f, I), "%s: one emission per element" % nm,
                               "%s: an element is emitted a second time or outside the element loop" % nm, "twice %s" % t):
                        k = A.fold(st, args_[1])
                        R.check(k == C(K) and args_[0] == ts[1], "element", fn_where(m, f, I), "%s: deferred element reserves %s" % (nm, KIND[t]),
                                "%s: a deferred element is queued as %s of %s" % (nm, inv.get(k[1], k), bits.show(args_[0])), "defer %s" % t)
                self.place(A, st, I, "queued")
                A.default_call(st, I, name, args_)
                st.ts = ("deferred", ts[1])
                A.ghost_add(st, "n", C(BYTES[t]))
                return [(st, None)]
            if name == "write_out":
                if A.reporting:
                    R.check(ts[0] in ("pending", "text"), "string", fn_where(m, f, I), "%s: bytes are written for a string" % nm,
                            "%s: a byte is written outside a string element" % nm, "stray %s" % t)
                    R.check(low_byte(args_[0]) == NEXT, "string", fn_where(m, f, I), "%s: the k-th byte is the k-th character" % nm,
                            "%s: the byte written at a position of the string is %s, not the character there" % (nm, bits.show(args_[0])), "char %s" % t)
                A.default_call(st, I, name, args_)
                st.ts = ("text", ts[1])
                A.ghost_add(st, "n", C(1))
                for k in [k for k in st.cons if ai.mentions(k, lambda x: x == NEXT[1])]:
                    del st.cons[k]
                for r, e in list(st.env.items()):
                    if ai.mentions(e, lambda x: x == NEXT[1]):
                        st.env[r] = ("x", ("used", r), ai.width(e))
                return [(st, None)]
            if name == "search_defines":
                A.default_call(st, I, name, args_)
                leaf = A.callleaf(st, I, name)
                out = []
                a = st.copy()
                if A.constrain(a, leaf, ((0, 0),)):
                    out.append((a, C(0)))
                A.constrain(st, leaf, ((-(1 << 63), -1), (1, (1 << 63) - 1)))
                self.contents(A, st, I, leaf)
                out.append((st, leaf))
                return out
            if name == "parse_args":
                A.default_call(st, I, name, args_)
                self.contents(A, st, I, args_[1])
                return [(st, None)]
            if name == "parse_define":
                # no value: the argument was used without one; an expansion to nothing contributes nothing
                con = A.load_expr(st, ai.add(64, args_[0], coff), 8, 64)
                A.default_call(st, I, name, args_)
                leaf = A.callleaf(st, I, name)
                out = []
                a = st.copy()
                if A.constrain(a, con, ((0, 0),)):
                    out.append((a, C(0)))
                if A.constrain(st, con, ((-(1 << 63), -1), (1, (1 << 63) - 1))):
                    a = st.copy()
                    if a.ts[0] == "pending":
                        a.ts = ("empty", a.ts[1])
                    out.append((a, C(0)))
                    A.constrain(st, leaf, ((-(1 << 63), -1), (1, (1 << 63) - 1)))
                    out.append((st, leaf))
                return out
            if name == "reduce_string":
                A.default_call(st, I, name, args_)
                if ts[0] == "pending" and args_[0] == ts[1]:
                    st.ts = ("text", ts[1])
                return [(st, None)]
            if name == f.name:
                ok = A.fold(st, args_[ti]) == C(es[t])
                if A.reporting:
                    R.check(ok, "nested", fn_where(m, f, I), "%s: nested list keeps its element type" % nm,
                            "%s: a nested list is emitted with element type %s" % (nm, A.fold(st, args_[ti])), "nested %s" % t)
                A.default_call(st, I, name, args_)
                st.ts = ("nested", ts[1])
                return [(st, None)]
            if name in RAISE and ts[0] == "pending":
                A.default_call(st, I, name, args_)
                st.ts = ("diagnosed", ts[1])
                return [(st, None)]
            return None

        def ret(self, A, st, I, v):
            settle(A, st, I)
    if not emits:
        # nothing is written, but the counters must move all the same: count characters instead of bytes
        class Ru2(Ru):
            pass
        return sizes_only(m, R, f, t, es, ti, slot, mv)
    ai.Analysis(m, f, Ru(), max_visits=4000).run()


def sizes_only(m, R, f, t, es, ti, slot, mv):
    """Modes without output: both counters still advance together, and as much as with output."""
    class Ru(ai.Rule):
        def init(self, A, st):
            st.env[f.params[ti][0]] = C(es[t])
            st.ts = 0
            st.gh = {"d": ai.L0}

        def load(self, A, st, I, addr):
            return C(mv) if addr == G("mode") else None

        def store(self, A, st, I, addr, val):
            b, o = ai.split(addr)
            if b[0] == "g" and o == 0 and b[1] in ("program_counter", "stats_datasize"):
                s = 1 if b[1] == "program_counter" else -1
                A.ghost_add(st, "d", val, s)
                A.ghost_add(st, "d", A.load_expr(st, addr, 4, 32), -s)

        def ret(self, A, st, I, v):
            if A.reporting:
                d = A.ghost_value(st, "d")
                R.check(d == ai.L0, "element", fn_where(m, f, I), "%s, mode %d: location counter and data size move together" % (t, mv),
                        "%s, mode %d: location counter and data size drift by %s" % (t, mv, ai.lshow(d)), "drift %s" % t)
    ai.Analysis(m, f, Ru(), max_visits=4000).run()


def low_byte(e):
    while e[0] == "cast" or (e[0] == "op" and e[1] == "and" and e[4] == C(255)):
        e = e[3]
    return e


def offset_form(addr, base):
    """addr - base as a linear form mod 2^32."""
    if addr is None or base is None:
        return None
    import bits
    a = bits.linkey(addr, 32)
    b = bits.linkey(base, 32)
    return ai.ladd(a, b, -1)


# ------------------------------------------------------------------ E07
SINKS = ("write_out", "write_arg", "add_pass_two_expr", "write_instruction_data")
DRIVERS = ("main", "run_assembly", "run_second_pass")
DIAG = ("SetLastSPASMError", "show_error", "show_fatal_error")


def touches(m, f):
    g = {"program_counter", "out_ptr"}
    for I in f.instrs():
        if I.op == "store" and I.ops[1][0] == "g" and m.resolve_sym(I.ops[1][1]) in g:
            return True
        if I.op == "call" and m.callee_name(I) in SINKS:
            return True
    return False


def balance(m, R, f, mv, rule="balance", sinkrule=False, exempt=None, want=None):
    """Out-position minus location counter is unchanged at every return that reports no error."""
    width = {m.enum("ARG_NUM_8")[k]: v for k, v in WIDTH.items()}
    rets = []
    swd = {}
    if exempt:
        sw, names = exempt
        for v, d in sw.x[1]:
            swd.setdefault(d, []).append(names[v] if 0 <= v < len(names) else str(v))

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = (False, None)
            st.gh = {"bal": ai.L0, "out": ai.L0}

        def load(self, A, st, I, addr):
            if addr == G("error_occurred"):
                return C(0)                        # once assembly has failed there is no output
            return C(mv) if addr == G("mode") else None

        def edge(self, A, st, src, dst):
            if exempt and src == exempt[0].bb.name and dst in swd:
                st.ts = (st.ts[0], tuple(swd[dst]))
            return True

        def store(self, A, st, I, addr, val):
            b, o = ai.split(addr)
            if b[0] == "g" and o == 0 and b[1] == "program_counter":
                A.ghost_add(st, "bal", val, -1)
                A.ghost_add(st, "bal", A.load_expr(st, addr, 4, 32), 1)
            if b[0] == "g" and o == 0 and b[1] == "out_ptr":
                for g in ("bal", "out"):
                    A.ghost_add(st, g, val, 1)
                    A.ghost_add(st, g, A.load_expr(st, addr, 8, 64), -1)

        def call(self, A, st, I, name, args):
            if name in SINKS and not sinkrule:
                n = None
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                if name == "write_out":
                    n = C(1)
                elif name == "write_instruction_data":
                    n = leaf
                else:
                    k = A.fold(st, args[1])
                    n = C(width[k[1]]) if k[0] == "c" and k[1] in width else None
                for g in ("bal", "out"):
                    if n is None:
                        st.gh[g] = None
                    else:
                        A.ghost_add(st, g, n, 1)
                # the sink moves the output position, not the counter
                return [(st, leaf)]
            if name in DIAG:
                A.default_call(st, I, name, args)
                st.ts = (True, st.ts[1])
                return [(st, A.callleaf(st, I, name) if I.res is not None else None)]
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                rets.append((st.ts, A.ghost_value(st, "bal"), A.ghost_value(st, "out"), I))
    ai.Analysis(m, f, Ru(), max_visits=6000).run()
    for (diag, case), bal, out, I in rets:
        if diag:
            continue
        if want is not None:
            R.check(out == (want, frozenset()), rule, fn_where(m, f, I), "%s mode %d: moves the output position by exactly %d" % (f.name, mv, want),
                    "%s (mode %d) moves the output position by %s instead of %d" % (f.name, mv, ai.lshow(out), want), "%s out" % f.name)
            continue
        nm = f.name + (" ." + "/.".join(case) if case else "")
        if case and "org" in case:
            R.check(out == ai.L0, rule, fn_where(m, f, I), ".org leaves the output position alone", ".org moves the output position by %s" % ai.lshow(out), "org")
            continue
        R.check(bal == ai.L0, rule, fn_where(m, f, I), "%s, mode %d: counter and output move together" % (nm, mv),
                "%s, mode %d: bytes emitted minus counter advance is %s" % (nm, mv, ai.lshow(bal)), nm)
    return len(rets)


def check_E07(m, R):
    md = m.enum("MODE_NORMAL")
    modes = (md["MODE_NORMAL"], md["MODE_NORMAL"] | md["EZ80"] if "EZ80" in md else 65)
    fd, names, sw = dispatch(m, "handle_directive", ("db", "dw", "dl"))
    done = []
    for f in m.own:
        if f.name in DRIVERS or f.name in SINKS or f.name == "parse_emit_string" or not f.blocks or not touches(m, f):
            continue
        for mv in modes:
            balance(m, R, f, mv, exempt=(sw, names) if f.name == fd.name else None)
        done.append(f.name)
    R.note("functions balanced: " + ", ".join(sorted(done)))
    for mv in modes:
        balance(m, R, m.fn("write_out"), mv, rule="sink", sinkrule=True, want=1)
    es, args = m.enum("ES_BYTE"), m.enum("ARG_NUM_8")
    for t in ES:
        emit_elements(m, R, t, es, args, modes[0])
    label_value(m, R)
    R.need("balance", 24)
    R.need("sink", 2)
    R.need("element", 9)
    R.need("label", 2)


def label_value(m, R):
    """A label definition records the location counter of its line."""
    for f in m.own:
        if not f.blocks or not any(m.callee_name(I) == "add_label" for I in f.instrs() if I.op == "call"):
            continue
        rec = []

        class Ru(ai.Rule):
            def init(self, A, st):
                st.ts = ()

            def call(self, A, st, I, name, a):
                if name == "add_label":
                    pc = a[1] == gval(A, st, "program_counter")
                    A.default_call(st, I, name, a)
                    leaf = ("x", ("new label", pc), 64)
                    return [(st, leaf)]
                return None

            def store(self, A, st, I, addr, val):
                if A.reporting and addr == G("last_label") and val[0] == "x" and val[1][0] == "new label":
                    rec.append((I, val[1][1]))
        ai.Analysis(m, f, Ru(), max_visits=4000).run()
        for I, ok in rec:
            R.check(ok, "label", fn_where(m, f, I), "a label that starts a line gets the location counter",
                    "a label that starts a line is defined with a value other than the location counter", f.name)
    f = m.fn("add_reusable")
    got = []

    class Ru(ai.Rule):
        def store(self, A, st, I, addr, val):
            if A.reporting and ai.split(addr)[0] != ("g", "curr_reusable", 0):
                got.append((I, val == gval(A, st, "program_counter")))
    ai.Analysis(m, f, Ru()).run()
    ok = [I for I, o in got if o]
    R.check(bool(ok), "label", fn_where(m, f), "a local label gets the location counter",
            "a local label is not recorded with the location counter", "reusable")


# ------------------------------------------------------------------ E08
NODE = {"expr": {"program_counter": 4, "line_num": 4, "out_ptr": 8, "listing_offset": 4, "listing_on": 1},
        "output": {"program_counter": 4, "line_num": 4}}
SRC = {"program_counter": "program_counter", "line_num": "line_num", "out_ptr": "out_ptr", "listing_offset": "listing_offset",
       "listing_on": "listing_on", "input_file": "curr_input_file"}
GSIZE = {"listing_offset": 8, "out_ptr": 8, "curr_input_file": 8}


def trunc_to(e, n):
    return bits.linkey(e, n)


def queue_rule(m, R, fname, struct, head, tail, mode, pins, expr_by):
    """fname appends one node holding the context of the current line.  pins: {param index: constant}."""
    f = m.fn(fname)
    fo = {k: v[0] for k, v in m.struct_fields(struct).items()}
    byoff = {v: k for k, v in fo.items()}
    ends = []
    T, H = ("x", ("old tail",), 64), ("x", ("old head",), 64)

    class Ru(ai.Rule):
        def init(self, A, st):
            for i, v in pins.items():
                st.env[f.params[i][0]] = C(v)
            st.ts = (None, ())          # node, fields

        def load(self, A, st, I, addr):
            return C(mode) if addr == G("mode") else None

        def call(self, A, st, I, name, args):
            node, rec = st.ts
            if name == "malloc":
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                out = []
                for empty in (True, False):
                    s = st.copy()
                    for g, v in ((tail, T), (head, H)):
                        A.store_expr(s, G(g), 8, C(0) if empty else v, ("w", I.bb.name, I.idx))
                    if not empty:
                        for v in (T, H):
                            A.constrain(s, v, ((1, (1 << 62)),))
                    A.constrain(s, leaf, ((1, (1 << 62)),))
                    s.ts = (leaf, (("empty", empty),))
                    out.append((s, leaf))
                return out
            if name in ("expand_expr", "strdup"):
                leaf = ("x", ("text", name, args[0]), 64)
                return [(st, leaf)]
            if name == "get_curr_reusable":
                return [(st, ("x", ("local label position",), 32))]
            if name == "write_arg":
                A.default_call(st, I, name, args)
                st.ts = (node, rec + (("placeholder", A.fold(st, args[1])),)) if node is not None else st.ts
                return [(st, None)]
            return None

        def store(self, A, st, I, addr, val):
            node, rec = st.ts
            b, o = ai.split(addr)
            if node is not None and b == T and o == fo["next"]:
                st.ts = (node, tuple(x for x in rec if x[0] != "linked") + (("linked", val),))
            if node is not None and b == node and o in byoff:
                n = byoff[o]
                late = any(x[0] == "placeholder" for x in rec)
                ok = None
                if n in SRC:
                    g = SRC[n]
                    sz = GSIZE.get(g, 4 if g != "listing_on" else 1)
                    cur = gval(A, st, g, sz)
                    w = m.size(I.ty) * 8
                    w = 1 if sz == 1 else min(w, sz * 8)
                    ok = trunc_to(val, w) == trunc_to(cur, w) and not (n == "out_ptr" and late)
                elif n == "curr_reusable":
                    ok = val == ("x", ("local label position",), 32) or val == gval(A, st, "curr_reusable")
                elif n == "expr":
                    ok = val == ("x", ("text", expr_by, P(0)), 64)
                elif n == "next":
                    ok = A.fold(st, val) == C(0)
                elif n == "type":
                    ok = A.fold(st, val) == C(pins[1])
                elif n in ("inst_size", "or_value"):
                    ok = val == P({"inst_size": 2, "or_value": 3}[n], 32)
                st.ts = (node, tuple(x for x in rec if x[0] != n) + ((n, ok),))

        def ret(self, A, st, I, v):
            if A.reporting and st.ts[0] is not None:
                ends.append((st.ts, A.fold(st, gval(A, st, tail, 8)), A.fold(st, gval(A, st, head, 8)),
                             dict(st.ts[1]).get("linked"), I))
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    if not R.check(bool(ends), "record", fn_where(m, f), "%s queues" % fname, "%s never queues anything" % fname, "none " + fname):
        return
    for (node, rec), tl, hd, nx, I in ends:
        d = dict(rec)
        for n in fo:
            if n == "listing_offset" and not mode & m.enum("MODE_NORMAL")["MODE_LIST"]:
                continue
            ok = d.get(n)
            R.check(ok is True or (n not in d and False), "record", fn_where(m, f, I), "%s.%s holds that of the line it was written on" % (struct, n),
                    "%s.%s %s" % (struct, n, "is never set" if n not in d else "does not hold that of the line it was written on"),
                    "%s %s" % (struct, n))
        if d["empty"]:
            good = tl == node and hd == node
        else:
            good = tl == node and hd == H and nx == node
        R.check(good, "append", fn_where(m, f, I), "%s appends at the tail of %s (%s list)" % (fname, head, "empty" if d["empty"] else "non-empty"),
                "%s does not append the new entry at the tail of a%s list" % (fname, "n empty" if d["empty"] else " non-empty"), "%s %s" % (fname, d["empty"]))
        if struct == "expr_t":
            kinds = m.enum("ARG_NUM_8")
            inv = {v: k for k, v in kinds.items()}
            ph = [x[1] for x in rec if x[0] == "placeholder"]
            want = WIDTH[inv[pins[1]]]
            got = [WIDTH.get(inv.get(x[1])) if x[0] == "c" else None for x in ph]
            R.check(got == [want], "reserve", fn_where(m, f, I), "a deferred %s reserves %d byte(s)" % (inv[pins[1]], want),
                    "a deferred %s reserves %s byte(s) instead of %d" % (inv[pins[1]], got, want), inv[pins[1]])


class Only:
    """Passes one rule on to the report."""

    def __init__(self, R, rule):
        self.R, self.rule = R, rule

    def check(self, cond, rule, *a):
        if rule == self.rule:
            self.R.check(cond, rule, *a)
        return cond

    def ok(self, rule, *a):
        pass

    bad = ok


def check_E08(m, R):
    md = m.enum("MODE_NORMAL")
    for t in ES:
        emit_elements(m, Only(R, "place"), t, m.enum("ES_BYTE"), m.enum("ARG_NUM_8"), md["MODE_NORMAL"])
    R.need("place", 3)
    for k, v in sorted(m.enum("ARG_NUM_8").items()):
        for mode in (md["MODE_NORMAL"], md["MODE_NORMAL"] | md["MODE_LIST"]):
            queue_rule(m, R, "add_pass_two_expr", "expr_t", "expr_list", "expr_list_tail", mode, {1: v}, "expand_expr")
    ot = m.enum("OUTPUT_ECHO")
    for n, by in (("OUTPUT_ECHO", "expand_expr"), ("OUTPUT_SHOW", "strdup")):
        queue_rule(m, R, "add_pass_two_output", "output_t", "output_list", "output_list_tail", md["MODE_NORMAL"], {1: ot[n]}, by)
    for mode in (md["MODE_NORMAL"], md["MODE_NORMAL"] | md["MODE_LIST"]):
        second_pass(m, R, mode, md)
    R.need("record", 150)
    R.need("append", 28)
    R.need("reserve", 14)
    R.need("restore", 8)
    R.need("once", 4)
    R.need("leave", 4)


def second_pass(m, R, mode, md):
    f = m.fn("run_second_pass")
    fe = {k: v[0] for k, v in m.struct_fields("expr_t").items()}
    fo = {k: v[0] for k, v in m.struct_fields("output_t").items()}
    listing = bool(mode & md["MODE_LIST"])
    ot = m.enum("OUTPUT_ECHO")
    seen = []
    ends = []
    nxt = []

    def fld(A, st, node, off, size):
        if node in (C(0), ("c", 0)):
            return ("x", ("no node",), 64)
        return ("x", ("field", node, off), size * 8)

    def context(A, st, node, fo, reus):
        out = {}
        for n, g in (("program_counter", "program_counter"), ("line_num", "line_num"), ("input_file", "curr_input_file")):
            sz = GSIZE.get(g, 4)
            out[n] = gval(A, st, g, sz) == fld(A, st, node, fo[n], sz)
        if "curr_reusable" in fo:
            out["curr_reusable"] = reus == fld(A, st, node, fo["curr_reusable"], 4) or \
                gval(A, st, "curr_reusable") == fld(A, st, node, fo["curr_reusable"], 4)
        return out

    class Ru(ai.Rule):
        # ts: (which list, node evaluated, how often, last argument of set_curr_reusable)
        def init(self, A, st):
            st.ts = (None, None, 0, None)

        def load(self, A, st, I, addr):
            if addr == G("mode"):
                return C(mode)
            b, o = ai.split(addr)
            if b[0] not in ("g", "al"):
                # the queues are not modified while they are processed (stores to them are reported below)
                return ("x", ("field", b, o), m.size(I.ty) * 8)
            return None

        def store(self, A, st, I, addr, val):
            b, o = ai.split(addr)
            if A.reporting and b[0] not in ("g", "al") and b in (gval(A, st, "expr_list", 8), gval(A, st, "output_list", 8)):
                R.bad("restore", fn_where(m, f, I), "pass two modifies a queued entry before using it", "modifies %d" % o)

        def call(self, A, st, I, name, args):
            lst, node, n, reus = st.ts
            # callees do not touch the queues: only what they return is unknown
            leaf = A.callleaf(st, I, name) if I.res is not None else None
            if name == "set_curr_reusable":
                st.ts = (lst, node, n, args[0])
                return [(st, leaf)]
            if name == "parse_num":
                cur = gval(A, st, "expr_list", 8)
                if A.reporting:
                    seen.append(("eval", I, dict(context(A, st, cur, fe, reus), expr=args[0] == fld(A, st, cur, fe["expr"], 8))))
                A.store_expr(st, args[1], 4, ("x", ("num",), 32), ("w", I.bb.name, I.idx))
                st.ts = ("expr", cur, min(n + 1, 2), reus)
                return [(st, leaf)]
            if name == "write_arg":
                cur = gval(A, st, "expr_list", 8)
                if A.reporting:
                    c = {"out_ptr": gval(A, st, "out_ptr", 8) == fld(A, st, cur, fe["out_ptr"], 8),
                         "listing_on": bits.linkey(gval(A, st, "listing_on", 1), 1) == bits.linkey(fld(A, st, cur, fe["listing_on"], 1), 1),
                         "value": args[0] == ("x", ("num",), 32), "type": args[1] == fld(A, st, cur, fe["type"], 4),
                         "inst_size": args[2] == fld(A, st, cur, fe["inst_size"], 4), "or_value": args[3] == fld(A, st, cur, fe["or_value"], 4),
                         "node": node == cur}
                    if listing:
                        c["listing_offset"] = bits.linkey(gval(A, st, "listing_offset", 8), 32) == bits.linkey(fld(A, st, cur, fe["listing_offset"], 4), 32)
                    seen.append(("write", I, c))
                A.store_expr(st, G("out_ptr"), 8, ("x", ("moved",), 64), ("w", I.bb.name, I.idx))
                return [(st, leaf)]
            if name in ("parse_emit_string", "search_defines"):
                cur = gval(A, st, "output_list", 8)
                if A.reporting:
                    c = dict(context(A, st, cur, fo, reus), expr=args[0] == fld(A, st, cur, fo["expr"], 8))
                    ty = A.iset(st, fld(A, st, cur, fo["type"], 4))
                    w = ot["OUTPUT_ECHO" if name == "parse_emit_string" else "OUTPUT_SHOW"]
                    c["kind"] = ty == ((w, w),)
                    seen.append(("echo", I, c))
                st.ts = ("output", cur, min(n + 1, 2), reus)
                return [(st, leaf)]
            return [(st, leaf)]

        def back(self, A, st, src, dst):
            lst, node, n, reus = st.ts
            if A.reporting and lst is not None:
                g, off = (("expr_list", fe) if lst == "expr" else ("output_list", fo))
                nxt.append((A.fn.bmap[src].ins[-1], lst, gval(A, st, g, 8) == fld(A, st, node, off["next"], 8), n))
            st.ts = (None, None, 0, None)

        def ret(self, A, st, I, v):
            if A.reporting:
                c = {"every queued expression processed": A.iset(st, gval(A, st, "expr_list", 8)) == ((0, 0),),
                     "every queued output processed": A.iset(st, gval(A, st, "output_list", 8)) == ((0, 0),),
                     "output position": gval(A, st, "out_ptr", 8) == ("x", ("ld", G("out_ptr"), 8, "entry"), 64),
                     "file name": gval(A, st, "curr_input_file", 8) == ("x", ("ld", G("curr_input_file"), 8, "entry"), 64)}
                if listing:
                    c["listing position"] = bits.linkey(gval(A, st, "listing_offset", 8), 32) == bits.linkey(("x", ("ld", G("listing_offset"), 8, "entry"), 64), 32)
                ends.append((I, c))
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    for kind, I, c in seen:
        for k, ok in sorted(c.items()):
            R.check(ok, "restore", fn_where(m, f, I), "%s: %s is that of the queued entry" % (kind, k),
                    "pass two does not use the queued entry's %s when it handles it (%s)" % (k, kind), "%s %s" % (kind, k))
    for k in ("eval", "write", "echo"):
        R.check(any(x[0] == k for x in seen), "restore", fn_where(m, f), "pass two does '%s'" % k, "pass two never does '%s'" % k, "never " + k)
    for I, lst, ok, n in nxt:
        R.check(ok, "once", fn_where(m, f, I), "pass two goes on to the next entry of the %s queue" % lst,
                "pass two does not go on to the next entry of the %s queue" % lst, "next " + lst)
        R.check(n == 1, "once", fn_where(m, f, I), "each entry of the %s queue is handled once" % lst,
                "an entry of the %s queue is handled more than once" % lst, "once " + lst)
    for I, c in ends:
        for k, ok in c.items():
            R.check(ok, "leave", fn_where(m, f, I), "after pass two: %s" % k, "after pass two this does not hold: %s as before" % k, k)


CHECKS = {
    "E06": (check_E06, "proof", ["write_out stores one byte, write_arg the width of its operand kind (decided by E04)."]),
    "E08": (check_E08, "proof", ["Evaluating an expression does not itself change the queues."]),
    "E07": (check_E07, "proof", ["write_arg emits the width of its operand kind and write_instruction_data the size it returns (E04, E09)."]),
}
