"""Symbol tables: S01 letter case, S02 redefinition and conflicts, S03 argument scopes."""
import ai
from ai import C
from ir import AnalysisBroken
from util import *
from rules_diag import own_cells

PTR = ((1, (1 << 47) - 1),)


def call_of(e):
    """Callee name of a call leaf."""
    return e[1][3] if e[0] == "x" and e[1][0] == "call" else None


def field(m, struct, *names):
    f = m.struct_fields(struct)
    for n in names:
        if n in f:
            return f[n][0]
    raise AnalysisBroken("struct %s has no field %s" % (struct, names[0]))


class Mode(ai.Rule):
    """Case mode pinned."""

    def __init__(self, m, f, sens, seen):
        self.m, self.f, self.sens, self.seen = m, f, sens, seen
        self.org = {}

    def load(self, A, st, I, addr):
        if addr == G("case_sensitive"):
            return C(self.sens)
        return None

    def init(self, A, st):
        st.ts = ()      # (object, the name stored in it)

    def store(self, A, st, I, addr, val):
        b, o = ai.split(addr)
        if o == 0 and I.ops[0][0] == "v" and call_of(b) in ("malloc", "calloc"):
            st.ts = tuple(x for x in st.ts if x[0] != b) + ((b, val),)

    def norm(self, A, st, e):
        """'up' / 'raw' / None of a name."""
        if e in self.org:
            k, x = self.org[e]
            if k == "up":
                return "up"
            return self.norm(A, st, x)
        S = A.iset(st, e) if e[0] != "c" else None
        if e[0] == "x" and e[1][0] in ("p", "ld") or e[0] == "al" or e[0] == "g" or e[0] == "+":
            return "raw"
        if e[0] == "x" and e[1][0] == "call":
            return "raw"
        return "raw" if e[0] == "x" else None

    def call(self, A, st, I, n, args):
        R = None
        if n in ("strup", "strdup", "strndup"):
            A.default_call(st, I, n, args)
            leaf = st.env[I.res]
            self.org[leaf] = ("up" if n == "strup" else "raw", args[0])
            return [(st, None)]
        if n in ("hash_lookup", "hash_remove"):
            if A.reporting:
                self.seen.append((I, n, self.sens, self.norm(A, st, args[1])))
        elif n == "hash_insert":
            if A.reporting:
                self.seen.append((I, n, self.sens, self.norm(A, st, dict(st.ts).get(args[1], A.load_expr(st, args[1], 8, 64)))))
        elif n in ("strcmp", "strcasecmp", "strncmp", "strncasecmp") and A.reporting and named(self.m, self.f, I):
            self.seen.append((I, n, self.sens, "raw" if n in ("strcmp", "strncmp") else "up"))
        return None


def name_load(m, f, v):
    """The register is the name or argument name of a definition or label."""
    if v[0] != "v":
        return False
    d = f.defs.get(v[1]) if hasattr(f, "defs") else None
    if d is None:
        for I in f.instrs():
            if I.res == v[1]:
                d = I
                break
    if d is None or d.op != "load":
        return False
    p = d.ops[0]
    if p[0] != "v":
        return False
    for I in f.instrs():
        if I.res == p[1]:
            if I.op != "gep":
                return False
            t = str(I.x)
            if "define" not in t and "label" not in t:
                # element of the array of argument names
                q = I.ops[0]
                return q[0] == "v" and any(J.res == q[1] and J.op == "gep" and "define" in str(J.x) for J in f.instrs())
            return True
    return False


def named(m, f, I):
    a, b = name_load(m, f, I.ops[0]), name_load(m, f, I.ops[1])
    return a != b       # two names: an ordering, not a lookup


def check_S01(m, R):
    ops = ("hash_lookup", "hash_remove", "hash_insert")
    fs = {}
    for n in ops + ("strcmp", "strcasecmp", "strncmp", "strncasecmp"):
        for f, I in callers(m, n):
            if n in ops or named(m, f, I):
                fs[f.name] = f
    for name in sorted(fs):
        f = fs[name]
        if f.file == "hash.cpp":
            continue
        for sens in (0, 1):
            seen = []
            ai.Analysis(m, f, Mode(m, f, sens, seen), max_visits=4000).run()
            for I, n, s, k in seen:
                want = "raw" if s else "up"
                what = "looks up" if n == "hash_lookup" else "removes" if n == "hash_remove" else \
                    "stores" if n == "hash_insert" else "compares"
                R.check(k == want, "key", fn_where(m, f, I), "%s %s names %s in %s mode" %
                        (name, what, "as written" if s else "in one case", "the case-sensitive" if s else "the default"),
                        "%s %s a name %s although names are %s" %
                        (name, what, "that was not brought to one case" if want == "up" else "in another case than written",
                         "case-insensitive" if want == "up" else "case-sensitive"), "%s %s %d" % (name, n, sens))
    # tables are only reached through the operations decided here
    for g in ("label_table", "define_table"):
        for f in m.own:
            for I in f.instrs():
                if I.op != "load" or I.ops[0] != ("g", sym(m, g)):
                    continue
                for J in f.instrs():
                    if ("v", I.res) in J.ops:
                        ok = J.op in ("store", "phi", "icmp", "select") or J.op == "call" and (m.callee_name(J) or "").startswith("hash_")
                        R.check(ok, "table", fn_where(m, f, J), "%s in %s goes to a table operation" % (g, f.name),
                                "%s uses %s other than through a table operation" % (f.name, g), "%s %s" % (f.name, g))
    up_rule(m, R)
    order_rule(m, R)
    # the mode itself
    for f in m.own:
        for I in f.instrs():
            if I.op == "store" and I.ops[1] == ("g", sym(m, "case_sensitive")):
                vals = []

                class Ru(ai.Rule):
                    def store(self, A, st, J, addr, val):
                        if addr == G("case_sensitive") and A.reporting:
                            for k in (0, 1):
                                s2 = st.copy()
                                vals.append(A.constrain(s2, P(0, A.wid(f.params[0][1]) if f.params else 8), ((k, k),)) and
                                            A.iset(s2, val) in (((k, k),), ((-k, -k),)))
                ai.Analysis(m, f, Ru()).run()
                ok = f.name == "set_case_sensitive" and bool(vals) and all(vals)
                R.check(ok, "mode", fn_where(m, f, I), "the case mode is what was asked for",
                        "%s changes the case mode" % f.name, f.name)
    R.need("key", 16)
    R.need("table", 6)
    R.need("mode", 1)
    R.need("order", 1)
    R.need("upper", 1)


def up_rule(m, R):
    f = m.fn("strup")
    bad = []
    n = [0]

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = None

        def call(self, A, st, I, name, args):
            if name in ("modp_toupper_copy",):
                n[0] += 1
                ln = args[2]
                ok = args[1] == P(0) and call_of(ln) in ("strlen",)
                A.default_call(st, I, name, args)
                st.ts = args[0] if ok else None
                return [(st, None)]
            if name == "strlen":
                if args[0] != P(0):
                    bad.append(I)
            return None

        def ret(self, A, st, I, v):
            if A.reporting and (st.ts is None or v != st.ts):
                bad.append(I)
    if any(m.callee_name(I) in ("toupper",) for I in f.instrs() if I.op == "call"):
        R.ok("upper", "strup maps the characters with toupper")
        return
    ai.Analysis(m, f, Ru()).run()
    R.check(not bad and n[0] > 0, "upper", fn_where(m, f), "strup returns the upper-case copy of the whole string",
            "strup does not return the upper-case copy of the whole string", "strup")


def order_rule(m, R):
    """Entries are equal exactly when strcmp says so."""
    found = 0
    for f in m.funcs.values():
        if f.declared or "comparator" not in f.sym or "clE" not in f.sym:
            continue
        found += 1
        outs = []

        class Ru(ai.Rule):
            def ret(self, A, st, I, v):
                if not A.reporting:
                    return
                lo = st.copy()
                outs.append((self, v, st))

            def call(self, A, st, I, n, args):
                self.cmp = (n, tuple(args))
                A.default_call(st, I, n, args)
                self.leaf = st.env.get(I.res)
                return [(st, None)]
        r = Ru()
        A = ai.Analysis(m, f, r)
        A.run()
        ok = bool(outs) and getattr(r, "cmp", None) == ("strcmp", (P(1), P(2)))
        for _, v, st in outs:
            for neg in (True, False):
                s = st.copy()
                if not A.constrain(s, r.leaf, ((-(1 << 31), -1),) if neg else ((0, (1 << 31) - 1),)):
                    continue
                S = A.iset(s, v)
                ok = ok and S in (((1, 1),), ((-1, -1),)) if neg else ok and S == ((0, 0),)
        R.check(ok, "order", "hash.h:comparator", "table entries are ordered by strcmp of the whole names",
                "table entries are not ordered by strcmp of the whole names", "comparator")
    if not found:
        raise AnalysisBroken("ordering of the symbol tables not found")


# ------------------------------------------------------------------ S02
def decided(A, st, e, zero):
    S = A.iset(st, e)
    if zero:
        return S == ((0, 0),)
    return not any(a <= 0 <= b for a, b in S)


class AddRule(ai.Rule):
    """What a defining function found, reported and stored."""

    retsplit = True

    def __init__(self, m, outs):
        self.m, self.outs = m, outs
        self.offs = {field(m, t, n) for t, n in (("label_t", "name"), ("label_t", "value"), ("label_t", "line_num"),
                     ("label_t", "input_file"), ("define_t", "name"), ("define_t", "contents"), ("define_t", "input_file"),
                     ("define_t", "num_args"))}

    def key(self, A, st):
        l, d = st.ts[:2]
        return st.ts, [x and (decided(A, st, x, True), decided(A, st, x, False)) for x in (l, d)].__repr__(), \
            decided(A, st, P(1), False)

    def init(self, A, st):
        # found label, found define, error, warning, inserted object, stored fields of the new object
        st.ts = (None, None, False, False, None, ())
        self.mode(A, st)

    def mode(self, A, st):
        pass

    def load(self, A, st, I, addr):
        if addr == G("mode"):
            return C(1)
        return None

    def store(self, A, st, I, addr, val):
        b, o = ai.split(addr)
        if o in self.offs and (call_of(b) in ("malloc", "calloc") or b == P(1) or b in st.ts[:2]):
            t = dict((x, y) for x, y in st.ts[5])
            t[(b, o)] = val
            st.ts = st.ts[:5] + (tuple(sorted(t.items(), key=repr)),)

    def call(self, A, st, I, n, args):
        l, d, e, w, ins, fl = st.ts
        if n in ("search_labels", "search_defines", "search_local_defines"):
            A.default_call(st, I, n, args)
            leaf = st.env[I.res]
            A.constrain(st, leaf, ((0, (1 << 47) - 1),))
            st.ts = ((leaf, d) if n == "search_labels" else (l, leaf)) + (e, w, ins, fl)
            return [(st, leaf)]
        if n in ("show_error", "show_fatal_error", "SetLastSPASMError"):
            e = True
        elif n in ("show_warning", "SetLastSPASMWarning"):
            w = True
        elif n == "hash_insert":
            ins = (args[0], args[1], A.load_expr(st, args[1], 8, 64))
        else:
            return None
        if n != "hash_insert" or True:
            A.default_call(st, I, n, args)
        st.ts = (l, d, e, w, ins, fl)
        return [(st, None)]

    def ret(self, A, st, I, v):
        if A.reporting:
            self.outs.append((I, st.copy(), v, A))


def check_S02(m, R):
    lf = {n: field(m, "label_t", n) for n in ("name", "value", "line_num", "input_file")}
    df = {n: field(m, "define_t", n) for n in ("name", "contents", "line_num", "input_file", "num_args")}
    f = m.fn("add_label")
    outs = []
    ai.Analysis(m, f, AddRule(m, outs), own_cells(m, 'line_num'), max_visits=4000).run()
    n = {"conflict": 0, "again": 0, "new": 0}
    for I, st, v, A in outs:
        l, d, err, warn, ins, fl = st.ts
        w = fn_where(m, f, I)
        if d is None:
            R.bad("conflict", w, "add_label can return without having looked for a definition of the name", "add_label no search")
            continue
        if not decided(A, st, d, True):
            n["conflict"] += 1
            ok = decided(A, st, d, False) and err and ins is None and decided(A, st, v, True)
            R.check(ok, "conflict", w, "a label named like a definition is reported and refused",
                    "a label named like a definition is not %s" % ("refused" if err else "reported"), "add_label conflict")
            continue
        if l is None:
            R.bad("again", w, "add_label can return without having looked for a label of the name", "add_label no label search")
            continue
        if not decided(A, st, l, True):
            n["again"] += 1
            put = dict(fl).get((l, lf["value"]))
            same = put == P(1, 32) or put is None and same_value(A, st, l, lf["value"])
            R.check(decided(A, st, l, False) and ins is None and v == l, "again", w, "a label defined again keeps its entry",
                    "a label defined again does not keep its entry", "add_label again entry")
            R.check(same, "again", w, "a label defined again has the new value",
                    "a label defined again does not get the new value", "add_label again value")
            R.check(warn or err or put is None, "again", w, "a label defined again with another value is reported",
                    "a label defined again with another value is not reported", "add_label again silent")
            continue
        if ins is None:
            R.check(decided(A, st, v, True), "new", w, "only a failed allocation leaves a new label out",
                    "a new label is not entered", "add_label new")
            continue
        n["new"] += 1
        t = dict(fl)
        obj = ins[1]
        ok = ins[0] == gval(A, st, "label_table", 8) and v == obj
        R.check(ok, "new", w, "a new label is entered in the label table and returned", "a new label is not entered in the label table",
                "add_label insert")
        R.check(t.get((obj, lf["value"])) == P(1, 32), "new", w, "a new label has the given value",
                "a new label does not have the given value", "add_label value")
        R.check(call_of(t.get((obj, lf["input_file"]), C(0))) in ("strdup", "strndup"), "new", w, "a new label keeps its own copy of the file name",
                "a new label does not keep its own copy of the file name", "add_label file")
        R.check(t.get((obj, lf["line_num"])) == gval(A, st, "line_num"), "new", w, "a new label has the current line",
                "a new label does not have the current line", "add_label line")
    R.check(all(n.values()), "new", fn_where(m, f), "add_label tells conflicts, redefinitions and new names apart",
            "add_label does not tell conflicts, redefinitions and new names apart: %s" % n, "add_label cases")

    f = m.fn("add_define")
    outs = []
    ai.Analysis(m, f, AddRule(m, outs), own_cells(m, 'line_num'), max_visits=4000).run()
    n = {"conflict": 0, "again": 0, "new": 0}
    flag = ("g", "*redefined")
    for I, st, v, A in outs:
        l, d, err, warn, ins, fl = st.ts
        w = fn_where(m, f, I)
        fl0 = dict(fl).get((P(1), 0))
        hasflag = decided(A, st, P(1), False)
        if l is None:
            # an empty name is refused before the tables are looked at
            R.check(err and ins is None and decided(A, st, v, True), "conflict", w, "a definition without a name is refused",
                    "add_define can return without having looked for a label of the name", "add_define no label search")
            continue
        if not decided(A, st, l, True):
            n["conflict"] += 1
            ok = decided(A, st, l, False) and err and ins is None and decided(A, st, v, True)
            R.check(ok, "conflict", w, "a definition named like a label is reported and refused",
                    "a definition named like a label is not %s" % ("refused" if err else "reported"), "add_define conflict")
            continue
        if d is None:
            R.bad("again", w, "add_define can return without having looked for a definition of the name", "add_define no search")
            continue
        if not decided(A, st, d, True):
            n["again"] += 1
            R.check(decided(A, st, d, False) and ins is None and v == d, "again", w, "an existing definition is the one redefined",
                    "an existing definition is not the one redefined", "add_define again entry")
            if hasflag:
                R.check(fl0 in (C(1), C(-1)), "again", w, "the caller learns of the redefinition",
                        "the caller does not learn of the redefinition", "add_define again flag")
            R.check(dict(fl).get((d, df["num_args"])) == C(0), "again", w,
                    "the arguments of the old definition are gone", "the arguments of the old definition stay", "add_define again args")
            continue
        if ins is None:
            R.check(decided(A, st, v, True), "new", w, "only a failed allocation leaves a new definition out",
                    "a new definition is not entered", "add_define new")
            continue
        n["new"] += 1
        t = dict(fl)
        obj = ins[1]
        R.check(ins[0] == gval(A, st, "define_table", 8) and v == obj, "new", w, "a new definition is entered in the table and returned",
                "a new definition is not entered in the table", "add_define insert")
        R.check(t.get((obj, df["contents"])) == C(0) and t.get((obj, df["num_args"])) == C(0), "new", w,
                "a new definition starts without contents and arguments", "a new definition does not start empty", "add_define empty")
        R.check(call_of(t.get((obj, df["input_file"]), C(0))) in ("strdup", "strndup"), "new", w, "a new definition keeps its own copy of the file name",
                "a new definition does not keep its own copy of the file name", "add_define file")
        if hasflag:
            R.check(fl0 == C(0), "new", w, "the caller learns that the definition is new",
                    "a new definition is taken for a redefinition", "add_define new flag")
    R.check(all(n.values()), "new", fn_where(m, f), "add_define tells conflicts, redefinitions and new names apart",
            "add_define does not tell conflicts, redefinitions and new names apart: %s" % n, "add_define cases")
    contents_rule(m, R, df)
    table_rule(m, R)
    carried_rule(m, R)
    order_rule(m, R)
    R.need("conflict", 3)
    R.need("again", 6)
    R.need("new", 8)
    R.need("contents", 2)
    R.need("entry", 2)


def same_value(A, st, l, off):
    """The path is one on which the stored and the new value are known to be equal."""
    cur = A.load_expr(st, ai.add(64, l, off), 4, 32)
    if cur == P(1, 32):
        return True
    e, neg = ai.cmpexpr("eq", 32, cur, P(1, 32))
    d = A.decide(st, e)
    return d is not None and bool(d) != neg


def contents_rule(m, R, df):
    """A definition that is set has the given text, or, when redefined, what that text stands for."""
    f = m.fn("set_define")
    outs = []

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            self.c0 = A.load_expr(st, ai.add(64, P(0), df["contents"]), 8, 64)
            self.t0 = A.load_expr(st, G("define_table"), 8, 64)
            self.a0 = A.load_expr(st, G("arg_list"), 8, 64)
            self.org = {}
            st.ts = None        # the text stored

        def key(self, A, st):
            return st.ts, A.iset(st, P(3, A.wid(f.params[3][1]))), \
                decided(A, st, self.c0, True)

        def store(self, A, st, I, addr, val):
            if addr == ai.add(64, P(0), df["contents"]):
                st.ts = val if val != C(0) else None

        def call(self, A, st, I, n, args):
            A.default_call(st, I, n, args)
            if I.res is not None:
                self.org[st.env[I.res]] = (n, tuple(args))
            return [(st, None)]

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append((I, st.copy(), A, self))

    def text(r, e, depth=0):
        """The kinds of text an expression can be."""
        if depth > 8:
            return {"?"}
        if e == P(1):
            return {"given"}
        if e[0] == "sel":
            return text(r, e[3], depth + 1) | text(r, e[4], depth + 1)
        if e in r.org:
            n, a = r.org[e]
            if n == "strdup":
                return text(r, a[0], depth + 1)
            if n == "strndup":
                if a[0] == P(1) and a[1] in (P(2, 32), ai.cast("sext", 64, P(2, 32), 32)):
                    return {"given"}
                return {"?"}
            if n == "expand_expr":
                return {"expanded " + x for x in text(r, a[0], depth + 1)}
        if e[0] == "x" and e[1][0] == "phi":
            out = set()
            for J in f.instrs():
                if J.op == "phi" and J.res == e[1][2]:
                    for o in J.ops:
                        D = [K for K in f.instrs() if o[0] == "v" and K.res == o[1]]
                        leaf = [x for x in r.org if D and x[1][:3] == ("call", D[0].bb.name, D[0].idx)]
                        out |= text(r, leaf[0], depth + 1) if leaf else {"?"}
            return out or {"?"}
        return {"?"}
    A = ai.Analysis(m, f, Ru(), max_visits=4000)
    A.run()
    for I, st, A, r in outs:
        if st.ts is None:
            R.bad("contents", fn_where(m, f, I), "set_define can return without having set the contents", "set_define none")
            continue
        red = A.iset(st, P(3, A.wid(f.params[3][1])))
        plain = red == ((0, 0),) or decided(A, st, r.c0, True)
        t = text(r, st.ts)
        want = {"given"} if plain else {"expanded given"}
        R.check(t == want, "contents", fn_where(m, f, I),
                "a definition %s" % ("has the text it was given" if plain else "set again has what the text it was given stands for"),
                "a definition %s" % ("does not get the text it was given" if plain else "set again does not get what its text stands for"),
                "set_define " + ("plain" if plain else "again"))
        for g, e0 in (("define_table", r.t0), ("arg_list", r.a0)):
            R.check(A.load_expr(st, G(g), 8, 64) == e0, "contents", fn_where(m, f, I), "set_define leaves %s in place" % g,
                    "set_define can return with another %s in place" % g, "set_define " + g)


def carried_rule(m, R):
    """Whoever asks whether the name was defined before passes the answer on when it sets the text."""
    for f in m.own:
        defs = {I.res: I for I in f.instrs() if I.res is not None}
        flags = {}
        for I in f.instrs():
            if I.op == "call" and m.callee_name(I) == "add_define" and I.ops[1][0] == "v":
                flags[I.res] = I.ops[1][1]
        if not flags:
            continue

        def src(v, seen=()):
            if v[0] == "v" and v[1] in defs and v[1] not in seen:
                D = defs[v[1]]
                if D.op in ("trunc", "zext", "sext", "bitcast", "icmp"):
                    return src(D.ops[0], seen)
                if D.op == "load":
                    return {D.ops[0]}
                if D.op in ("phi", "select"):
                    ops = D.ops if D.op == "phi" else D.ops[1:]
                    return set().union(*[src(o, seen + (v[1],)) for o in ops])
            return {v}
        for I in f.instrs():
            if I.op != "call" or m.callee_name(I) != "set_define":
                continue
            reg = src(I.ops[0])
            fl = [a for r, a in flags.items() if ("v", r) in reg or I.ops[0] == ("v", r)]
            if not fl:
                continue
            const = m.cstring(I.ops[1]) is not None if I.ops[1][0] in ("g", "cgep") else False
            ok = const or src(I.ops[3]) == {("v", fl[0])}
            R.check(ok, "carried", fn_where(m, f, I), "%s says whether the definition existed when it sets its text" % f.name,
                    "%s does not say whether the definition existed when it sets its text" % f.name, f.name)
    R.need("carried", 3)


def table_rule(m, R):
    """The table operations enter under, and find by, the whole name."""
    f = m.fn("hash_lookup")
    outs = []

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            st.ts = (None, None)    # what was searched for, entry read

        def call(self, A, st, I, n, args):
            key = None
            if n == "find":
                key = A.load_expr(st, args[1], 8, 64)
            A.default_call(st, I, n, args)
            if n == "find":
                st.ts = (key, None)
            elif n == "operator->":
                st.ts = (st.ts[0], st.env[I.res])
            return [(st, None)]

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append((st.ts, v))
    ai.Analysis(m, f, Ru()).run()
    ok = bool(outs) and any(v != C(0) for _, v in outs)
    for (key, it), v in outs:
        ok = ok and key == P(1)
        if v != C(0):
            ok = ok and v[0] == "x" and v[1][0] == "ld" and it is not None and v[1][1] == ai.add(64, it, 8)
    R.check(ok, "entry", fn_where(m, f), "a looked-up name yields the entry stored under it or nothing",
            "a looked-up name does not yield the entry stored under it", "hash_lookup")
    f = m.fn("hash_insert")
    good = []

    class Rs(ai.Rule):
        def init(self, A, st):
            st.ts = (None, False)

        def call(self, A, st, I, n, args):
            A.default_call(st, I, n, args)
            if n == "operator[]":
                st.ts = (st.env[I.res] if args[1] == P(1) else None, st.ts[1])
            return [(st, None)]

        def store(self, A, st, I, addr, val):
            if addr == st.ts[0] and val == P(1):
                st.ts = (st.ts[0], True)

        def ret(self, A, st, I, v):
            if A.reporting:
                good.append(st.ts[1])
    ai.Analysis(m, f, Rs()).run()
    R.check(bool(good) and all(good), "entry", fn_where(m, f), "an entry is stored under its own name",
            "an entry is not stored under its own name", "hash_insert")


# ------------------------------------------------------------------ S03
EVALS = ("eval", "parse_num", "parse_f", "expand_expr", "parse_num_full", "expand_expr_full", "parse_emit_string", "parse_args")


def openers(m):
    """{function: index of the parameter through which it hands an open scope to its caller (None: returns it)}."""
    r = {"add_arg_set": None}
    f = m.fn("parse_args", False)
    if f is not None:
        for k, (reg, t) in enumerate(f.params):
            if k == 2:
                r["parse_args"] = k
    return r


class Scopes(ai.Rule):
    retsplit = True

    def __init__(self, m, f, op, nonnull=True):
        self.m, self.f, self.op = m, f, op
        self.outs, self.bad, self.evals, self.opens = [], [], [], 0

    def init(self, A, st):
        self.a0 = A.load_expr(st, G("arg_list"), 8, 64)
        st.mem[(G("arg_list"), 0)] = (self.a0, 8)
        # open scopes, innermost last; what the variables that receive scopes hold
        st.ts = ((), ())
        self.slots = set()
        for I in self.f.instrs():
            n = self.m.callee_name(I) if I.op == "call" else None
            if n in self.op and self.op[n] is not None and I.ops[self.op[n]][0] == "v":
                self.slots.add(I.ops[self.op[n]][1])

    def load(self, A, st, I, addr):
        if addr[0] != "g" and self.f.name in self.op:
            A.constrain(st, addr, PTR)
        op = st.ts[0]
        for k, h in enumerate(op):
            if addr == ai.add(64, h, 8):
                return op[k - 1] if k else self.a0
        return dict(st.ts[1]).get(addr)

    def put(self, st, addr, val):
        d = dict(st.ts[1])
        d[addr] = val
        st.ts = (st.ts[0], tuple(sorted(d.items(), key=repr)))

    def cur(self, A, st):
        return A.load_expr(st, G("arg_list"), 8, 64)

    def call(self, A, st, I, n, args):
        op = st.ts[0]
        keep = self.cur(A, st)
        if A.reporting and n in EVALS and self.f.name == "parse_args":
            self.evals.append((I, keep == self.a0))
        A.default_call(st, I, n, args)
        st.mem[(G("arg_list"), 0)] = (keep, 8)
        if n == "add_arg_set":
            h = st.env[I.res]
            A.constrain(st, h, PTR)
            st.mem[(G("arg_list"), 0)] = (h, 8)
            A.store_expr(st, ai.add(64, h, 8), 8, keep, ("w", I.bb.name, I.idx))
            if h not in op:
                st.ts = (op + (h,), st.ts[1])
            elif A.reporting:
                self.bad.append((I, "opens a scope again that is still open"))
            self.opens += 1
            return [(st, st.env.get(I.res))]
        if n in self.op:
            slot = args[self.op[n]]
            self.opens += 1
            out = []
            # nothing opened
            s = st.copy()
            out.append((s, None))
            h = ("x", ("call", I.bb.name, I.idx, "scope"), 64)
            A.purge(st, h)
            A.constrain(st, h, PTR)
            if I.res is not None:
                A.constrain(st, st.env[I.res], PTR)       # NULL is only returned when nothing was opened (rule `null`)
            A.store_expr(st, slot, 8, h, ("w", I.bb.name, I.idx))
            st.mem[(G("arg_list"), 0)] = (h, 8)
            if h not in op:
                st.ts = (op + (h,), st.ts[1])
            elif A.reporting:
                self.bad.append((I, "opens a scope again that is still open"))
            self.put(st, slot, h)
            if decided(A, st, slot, True):
                return out
            return out + [(st, st.env.get(I.res))]
        if n == "remove_arg_set":
            x = args[0]
            if op and x == op[-1]:
                st.ts = (op[:-1], st.ts[1])
                st.mem[(G("arg_list"), 0)] = (op[-2] if len(op) > 1 else self.a0, 8)
            elif not decided(A, st, x, True):
                if A.reporting:
                    self.bad.append((I, "closes a scope that is not the innermost one it opened"))
        return [(st, st.env.get(I.res))]

    def store(self, A, st, I, addr, val):
        if addr[0] == "al" and I.ops[1][0] == "v" and I.ops[1][1] in self.slots or \
                self.f.name in self.op and addr == P(self.op[self.f.name]):
            self.put(st, addr, val)

    def ret(self, A, st, I, v):
        if A.reporting:
            self.outs.append((I, st.copy(), v, A))


def check_S03(m, R):
    op = openers(m)
    mr = own_cells(m, "arg_list")
    fs = {}
    for n in list(op) + ["remove_arg_set"]:
        for f, I in callers(m, n):
            fs[f.name] = f
    for f in m.own:
        if any(I.op == "store" and I.ops[1] == ("g", sym(m, "arg_list")) for I in f.instrs()):
            fs[f.name] = f
    for name in sorted(fs):
        if name in ("add_arg_set", "remove_arg_set"):
            continue
        f = fs[name]
        r = Scopes(m, f, op)
        ai.Analysis(m, f, r, mr, max_visits=6000).run()
        for I, what in r.bad:
            R.bad("balance", fn_where(m, f, I), "%s %s" % (name, what), name + " close")
        gives = name in op
        for I, st, v, A in r.outs:
            o = st.ts[0]
            w = fn_where(m, f, I)
            if not gives:
                R.check(not o, "balance", w, "%s has closed every scope it opened" % name,
                        "%s can return with a scope of arguments still open" % name, name)
            else:
                slot = P(op[name])
                R.check(len(o) <= 1 and (not o or dict(st.ts[1]).get(slot) == o[0]), "balance", w,
                        "%s hands the scope it opened to its caller" % name,
                        "%s can return with a scope its caller does not get" % name, name)
                R.check(not o or decided(A, st, v, False), "null", w, "%s opens nothing when it fails" % name,
                        "%s can fail with a scope open" % name, name)
            want = o[-1] if o else r.a0
            R.check(r.cur(A, st) == want, "in force", w, "%s leaves the right scopes in force" % name,
                    "%s can return with other scopes in force" % name, name)
        for I, ok in r.evals:
            R.check(ok, "arguments", fn_where(m, f, I), "arguments are evaluated in the scopes of the invocation",
                    "an argument is evaluated where the arguments before it are already visible", name + " " + m.callee_name(I))
    # every parameter is set, so that none shows through from the invocation around this one
    for name in sorted(op):
        if name in fs and any(I.op == "call" and m.callee_name(I) == "add_arg" for I in fs[name].instrs()):
            params_rule(m, R, name, fs[name])
    # opening and closing
    for name in ("add_arg_set", "remove_arg_set"):
        scope_op(m, R, name, mr)
    list_ops(m, R)
    for name in ("search_defines", "search_local_defines"):
        if name == "search_local_defines" and not callers(m, name):
            continue
        lookup_rule(m, R, name, mr)
    R.need("balance", 6)
    R.need("in force", 6)
    R.need("arguments", 1)
    R.need("scope", 5)
    R.need("search", 4)


class Params(ai.Rule):
    """Counts add_arg calls against the counter that selects the parameter."""
    retsplit = True

    def __init__(self, m, f, opened):
        self.m, self.f, self.counters, self.names, self.opened = m, f, set(), {}, opened
        self.rounds, self.outs = {}, []

    def init(self, A, st):
        st.ts = (self.opened, 0)

    def key(self, A, st):
        return st.ts

    def call(self, A, st, I, n, args):
        A.default_call(st, I, n, args)
        opened, added = st.ts
        if I.res is not None and n in ("strdup", "__strdup", "_strdup", "strndup"):
            self.names[st.env[I.res]] = args[0]
        if n == "add_arg_set":
            opened = True
        if n == "add_arg":
            added += 1
            for x in ai.subexprs(self.names.get(args[0], args[0])):
                if x[0] == "x" and x[1][0] == "ld":
                    for y in ai.subexprs(x[1][1]):
                        if y[0] == "x" and y[1][0] == "phi" and isinstance(y[1][2], str):
                            self.counters.add(y)
        st.ts = (opened, min(added, 3))
        return [(st, st.env.get(I.res))] if I.res is not None else None

    def back(self, A, st, src, dst):
        opened, added = st.ts
        for c in self.counters:
            if c[1][1] == dst:
                v = st.env.get(c[1][2])
                b, k = ai.split(v) if v is not None else (None, 0)
                if b == c:
                    self.rounds[(src, c[1][2], k, added)] = self.f.bmap[src].ins[-1]
        st.ts = (opened, 0)

    def ret(self, A, st, I, v):
        if A.reporting and st.ts[0]:
            self.outs.append((I, self.all_set(A, st)))

    def all_set(self, A, st):
        """The counter has reached the number of parameters."""
        for e, S in list(st.cons.items()):
            if e[0] != "cmp" or len(S) != 1 or S[0][0] != S[0][1]:
                continue
            for a, b, op in ((e[3], e[4], e[1]), (e[4], e[3], {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(e[1], e[1]))):
                if a not in self.counters:
                    continue
                if not (b[0] == "x" and b[1][0] == "ld" and ai.split(b[1][1])[0][0] == "x" and ai.split(b[1][1])[0][1][0] == "param"):
                    continue
                if (op, S[0][0]) in (("slt", 0), ("sge", 1), ("ult", 0), ("uge", 1), ("eq", 1), ("ne", 0)):
                    return True
        return False


def params_rule(m, R, name, f, opened=False):
    r = Params(m, f, opened)
    ai.Analysis(m, f, r, max_visits=6000).run()
    if not r.counters:
        return
    # part of the work may be another function's
    parts = [g for g in m.own if g is not f and g.name not in ("add_arg", name) and any(I.op == "call" and m.callee_name(I) == "add_arg" for I in g.instrs())
             and any(I.op == "call" and m.callee_name(I) == g.name for I in f.instrs())]
    for g in parts:
        params_rule(m, R, g.name, g, True)
    for I, ok in r.outs if not parts else ():
        R.check(ok, "shadowed", fn_where(m, f, I), "%s sets every parameter before it returns" % name,
                "%s can return with parameters not set: the ones of the invocation around it show through" % name, name + " parameters")
    for (src, c, k, added), I in sorted(r.rounds.items()):
        R.check(k <= added, "shadowed", fn_where(m, f, I), "%s sets a parameter each time it goes on to the next" % name,
                "%s goes on to the next parameter without setting this one" % name, name + " step")


def scope_op(m, R, name, mr):
    f = m.fn(name)
    outs = []

    class Ru(ai.Rule):
        retsplit = True

        def init(self, A, st):
            self.a0 = A.load_expr(st, G("arg_list"), 8, 64)
            self.org = {}
            st.ts = None        # table released

        def key(self, A, st):
            return st.ts, A.iset(st, P(0)) if f.params else None

        def call(self, A, st, I, n, args):
            keep = A.load_expr(st, G("arg_list"), 8, 64)
            A.default_call(st, I, n, args)
            st.mem[(G("arg_list"), 0)] = (keep, 8)
            if I.res is not None:
                self.org[st.env[I.res]] = (n, tuple(args))
            if n == "hash_free":
                st.ts = args[0]
            return [(st, st.env.get(I.res))]

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append((I, st.copy(), v, A, self))
    ai.Analysis(m, f, Ru(), mr).run()
    for I, st, v, A, r in outs:
        cur = A.load_expr(st, G("arg_list"), 8, 64)
        n, a = r.org.get(cur, (None, ()))
        if name == "add_arg_set":
            ok = n == "list_prepend" and a[0] == r.a0 and r.org.get(a[1], (0,))[0] == "hash_init" and v == cur
            R.check(ok, "scope", fn_where(m, f, I), "a new scope is the innermost one",
                    "a new scope is not put before the others", name)
        elif decided(A, st, P(0), True):
            R.check(cur == r.a0, "scope", fn_where(m, f, I), "closing nothing changes nothing",
                    "closing no scope changes the scopes in force", name + " null")
        else:
            R.check(n == "list_remove" and a == (r.a0, P(0)), "scope", fn_where(m, f, I), "a closed scope is taken off the list",
                    "a closed scope is not taken off the list", name)
            R.check(st.ts is not None and st.ts[0] == "x" and st.ts[1][0] == "ld" and st.ts[1][1] == P(0), "scope", fn_where(m, f, I),
                    "the table of a closed scope is released", "the table of a closed scope is not released", name + " table")


def list_ops(m, R):
    f = m.fn("list_prepend")
    outs = []

    class Ru(ai.Rule):
        retsplit = True

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append((I, st.copy(), v, A))
    ai.Analysis(m, f, Ru()).run()
    for I, st, v, A in outs:
        ok = call_of(v) in ("malloc", "calloc") and A.load_expr(st, v, 8, 64) == P(1) and A.load_expr(st, ai.add(64, v, 8), 8, 64) == P(0)
        R.check(ok, "scope", fn_where(m, f, I), "list_prepend puts the entry first", "list_prepend does not put the entry first", "list_prepend")
    f = m.fn("list_remove")
    outs = []

    class Rr(ai.Rule):
        retsplit = True

        def init(self, A, st):
            st.env[f.params[1][0]] = P(0)        # the innermost scope is the first entry
            self.nx = A.load_expr(st, ai.add(64, P(0), 8), 8, 64)

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append((I, v, self))
    ai.Analysis(m, f, Rr()).run()
    for I, v, r in outs:
        R.check(v == r.nx, "scope", fn_where(m, f, I), "list_remove takes the first entry off", "list_remove does not take the first entry off", "list_remove")


def lookup_rule(m, R, name, mr):
    """Scopes are searched innermost first, every one of them, and global definitions last."""
    f = m.fn(name)
    outs, bad, seen = [], [], {"local": 0, "next": 0, "global": 0}
    phis = {}
    body = {I.bb.name for I in f.instrs() if I.op == "call" and m.callee_name(I) == "hash_lookup"}

    class Ru(ai.Rule):
        def init(self, A, st):
            self.a0 = A.load_expr(st, G("arg_list"), 8, 64)
            # result of the last search (None: none yet)
            st.ts = (None, None)

        def key(self, A, st):
            return st.ts, st.ts[0] and (decided(A, st, st.ts[0], True), decided(A, st, st.ts[0], False)), \
                tuple(A.iset(st, P(k, t.n)) if t.k == "i" and t.n < 32 else None for k, (r, t) in enumerate(f.params))

        def back(self, A, st, src, dst):
            if st.ts[0] is not None and A.loops.get(dst, set()) & body:
                if A.reporting and not decided(A, st, st.ts[0], True) and st.ts[1] != "g":
                    bad.append((None, "goes on to the next scope although the name was found"))
                st.ts = (C(0), "l")

        def load(self, A, st, I, addr):
            if addr == G("case_sensitive"):
                return C(1)
            return None

        def call(self, A, st, I, n, args):
            if n in ("strup", "free"):
                return None
            if n != "hash_lookup":
                keep = A.load_expr(st, G("arg_list"), 8, 64)
                A.default_call(st, I, n, args)
                st.mem[(G("arg_list"), 0)] = (keep, 8)
                return [(st, st.env.get(I.res))]
            last, node = st.ts
            t = args[0]
            glob = t == A.load_expr(st, G("define_table"), 8, 64)
            nd = None
            if not glob and t[0] == "x" and t[1][0] == "ld":
                nd = t[1][1]
            if last is not None and nd is not None and nd == node and args[1] == P(0):
                return [(st, last)]     # the same search again
            if A.reporting:
                if last is not None and not decided(A, st, last, True):
                    bad.append((I, "goes on searching after the name was found"))
                if glob:
                    seen["global"] += 1
                elif nd is None:
                    bad.append((I, "searches another table"))
                elif nd == self.a0:
                    seen["local"] += 1
                elif nd[0] == "x" and nd[1][0] == "ld" and nd[1][1][0] == "+" or nd[0] == "x" and nd[1][0] == "phi":
                    seen["next"] += 1
                    phis.setdefault(nd, set())
                else:
                    bad.append((I, "searches a scope that is not in the list"))
                if args[1] != P(0):
                    bad.append((I, "searches another name"))
            keep = A.load_expr(st, G("arg_list"), 8, 64)
            A.default_call(st, I, n, args)
            st.mem[(G("arg_list"), 0)] = (keep, 8)
            leaf = st.env[I.res]
            st.ts = (leaf, "g" if glob else nd)
            return [(st, st.env.get(I.res))]

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append((I, st.copy(), v, A))
    A = ai.Analysis(m, f, Ru(), mr, max_visits=4000)
    A.run()
    w = fn_where(m, f)
    # the scopes walked are the list's, one after the other
    defs = {I.res: I for I in f.instrs() if I.res is not None}
    for nd in phis:
        if nd[1][0] != "phi" or not isinstance(nd[1][2], str):
            continue
        d = defs.get(nd[1][2])
        ok = d is not None and d.op == "phi"
        for o in d.ops if ok else ():
            ok = ok and walk_step(f, defs, o, nd[1][2], sym(m, "arg_list"), set())
        R.check(ok, "search", w, "%s walks the scopes one after the other from the innermost" % name,
                "%s does not walk the scopes one after the other from the innermost" % name, name + " walk")
    for I, what in bad:
        R.bad("search", fn_where(m, f, I), "%s %s" % (name, what), name + " " + what)
    R.check(seen["local"] + seen["next"] > 0, "search", w, "%s searches the scopes of arguments" % name,
            "%s does not search the scopes of arguments" % name, name + " local")
    if name == "search_defines":
        R.check(seen["global"] > 0, "search", w, "%s searches the global definitions" % name,
                "%s does not search the global definitions" % name, name + " global")
    for I, st, v, A in outs:
        last, node = st.ts
        ok = v == last or decided(A, st, v, True) if last is not None else decided(A, st, v, True)
        if last is not None and v != last and not decided(A, st, last, True):
            ok = False
        R.check(ok, "search", fn_where(m, f, I), "%s returns what it found" % name, "%s does not return what it found" % name, name + " result")
        if name == "search_defines":
            R.check(node == "g" or last is not None and decided(A, st, last, False), "search", fn_where(m, f, I),
                    "%s looks at the global definitions when no scope has the name" % name,
                    "%s can give up before it has looked at the global definitions" % name, name + " end")


def walk_step(f, defs, o, phi, g, seen):
    """The value is the list's first node or the node after the phi's."""
    if o == ("v", phi):
        return True
    if o[0] != "v" or o[1] not in defs or o[1] in seen:
        return o[0] == "v" and o[1] in seen
    d = defs[o[1]]
    if d.op == "phi":
        return all(walk_step(f, defs, x, phi, g, seen | {o[1]}) for x in d.ops)
    if d.op != "load":
        return False
    p = d.ops[0]
    if p == ("g", g):
        return True
    if p[0] == "v" and p[1] in defs and defs[p[1]].op == "gep":
        q = defs[p[1]]
        return q.ops[0][0] == "v" and q.ops[0][1] in seen | {phi} and [x for x in q.ops[1:]] == [("c", 0), ("c", 1)]
    return False


CHECKS = {
    "S01": (check_S01, "proof", ["modp_toupper_copy maps a string to upper case; std::map finds entries by its ordering."]),
    "S02": (check_S02, "proof", ["std::map finds entries by its ordering."]),
    "S03": (check_S03, "proof", ["std::map finds entries by its ordering."]),
}
