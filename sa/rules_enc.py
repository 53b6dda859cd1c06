"""E01-E05, E09: instruction tables, operand bytes and ranges, instruction layout, counters."""
import ai
import bits
import oracle_z80
from ai import C
from ir import AnalysisBroken
from util import P, G, gval, split_mode, const_returns, fn_where, errname, setstr, modebit

TABLES = {"opcode_list": "Z80", "opcode_list_ez80": "eZ80"}
WIDTH = {"*": 2, "&": 1, "%": 1, "@": 1, "^": 0, "#": 1}


class Row:
    pass


def table_rows(m, lst):
    """Rows of an opcode table in search order (following the `next` links)."""
    fi = m.struct_fields("instr")
    order = sorted(fi, key=lambda k: fi[k][0])
    fo = m.struct_fields("opcode")
    oorder = sorted(fo, key=lambda k: fo[k][0])
    g = m.globals.get(lst)
    if g is None or not g.get("init"):
        raise AnalysisBroken("opcode table %s not found" % lst)
    elems = m.elems(g["type"], g["init"])
    esz = m.size(g["type"].e)
    out = []
    i, seen = 0, set()
    problems = []
    while True:
        if i in seen or not 0 <= i < len(elems):
            problems.append("next link leaves the table or loops at entry %d" % i)
            break
        seen.add(i)
        e = elems[i]
        if e[0] == "zero":
            break
        ent = dict(zip(oorder, e[1]))
        name = m.cstring(ent["name"]) if ent["name"][0] in ("g", "cgep") else None
        if name is None:
            break
        name = name.decode("latin-1")
        n = ent["num_instrs"][1]
        gi = m.globals[m.const_ptr(ent["instrs"])[0]]
        rows = m.elems(gi["type"], gi["init"])
        if n > len(rows):
            problems.append("%s: num_instrs %d exceeds its %d rows" % (name, n, len(rows)))
        for k, r in enumerate(rows[:n]):
            d = dict(zip(order, r[1])) if r[0] == "st" else None
            if d is None:
                problems.append("%s: empty row %d" % (name, k))
                continue
            R = Row()
            R.name = name
            a = m.cstring(d["args"]) if d["args"][0] in ("g", "cgep") else b""
            R.args = (a or b"").decode("latin-1")
            v = d["instr_data"]
            data = v[1] if v[0] == "bytes" else b"\0" * 8 if v[0] == "zero" else bytes(x[1] & 255 for x in v[1])
            R.isize = d["instr_size"][1]
            R.data = tuple(data[:max(R.isize, 0)][::-1])
            R.min, R.max = d["min_exectime"][1], d["max_exectime"][1]
            R.end = (d["end_data"][1] & 255) if d["has_end_data"][1] else None
            R.size = d["size"][1]
            R.pen = d["adl_exectime_penalty"][1]
            R.cap = len(data)
            R.where = "%s:%s[%d]" % (gi.get("file"), gi.get("src"), k)
            out.append(R)
        if len(rows) > n:
            problems.append("%s: %d rows exist but only %d are searched" % (name, len(rows), n))
        nx = ent["next"]
        if nx[0] in ("null", "zero"):
            break
        base, off = m.const_ptr(nx)
        if base != lst or off % esz:
            problems.append("%s: next link does not point into the table" % name)
            break
        i = off // esz
    rest = []
    for j, e in enumerate(elems):
        if j in seen or e[0] == "zero":
            continue
        nm = dict(zip(oorder, e[1]))["name"]
        if nm[0] in ("g", "cgep"):
            rest.append((m.cstring(nm) or b"?").decode("latin-1"))
    if rest:
        problems.append("entries not reachable through the next links: " + " ".join(rest))
    return out, problems


def pattern_matches(pat, text):
    """Would the argument pattern take this text?  Reference matcher of the documented argument syntax: a number
    operand takes everything up to a top-level comma or an unbalanced ')'."""
    i = 0
    for c in pat:
        if c in "*&%@^#":
            if c == "@" and i < len(text) and (text[i].isalnum() or text[i] in "_[]!?"):
                return False
            j, lev = i, 0
            while j < len(text):
                if text[j] == "(":
                    lev += 1
                elif text[j] == ")":
                    if lev == 0:
                        break
                    lev -= 1
                elif text[j] == "," and lev == 0:
                    break
                j += 1
            if j == i and c != "@":
                return False
            i = j
        else:
            if i >= len(text) or text[i].lower() != c.lower():
                return False
            i += 1
    return i == len(text)


SAMPLE = {"*": "1", "&": "1", "%": "1", "@": "+1", "^": "1", "#": "1"}


def check_table(m, R, lst, forms):
    rows, problems = table_rows(m, lst)
    what = TABLES[lst]
    for p in problems:
        R.bad("table-structure", lst, p, "%s:%s" % (lst, p.split(":")[0]))
    R.ok("table-structure", "%s: %d rows reachable in search order" % (lst, len(rows)))
    byname = {}
    for r in rows:
        byname.setdefault(r.name.upper(), []).append(r)
    first = {}
    for r in rows:
        first.setdefault((r.name.upper(), r.args.upper()), r)
    for r in rows:
        k = (r.name.upper(), r.args.upper())
        key = "%s:%s %s" % (what, r.name, r.args)
        if not (0 <= r.isize <= r.cap):
            R.bad("form", r.where, "%s %s: instr_size %d outside the opcode byte array" % (r.name, r.args, r.isize), key)
            continue
        w = forms.get(k)
        if w is None:
            R.bad("form", r.where, "%s %s %s is not a form of the %s instruction set" % (what, r.name, r.args, what), key)
            continue
        if first[k] is not r:
            continue        # a later row of the same spelling can never be selected
        size = len(w["bytes"]) + sum(WIDTH[c] for c in w["kinds"]) + (w["end"] is not None)
        got = (r.data, r.end, r.size)
        want = (w["bytes"], w["end"], size)
        R.check(got == want, "form", r.where,
                "%s %s %s -> %s" % (what, r.name, r.args, enc(want)),
                "%s %s %s is encoded as %s, the instruction set says %s" % (what, r.name, r.args, enc(got), enc(want)), key)
    for (n, a), w in sorted(forms.items()):
        key = "%s:%s %s" % (what, n, a)
        cand = byname.get(n, [])
        own = first.get((n, a))
        if own is None:
            if w["doc"]:
                R.bad("complete", lst, "%s %s %s: documented form missing from the table" % (what, n, a), key)
            continue
        texts = {"".join(SAMPLE.get(c, c) if n != "EX" else c for c in a)}
        if "@" in a:
            texts.add("".join("" if c == "@" else SAMPLE.get(c, c) for c in a))
        for t in texts:
            hit = next((r for r in cand if pattern_matches(r.args, t)), None)
            good = hit is not None and (hit is own or (hit.data, hit.end, hit.size, kinds(hit)) == (own.data, own.end, own.size, kinds(own)))
            R.check(good, "reachable", own.where, "%s %s %s selects its own row" % (what, n, t),
                    "%s `%s %s` is taken by the row `%s`, which hides the form %s %s" % (
                        what, n, t, hit.args if hit else "(none)", n, a), key)
    return rows


def kinds(r):
    return "".join(c for c in r.args if c in WIDTH)


def enc(x):
    by, end, size = x
    return "%s%s size %d" % (" ".join("%02X" % b for b in by), " ..%02X" % end if end is not None else "", size)


def check_E01(m, R):
    check_table(m, R, "opcode_list", oracle_z80.z80())
    selection(m, R)
    mnemonic(m, R)
    R.need("form", 700)
    R.need("mnemonic", 2)
    R.need("complete", 0)
    R.need("reachable", 700)


def check_E02(m, R):
    rows = check_table(m, R, "opcode_list_ez80", oracle_z80.ez80())
    z, _ = table_rows(m, "opcode_list")
    fz = {}
    for r in z:
        fz.setdefault((r.name.upper(), r.args.upper()), r)
    seen = set()
    for r in rows:
        k = (r.name.upper(), r.args.upper())
        if k in seen:
            continue
        seen.add(k)
        o = fz.get(k)
        if o is not None:
            R.check((o.data, o.end, o.size) == (r.data, r.end, r.size), "both-modes", r.where,
                    "%s %s has one encoding in both modes" % k,
                    "%s %s is %s in Z80 mode but %s in eZ80 mode" % (k + (enc((o.data, o.end, o.size)), enc((r.data, r.end, r.size)))),
                    "%s %s" % k)
    selection(m, R)
    ez80_switch(m, R)
    R.need("form", 700)
    R.need("both-modes", 600)


def ez80_switch(m, R):
    """The table searched and MODE_EZ80 always change together: wherever one is set, the other is set on the same path."""
    found = 0
    for f in m.own:
        touches = [I for I in f.instrs() if I.op == "store" and I.ops[1] == ("g", "all_opcodes")
                   and I.ops[0][0] in ("g", "cgep")]
        if not touches:
            continue
        for I in touches:
            tgt = m.const_ptr(I.ops[0])
            if tgt[0] == "opcode_list_ez80":
                found += 1
                okm = any(J.op == "store" and J.ops[1] == ("g", "mode") for J in region(f, I))
                R.check(tgt[1] == 0 and okm, "table-choice", fn_where(m, f, I), "the eZ80 table is selected together with MODE_EZ80",
                        "the eZ80 table is selected without switching the mode to eZ80", f.name)
    R.check(found > 0, "table-choice", "all_opcodes", "some code selects the eZ80 table",
            "nothing selects the eZ80 instruction table", "never-selected")
    g = m.globals["all_opcodes"]
    base, off = m.const_ptr(g["init"])
    R.check(base == "opcode_list" and off == 0, "table-choice", "all_opcodes", "the Z80 table is the default",
            "all_opcodes starts out as %s, not as the Z80 table" % base, "default")


def region(f, I):
    """Instructions control-equivalent with I in the simple sense: its block and the chain of single-succ/pred blocks."""
    out = list(I.bb.ins)
    b = I.bb
    while len(b.succs) == 1 and len(b.succs[0].preds) == 1:
        b = b.succs[0]
        out += b.ins
    b = I.bb
    while len(b.preds) == 1 and len(b.preds[0].succs) == 1:
        b = b.preds[0]
        out += b.ins
    return out


# ------------------------------------------------------------------ the opcode searched for is the whole mnemonic
def mnemonic(m, R):
    """Where the operands are matched, the opcode in hand is one whose whole name equals the whole mnemonic written, in any
    case."""
    f = m.fn("handle_opcode_or_macro")
    fo = m.struct_fields("opcode")
    noff, nxt = fo["name"][0], fo["next"][0]
    phis = [I.res for I in f.instrs() if I.op == "phi" and I.ty.k == "i" and m.size(I.ty) in (1, 8)]
    seen = []
    reach = {I.bb.name for I in f.instrs() if I.op == "call" and m.callee_name(I) == "match_opcode_args"}
    work = list(reach)
    while work:
        for p in f.bmap[work.pop()].preds:
            if p.name not in reach:
                reach.add(p.name)
                work.append(p.name)

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = (None, None)

        def key(self, A, st):
            ks = []
            for r in phis:
                v = st.env.get(r)
                if v is None:
                    continue
                if ai.width(v) == 1 or v[0] == "c":
                    if v[0] == "c":
                        ks.append((r, v))
                elif not (v[0] == "x" and v[1][0] == "phi"):
                    ks.append((r, v))
            return (st.ts, tuple(ks))

        def call(self, A, st, I, name, args):
            sl, cp = st.ts
            if name == "strlen":
                if sl is not None and sl.res in st.env and A.val(st, sl.ops[0]) == args[0]:
                    return [(st, st.env[sl.res])]
                A.default_call(st, I, name, args)
                st.ts = (I, cp)
                return [(st, st.env[I.res])]
            if name in ("strncasecmp", "strcasecmp", "strncmp", "strcmp", "_strnicmp", "_stricmp"):
                A.default_call(st, I, name, args)
                st.ts = (sl, I)
                return [(st, st.env[I.res])]
            if name == "match_opcode_args":
                if A.reporting:
                    self.at(A, st, I, args)
                return []
            return None

        def edge(self, A, st, src, dst):
            return dst in reach

        def back(self, A, st, src, dst):
            if any(J is not None and J.bb.name in A.loops.get(dst, ()) for J in st.ts):
                st.ts = (None, None)

        def at(self, A, st, I, args):
            sl, cp = st.ts
            g = [a for a in args if a[0] == "x" and a[1][0] in ("phi", "ld")]
            if cp is None:
                return seen.append((I, False, "no name has been compared"))
            n = m.callee_name(cp)
            x, y = A.val(st, cp.ops[0]), A.val(st, cp.ops[1])
            if "case" not in n and "icmp" not in n:
                return seen.append((I, False, "names are compared with %s" % n))
            if A.iset(st, A.val(st, ("v", cp.res))) != ((0, 0),):
                return seen.append((I, False, "the name need not have matched"))
            own = lambda e: any(e == A.load_expr(st, ai.add(64, a, noff), 8, 64) for a in args)
            if own(y):
                tok, nm = x, y
            elif own(x):
                tok, nm = y, x
            else:
                return seen.append((I, False, "the opcode used is not the one compared"))
            if n in ("strcasecmp", "_stricmp"):
                return seen.append((I, True, "")) 
            if tok != P(0):
                return seen.append((I, False, "the text compared does not start where the mnemonic starts"))
            ln = A.val(st, cp.ops[2])
            if sl is None or A.val(st, sl.ops[0]) != nm:
                return seen.append((I, False, "the length of the opcode's name is not considered"))
            L = st.env[sl.res]
            T = {e for x in list(st.env.values()) + list(st.cons) + [ln] for e in ai.subexprs(x)
                 if e[0] == "op" and e[1] == "sub" and e[4] == P(0)}
            okL = self.covers(A, st, ln, L)
            okT = any(self.covers(A, st, ln, t) for t in T)
            seen.append((I, okL and okT, "the comparison stops before the end of the %s" % ("mnemonic" if okL else "opcode's name")))

        def covers(self, A, st, n, k):
            if n == k:
                return True
            if n[0] == "sel":
                r = True
                for t, v in ((True, n[3]), (False, n[4])):
                    for s in A.assume(st.copy(), n[2], t):
                        r = r and self.covers(A, s, v, k)
                return r
            for p in ("ult", "slt"):
                e, neg = ai.cmpexpr(p, 64, n, k)
                if e[0] == "cmp":
                    d = A.decide(st, e)
                    if d is not None and bool(d) == neg:
                        return True
                e, neg = ai.cmpexpr(p, 64, k, n)
                if e[0] == "cmp":
                    d = A.decide(st, e)
                    if d is not None and bool(d) != neg:
                        return True
            return False
    A = ai.Analysis(m, f, Ru(), max_visits=6000)
    A.run()
    R.check(bool(seen), "mnemonic", fn_where(m, f), "operands are matched against an opcode", "operands are never matched", "none")
    for I, ok, why in seen:
        R.check(ok, "mnemonic", fn_where(m, f, I), "the opcode in hand carries exactly the name written", why, "whole name")


# ------------------------------------------------------------------ row selection in match_opcode_args
def selection(m, R):
    """match_opcode_args hands out the first row of the group that matches: the row it returns is row i of the
    group for a counter i that starts at 0 and grows by one after each row that failed."""
    f = m.fn("match_opcode_args")
    isz = 1 + max(v[0] for v in m.struct_fields("instr").values())
    isz = (isz + 7) // 8 * 8
    fo = m.struct_fields("opcode")
    pc = None
    for i, (n, t) in enumerate(f.params):
        if m.local_name(f, n) == "curr_opcode":
            pc = i
    pc = 3 if pc is None else pc
    po = len(f.params) - 1
    got = []

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = ("scan",)

        def store(self, A, st, I, addr, val):
            if addr == P(po):
                st.ts = st.ts + ("set",)
                if A.reporting:
                    got.append((I, val, A, st.copy()))
    A = ai.Analysis(m, f, Ru(), max_visits=2000)
    A.run()
    R.check(bool(got), "first-match", fn_where(m, f), "a matching row is handed out",
            "no row is ever stored through the result parameter", "no-store")
    for I, val, A, st in got:
        ok = False
        why = "the row handed out is not indexed by the search counter"
        for e in ai.subexprs(val):
            if e[0] != "x" or e[1][0] != "phi":
                continue
            regs = phi_sources(f, e[1][2])
            for reg in regs:
                J = f.defs.get(reg)
                if J is None or J.op != "phi" or J.bb.name not in A.loops:
                    continue
                body = A.loops[J.bb.name]
                inits = [v for v, b in zip(J.ops, J.x) if b not in body]
                steps = [v for v, b in zip(J.ops, J.x) if b in body]
                if all(v == ("c", 0) for v in inits) and all(step_is(f, v, reg, 1) for v in steps):
                    ix = ai.cast("sext", 64, e, e[2]) if e[2] < 64 else e
                    want = ai.binop("mul", 64, ix, C(isz))
                    if any(x == want for x in ai.subexprs(val)) and bits.linkey(val, 64)[0] == 0:
                        ok = True
                else:
                    why = "the search counter does not run 0,1,2,..."
        if not ok and val[0] == "x" and val[1][0] == "phi":
            ok, why = walking_pointer(m, f, A, val, isz, P(pc), fo["instrs"][0])
        R.check(ok, "first-match", fn_where(m, f, I), "the row handed out is the one the search stopped at",
                why + ": " + bits.show(val), "row-index")


def phi_sources(f, reg):
    """reg and the phis it merely forwards."""
    out, work = [], [reg]
    while work:
        r = work.pop()
        if r in out:
            continue
        out.append(r)
        J = f.defs.get(r)
        if J is not None and J.op == "phi":
            work += [o[1] for o in J.ops if o[0] == "v"]
    return out


def walking_pointer(m, f, A, val, isz, group, off):
    """The row pointer itself walks over the group: starts at the group's rows and grows by one row."""
    for reg in phi_sources(f, val[1][2]):
        J = f.defs.get(reg)
        if J is None or J.op != "phi" or J.bb.name not in A.loops:
            continue
        steps = [v for v, b in zip(J.ops, J.x) if b in A.loops[J.bb.name]]
        good = True
        for v in steps:
            K = f.defs.get(v[1]) if v[0] == "v" else None
            good = good and K is not None and K.op == "gep" and K.ops[0] == ("v", reg) and len(K.ops) == 2 and \
                K.ops[1] == ("c", 1) and m.size(K.x) == isz
        if steps and good:
            return True, ""
    return False, "the row handed out is not the one the search stopped at"


def step_is(f, v, reg, n):
    if v[0] != "v":
        return False
    J = f.defs.get(v[1])
    while J is not None and J.op in ("freeze",):
        J = f.defs.get(J.ops[0][1])
    if J is None:
        return False
    return J.op == "add" and (J.ops[0] == ("v", reg) and J.ops[1] == ("c", n) or J.ops[1] == ("v", reg) and J.ops[0] == ("c", n))


# ------------------------------------------------------------------ write_arg
DIAG = {"SetLastSPASMError": "error", "SetLastSPASMWarning": "warning", "show_error": "error",
        "show_fatal_error": "error", "show_warning": "warning"}


class WriteArg(ai.Rule):
    """Bytes and diagnostics of write_arg for one operand kind and mode."""

    def __init__(self, kind, ez80):
        self.kind, self.ez80, self.exits = kind, ez80, []

    def init(self, A, st):
        A.constrain(st, P(1, 32), ((self.kind, self.kind),))
        st.ts = ((), ())
        return [s for s, on in split_mode(A, st, 64) if on == self.ez80]

    def call(self, A, st, I, name, args):
        w, d = st.ts
        if name == "write_out":
            st.ts = (w + (args[0],), d)
            return [(st, None)]
        if name in DIAG:
            st.ts = (w, d + ((DIAG[name], args[0][1] if args[0][0] == "c" else None),))
            return [(st, None)]
        return None

    def ret(self, A, st, I, v):
        if A.reporting:
            self.exits.append((st.ts[0], st.ts[1], A, st.copy()))


def write_arg_runs(m):
    kindsd = m.enum("ARG_NUM_8")
    out = {}
    for n, v in kindsd.items():
        for ez in (False, True):
            r = WriteArg(v, ez)
            ai.Analysis(m, m.fn("write_arg"), r).run()
            out[(n, ez)] = r.exits
    return out


ALL = ((-(1 << 31), (1 << 31) - 1),)
#            accepted without a diagnostic                                  severity, code name of the diagnostic outside
LIMITS = {
    "ARG_NUM_8": (((-128, 255),), "warning", "8-bit"),
    "ARG_NUM_16": (None, "warning", "16-bit"),
    "ARG_NUM_24": (ALL, None, None),
    "ARG_ADDR_OFFSET": (((-128, 127),), "error", "jump"),
    "ARG_IX_IY_OFFSET": (((-128, 127),), "error", "offset"),
    "ARG_BIT_NUM": (((0, 7),), "error", None),
    "ARG_RST": (tuple((x, x) for x in range(0, 64, 8)), "error", "rst"),
}


def limit_of(kind, ez):
    if kind == "ARG_NUM_16":
        return (((-32768, 65535),) if ez else ALL), "warning", "16-bit"
    return LIMITS[kind]


def operand(A, st, kind, ez):
    """The quantity whose range is limited."""
    v = P(0, 32)
    if kind == "ARG_ADDR_OFFSET":
        mask = 0xFFFFFF if ez else 0xFFFF
        pc = ("x", ("ld", G("program_counter"), 4, "entry"), 32)
        v = ai.binop("and", 32, v, C(mask))
        pc = ai.binop("and", 32, pc, C(mask))
        return ai.binop("sub", 32, v, ai.binop("add", 32, pc, P(2, 32)))
    return v


def check_E05(m, R):
    runs = write_arg_runs(m)
    f = m.fn("write_arg")
    for (kind, ez), exits in sorted(runs.items()):
        if kind not in LIMITS:
            R.bad("limits", fn_where(m, f), "operand kind %s has no specified range" % kind, kind)
            continue
        good, sev, code = limit_of(kind, ez)
        quiet = loud = ()
        lab = "%s (%s)" % (kind, "eZ80" if ez else "Z80")
        for w, d, A, st in exits:
            q = operand(A, st, kind, ez)
            S = bits.range_of(A, st, q)
            if d:
                loud = ai.iunion(loud, S)
                R.check(sev is not None and all(x[0] == sev for x in d) and len(d) == 1, "severity", fn_where(m, f),
                        "%s: one %s" % (lab, sev), "%s raises %s instead of one %s" % (lab, d, sev), lab)
                if code:
                    names = [errname(m, x[1]) for x in d]
                    R.check(all(code in x.lower() for x in names), "diagnostic", fn_where(m, f), "%s raises %s" % (lab, names),
                            "%s raises %s where the %s diagnostic is due" % (lab, names, code), lab)
            else:
                quiet = ai.iunion(quiet, S)
        bad = ai.isub(ALL, good)
        R.check(ai.subset(quiet, good), "accepts-only", fn_where(m, f), "%s: accepted without a diagnostic only %s" % (lab, setstr(good)),
                "%s: values %s pass without a diagnostic (limit %s)" % (lab, setstr(ai.isub(quiet, good)), setstr(good)), lab)
        R.check(ai.subset(loud, bad), "rejects-only", fn_where(m, f), "%s: diagnosed only outside %s" % (lab, setstr(good)),
                "%s: values %s are diagnosed although they are in range %s" % (lab, setstr(ai.iinter(loud, good)), setstr(good)), lab)
    passthrough(m, R)
    R.need("accepts-only", 14)
    R.need("rejects-only", 14)
    R.need("same-operand", 2)


def want_bytes(kind, ez):
    v = P(0, 32)

    def byte(k):
        return ai.binop("lshr", 32, v, C(8 * k))
    if kind in ("ARG_NUM_8", "ARG_IX_IY_OFFSET"):
        return [v]
    if kind == "ARG_NUM_16":
        return [byte(0), byte(1)]
    if kind == "ARG_NUM_24":
        return [byte(0), byte(1), byte(2)]
    if kind == "ARG_ADDR_OFFSET":
        return [operand(None, None, kind, ez)]
    if kind == "ARG_BIT_NUM":
        return [ai.binop("or", 32, ai.binop("mul", 32, ai.binop("and", 32, v, C(7)), C(8)), P(3, 32))]
    if kind == "ARG_RST":
        return [ai.add(32, v, 0xC7)]
    raise AnalysisBroken("operand kind " + kind)


def check_E04(m, R):
    f = m.fn("write_arg")
    runs = write_arg_runs(m)
    for (kind, ez), exits in sorted(runs.items()):
        if kind not in LIMITS:
            R.bad("bytes", fn_where(m, f), "operand kind %s has no specified encoding" % kind, kind)
            continue
        lab = "%s (%s)" % (kind, "eZ80" if ez else "Z80")
        want = want_bytes(kind, ez)
        n = 0
        good_set = limit_of(kind, ez)[0]
        rejected = ()
        for w, d, A, st in exits:
            if any(x[0] == "error" for x in d):
                rejected = ai.iunion(rejected, bits.range_of(A, st, operand(A, st, kind, ez)))
                continue        # rejected operand: no output is produced (D03)
            n += 1
            rng = lambda e: A.iset(st, e)
            good = len(w) == len(want)
            if good and kind == "ARG_RST":
                # checked value by value: the accepted vectors are finitely many
                for lo, hi in A.iset(st, P(0, 32)):
                    for x in range(lo, min(hi, lo + 300) + 1):
                        s2 = st.copy()
                        if A.constrain(s2, P(0, 32), ((x, x),)):
                            got = {y & 255 for lo2, hi2 in A.iset(s2, w[0]) for y in range(lo2, min(hi2, lo2 + 300) + 1)}
                            good = good and got == {0xC7 + x}
            elif good:
                good = all(bits.equal(a, b, 8, rng) for a, b in zip(w, want))
            R.check(good, "bytes", fn_where(m, f), "%s emits %s" % (lab, [bits.show(x) for x in want]),
                    "%s emits %s, expected the low bytes of %s" % (lab, [bits.show(x) for x in w], [bits.show(x) for x in want]), lab)
        lost = ai.iinter(rejected, good_set)
        R.check(not lost, "fits", fn_where(m, f), "%s: every value that fits is emitted" % lab,
                "%s: values %s fit but are refused instead of emitted" % (lab, setstr(lost)), lab)
        R.check(n > 0, "bytes", fn_where(m, f), "%s has an accepting path" % lab, "%s never emits anything" % lab, lab + "-none")
    write_out(m, R)
    layout(m, R, want_order=True)
    passthrough(m, R)
    R.need("bytes", 20)
    R.need("layout", 100)


RAISED = ("SetLastSPASMError", "show_error", "show_fatal_error")


def write_out(m, R):
    """write_out stores exactly the low byte of its argument at the output position and advances it by one."""
    f = m.fn("write_out")
    exits = []

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = ()
            self.p = gval(A, st, "out_ptr", 8)

        def load(self, A, st, I, addr):
            # what happens once assembly has failed has no effect
            return C(0) if addr == G("error_occurred") else None

        def call(self, A, st, I, name, args):
            if name in RAISED:
                st.ts = st.ts + (("failed", None, None, 0),)

        def store(self, A, st, I, addr, val):
            if ai.split(addr)[0] == self.p or ai.mentions(addr, lambda t: t[0] == "ld" and t[1] == G("out_ptr")):
                st.ts = st.ts + (("byte", addr, val, I.ty.n if I.ty.k == "i" else 0),)
            elif addr == G("out_ptr"):
                st.ts = st.ts + (("ptr", val, None, 0),)

        def ret(self, A, st, I, v):
            if A.reporting:
                exits.append((st.ts, A.load_expr(st, G("out_ptr"), 8, 64)))
    r = Ru()
    # listing output must not disturb out_ptr
    ai.Analysis(m, f, r).run()
    for ts, fin in exits:
        by = [x for x in ts if x[0] == "byte"]
        if not by and any(x[0] == "failed" for x in ts):
            continue
        ok = len(by) == 1 and by[0][3] == 8 and bits.equal(by[0][2], P(0, 32), 8)
        ok = ok and ai.split(by[0][1]) == ai.split(r.p) and fin == ai.add(64, r.p, 1)
        R.check(ok, "write_out", fn_where(m, f), "one byte, the low 8 bits of the value, at the output position, which then advances by one",
                "write_out stores %s and leaves the output position at %s" % (
                    [(bits.show(x[1]), bits.show(x[2])) for x in by], bits.show(fin)), "write_out")
    R.check(bool(exits), "write_out", fn_where(m, f), "write_out returns", "write_out never returns", "never")


# ------------------------------------------------------------------ deferral: the operand goes through unchanged
def passthrough(m, R):
    f = m.fn("add_pass_two_expr")
    fe = m.struct_fields("expr_t")
    ends = []

    class Ru(ai.Rule):
        def init(self, A, st):
            st.ts = ()

        def call(self, A, st, I, name, args):
            if name == "parse_num":
                st.ts = st.ts + (("eval", args[0] == P(0), args[1]),)
                self.kill(A, st, I, args)
                leaf = A.callleaf(st, I, name)
                out = []
                for t in (True, False):
                    s = st.copy()
                    for s2 in A.assume(s, ai.binop("and", 8, leaf, C(1)) if leaf[2] == 8 else leaf, t):
                        s2.ts = s2.ts + (("known", t),)
                        out.append((s2, leaf))
                return out
            if name == "write_arg":
                st.ts = st.ts + (("write",) + tuple(A.fold(st, a) for a in args),)
                if A.reporting:
                    ends.append((I, st.ts, A, st.copy()))
                return [(st, None)]
            return None

        def kill(self, A, st, I, args):
            A.default_call(st, I, "parse_num", args)
    ai.Analysis(m, f, Ru()).run()
    direct = 0
    for I, ts, A, st in ends:
        wr = ts[-1][1:]
        known = [x[1] for x in ts if x[0] == "known"]
        ev = [x for x in ts if x[0] == "eval"]
        if known and known[-1] is True:
            direct += 1
            val = A.load_expr(st, ev[-1][2], 4, 32)
            ok = wr[0] == val and wr[1] == P(1, 32) and wr[2] == P(2, 32) and wr[3] == P(3, 32) and ev[-1][1]
            R.check(ok, "same-operand", fn_where(m, f, I), "a known operand is written with its own kind, instruction size and bit pattern",
                    "a known operand is written as write_arg(%s)" % ", ".join(bits.show(x) for x in wr), "known")
    R.check(direct > 0, "same-operand", fn_where(m, f), "known operands are written at once",
            "an operand whose value is known is never written", "known-none")
    f2 = m.fn("run_second_pass")
    ends2 = []

    class R2(ai.Rule):
        def init(self, A, st):
            st.ts = None

        def call(self, A, st, I, name, args):
            if name == "parse_num":
                A.default_call(st, I, name, args)
                st.ts = ("ev", args[0], args[1], A.load_expr(st, G("expr_list"), 8, 64))
                return [(st, A.callleaf(st, I, name))]
            if name == "write_arg":
                if A.reporting:
                    ends2.append((I, st.ts, args, A, st.copy()))
                return [(st, None)]
            return None
    ai.Analysis(m, f2, R2()).run()
    R.check(bool(ends2), "same-operand", fn_where(m, f2), "queued operands are written in pass two",
            "pass two never writes a queued operand", "deferred-none")
    for I, ts, args, A, st in ends2:
        node = A.load_expr(st, G("expr_list"), 8, 64)
        fld = lambda n, w=4: A.load_expr(st, ai.add(64, node, fe[n][0]), w, w * 8)
        val = A.load_expr(st, ts[2], 4, 32) if ts else None
        ok = ts is not None and args[0] == val and args[1] == fld("type") and args[2] == fld("inst_size") and args[3] == fld("or_value")
        R.check(ok, "same-operand", fn_where(m, f2, I), "a deferred operand is written with the kind, size and bit pattern it was queued with",
                "a deferred operand is written as write_arg(%s)" % ", ".join(bits.show(x) for x in args), "deferred")
    # what is queued is what was asked for
    queued = []

    class R3(ai.Rule):
        def init(self, A, st):
            st.ts = ()

        def store(self, A, st, I, addr, val):
            b, off = ai.split(addr)
            if b[0] == "x" and b[1][0] == "call" and b[1][3] == "malloc":
                for n in ("type", "inst_size", "or_value"):
                    if off == fe[n][0]:
                        st.ts = tuple(x for x in st.ts if x[0] != n) + ((n, val),)
        def ret(self, A, st, I, v):
            if A.reporting and st.ts:
                queued.append((dict(st.ts), I))
    ai.Analysis(m, f, R3()).run()
    want = {"type": P(1, 32), "inst_size": P(2, 32), "or_value": P(3, 32)}
    for q, I in queued:
        for n, w in want.items():
            R.check(q.get(n) == w, "same-operand", fn_where(m, f), "the queued %s is the operand's" % n,
                    "the queued operand's %s is %s" % (n, bits.show(q[n]) if n in q else "never set"), "queued-" + n)


# ------------------------------------------------------------------ instruction layout
class Layout(ai.Rule):
    """write_instruction_data specialised to one row shape; collects the ordered emissions."""

    def __init__(self, m, shape, suffix, ez80, adl, emit):
        self.m, self.shape, self.suffix, self.ez80, self.adl, self.emit = m, shape, suffix, ez80, adl, emit
        self.fi = m.struct_fields("instr")
        self.exits = []

    ARGS = ("g", "@args", 0)

    def init(self, A, st):
        A.constrain(st, P(3, 32), ((self.suffix, self.suffix),))
        st.env[A.fn.params[3][0]] = C(self.suffix)
        md = gval(A, st, "mode")
        bit = 64 if self.ez80 else 0
        A.constrain(st, ai.binop("and", 32, md, C(64)), ((bit, bit),))
        for n in ("MODE_NORMAL", "MODE_LIST"):
            b = modebit(self.m, n)
            v = b if self.emit else 0
            A.constrain(st, ai.binop("and", 32, md, C(b)), ((v, v),))
        ad = A.load_expr(st, G("adl_mode"), 1, 8)
        A.constrain(st, ad, ((1, 1),) if self.adl else ((0, 0),))
        st.ts = ((), None, ())
        return [st]

    def load(self, A, st, I, addr):
        b, off = ai.split(addr)
        fi = self.fi
        if b == P(0):
            args, isize, end = self.shape
            if off == fi["args"][0]:
                return self.ARGS
            if off == fi["instr_size"][0]:
                return C(isize)
            if off == fi["has_end_data"][0]:
                return C(1 if end else 0)
            if off == fi["end_data"][0]:
                return ("x", ("end",), 8)
            if off == fi["size"][0]:
                return ("x", ("size",), 32)
            d = off - fi["instr_data"][0]
            if 0 <= d < 8:
                return ("x", ("data", d), 8)
        if b[:2] == ("g", "@args"):
            args = self.shape[0]
            if not 0 <= off <= len(args):
                if A.reporting:
                    self.exits.append(("oob", I))
                return C(0)
            ev, pos, tx = st.ts
            st.ts = (ev, off, tx)
            return C(ord(args[off]) if off < len(args) else 0)
        return None

    def push(self, st, e):
        ev, pos, tx = st.ts
        if len(ev) > 20:
            raise AnalysisBroken("unbounded emission in write_instruction_data")
        st.ts = (ev + (e,), pos, tx)

    def text(self, st, e):
        """What source text is this pointer? -> ('arg',k) / ('0+arg',k) / None"""
        if e[0] == "x" and e[1][0] == "txt":
            return ("arg", e[1][1])
        for k, v in st.ts[2]:
            if k == e:
                return v
        return None

    def note(self, st, key, v):
        ev, pos, tx = st.ts
        st.ts = (ev, pos, tuple(x for x in tx if x[0] != key) + ((key, v),))

    def call(self, A, st, I, name, args):
        if name == "is_arg":
            a = A.fold(st, args[0])
            if a[0] == "c":
                S = const_returns(self.m, "is_arg", a[1])
                if len(S) == 1 and S[0][0] == S[0][1]:
                    return [(st, C(S[0][0] & 1))]
            return None
        if name == "strndup":
            p = args[0]
            k = None
            if p[0] == "x" and p[1][0] == "ld":
                b, off = ai.split(p[1][1])
                if b == P(1) and off % 8 == 0:
                    k = off // 8
                    end = ("x", ("ld", ai.add(64, P(2), off), 8, p[1][3]), 64)
                    ln = args[1]
                    want = bits.linkey(ai.binop("sub", 64, end, p), 64)
                    if bits.linkey(ln, 64) != want:
                        # versions may differ; compare modulo version
                        e2 = A.load_expr(st, ai.add(64, P(2), off), 8, 64)
                        if bits.linkey(ln, 64) != bits.linkey(ai.binop("sub", 64, e2, p), 64):
                            k = "badlen%d" % k
            return [(st, ("x", ("txt", k), 64))]
        if name in ("malloc", "calloc"):
            leaf = A.callleaf(st, I, name)
            self.note(st, leaf, None)
            return [(st, leaf)]
        if name == "strcpy" or name == "strcat":
            b, off = ai.split(args[0])
            src = self.text(st, args[1])
            cur = next((v for k, v in st.ts[2] if k == b), None)
            if src and src[0] == "arg" and (off == 1 or name == "strcat") and cur == ("0",):
                self.note(st, b, ("0+arg", src[1]))
            else:
                self.note(st, b, ("?",))
            return [(st, args[0])]
        if name in ("sprintf", "snprintf"):
            fa = 1 if name == "sprintf" else 2
            s = None
            if args[fa][0] == "g":
                s = self.m.cstring(("g", args[fa][1]))
            src = self.text(st, args[fa + 1]) if len(args) > fa + 1 else None
            self.note(st, args[0], ("0+arg", src[1]) if s == b"0%s" and src and src[0] == "arg" else ("?",))
            return [(st, None)]
        if name == "write_out":
            self.push(st, ("W", args[0]))
            return [(st, None)]
        if name == "add_pass_two_expr":
            self.push(st, ("A", self.text(st, args[0]), A.fold(st, args[1]), args[2], args[3]))
            return [(st, None)]
        if name in ("SetLastSPASMError",):
            self.push(st, ("E", args[0][1] if args[0][0] == "c" else None))
            return [(st, None)]
        if name in ("show_warning", "free", "strlen", "isspace", "__ctype_b_loc"):
            return [(st, None)]
        return None

    def store(self, A, st, I, addr, val):
        b, off = ai.split(addr)
        if any(k == b for k, v in st.ts[2]) and I.ty.k == "i" and I.ty.n == 8:
            if off == 0 and val == C(48):
                self.note(st, b, ("0",))

    def ret(self, A, st, I, v):
        if A.reporting:
            self.exits.append((st.ts[0], v, A, st.copy(), I))


SUFFIX_BYTE = {0: 0x40, 1: 0x49, 2: 0x52, 3: 0x5B}


def layout(m, R, want_order=False, widths_only=False):
    f = m.fn("write_instruction_data")
    kd = m.enum("ARG_NUM_8")
    shapes = {}
    for lst, mode in TABLES.items():
        for r in table_rows(m, lst)[0]:
            if 0 <= r.isize <= r.cap:
                shapes.setdefault((r.args, r.isize, r.end is not None), set()).add(mode)
    # one representative per layout-relevant shape: operand kinds in order, literal text dropped
    reps = {}
    for (a, n, e), md in shapes.items():
        k = ("".join(c if c in WIDTH and "'" not in a else "." for c in a), n, e)
        kk = (k[0].replace(".", "") + ("." if "." in k[0] else ""), n, e)
        if kk not in reps or len(a) < len(reps[kk][0]):
            reps[kk] = (a, n, e)
    configs = [(False, -1, False)] + [(True, s, adl) for s in (-1, 0, 1, 2, 3) for adl in (False, True)]
    for kk, shape in sorted(reps.items()):
        for ez, suf, adl in configs:
            for emit in (True, False):
                if not emit and (suf not in (-1,) or adl):
                    continue
                one_layout(m, R, f, kd, shape, ez, suf, adl, emit)


def one_layout(m, R, f, kd, shape, ez, suf, adl, emit):
    args, isize, end = shape
    rule = Layout(m, shape, suf, ez, adl, emit)
    ai.Analysis(m, f, rule, max_visits=2000).run()
    name = "`%s` (%d opcode bytes%s), %s%s%s" % (
        args, isize, ", trailing byte" if end else "", "eZ80" if ez else "Z80",
        " suffix %d" % suf if suf >= 0 else "", " ADL" if adl else "")
    key = "%s/%d/%d" % (args, isize, end)
    il = ez and (suf & 2 if suf >= 0 else adl)
    SZ = ("x", ("size",), 32)
    for ex in rule.exits:
        if ex[0] == "oob":
            R.bad("layout", fn_where(m, f, ex[1]), "%s: the argument pattern is read beyond its end" % name, key)
            continue
        ev, ret, A, st, I = ex
        want = []
        extra = 0
        if suf >= 0:
            want.append(("W", C(SUFFIX_BYTE[suf])))
            extra += 1
        if emit:
            for i in range(isize - 1, -1, -1):
                want.append(("W", ("x", ("data", i), 8)))
        k = 0
        bit = None
        err_at = None
        for c in args:
            if c not in WIDTH:
                continue
            if c == "*":
                if il:
                    extra += 1
                want.append(("A", ("arg", k), "ARG_NUM_24" if il else "ARG_NUM_16", extra, None))
            elif c == "&":
                want.append(("A", ("arg", k), "ARG_NUM_8", extra, None))
            elif c == "%":
                want.append(("A", ("arg", k), "ARG_ADDR_OFFSET", extra, None))
            elif c == "#":
                want.append(("A", ("arg", k), "ARG_RST", extra, None))
            elif c == "@":
                want.append(("A", ("0+arg", k), "ARG_IX_IY_OFFSET", extra, None))
            elif c == "^":
                bit = k
            k += 1
        if end and emit:
            if bit is not None:
                want.append(("A", ("arg", bit), "ARG_BIT_NUM", extra, "end"))
            else:
                want.append(("W", ("x", ("end",), 8)))
        # error exits: a malformed index displacement suppresses that operand; check the rest up to it
        got = list(ev)
        if any(e[0] == "E" for e in got):
            if "@" in args:
                R.ok("layout", name + ": malformed displacement is diagnosed")
                continue
            R.bad("layout", fn_where(m, f, I), "%s: a diagnostic is raised for a well-formed row" % name, key)
            continue
        ok = len(got) == len(want)
        why = "emits %s" % [evshow(kd, x) for x in got]
        if ok:
            for g, w in zip(got, want):
                if not same_event(kd, g, w, SZ, A, st):
                    ok = False
                    why = "emits %s where %s is due" % (evshow(kd, g), wshow(w))
                    break
        else:
            why = "emits %s where %s is due" % ([evshow(kd, x) for x in got], [wshow(w) for w in want])
        R.check(ok, "layout", fn_where(m, f), name + ": " + "; ".join(wshow(w) for w in want), name + ": " + why, key)
        rok = bits.linkey(ret, 32) == bits.linkey(ai.add(32, SZ, extra), 32)
        R.check(rok, "size", fn_where(m, f), "%s: size is the row's size + %d" % (name, extra),
                "%s: the size returned is %s, expected the row's size + %d" % (name, bits.show(ret), extra), key)


def same_event(kd, g, w, SZ, A, st):
    if g[0] != w[0]:
        return False
    if g[0] == "W":
        return bits.equal(g[1], w[1], 8, lambda e: A.iset(st, e))
    inv = {v: k for k, v in kd.items()}
    if g[1] != w[1] or g[2][0] != "c" or inv.get(g[2][1]) != w[2]:
        return False
    if w[2] == "ARG_ADDR_OFFSET" and bits.linkey(g[3], 32) != bits.linkey(ai.add(32, SZ, w[3]), 32):
        return False
    if w[4] == "end" and not bits.equal(g[4], ("x", ("end",), 8), 8):
        return False
    return True


def evshow(kd, g):
    inv = {v: k for k, v in kd.items()}
    if g[0] == "W":
        return "byte " + bits.show(g[1])
    if g[0] == "E":
        return "error"
    return "operand(%s, %s, size %s)" % ("/".join(map(str, g[1] or ("?",))), inv.get(g[2][1], "?") if g[2][0] == "c" else "?", bits.show(g[3]))


def wshow(w):
    if w[0] == "W":
        return "byte " + bits.show(w[1])
    return "operand(%s, %s, size+%d)" % ("/".join(map(str, w[1])), w[2], w[3])


# ------------------------------------------------------------------ E09 suffixes
class SuffixText(ai.Rule):
    """parse_suffix specialised to one spelling of the characters before the end of the mnemonic."""

    def __init__(self, text, adl):
        self.text, self.adl, self.out = text, adl, []
        self.end0 = ("g", "@text", len(text))

    def init(self, A, st):
        ad = A.load_expr(st, G("adl_mode"), 1, 8)
        A.constrain(st, ad, ((self.adl, self.adl),))
        A.store_expr(st, P(0), 8, self.end0, ("w", "entry", 0))
        st.ts = ()

    def load(self, A, st, I, addr):
        if addr[:2] == ("g", "@text"):
            if not 0 <= addr[2] < len(self.text):
                return ("x", ("outside", addr[2]), 8)
            st.ts = (st.ts + (addr[2],))[-12:]
            return C(ord(self.text[addr[2]]))
        return None

    def call(self, A, st, I, name, args):
        if name in ("tolower", "toupper"):
            a = A.fold(st, args[0])
            if a[0] == "c" and 0 <= a[1] < 256:
                c = chr(a[1])
                return [(st, C(ord(c.lower() if name == "tolower" else c.upper())))]
        return None

    def ret(self, A, st, I, v):
        if A.reporting:
            self.out.append((A.iset(st, v), A.load_expr(st, P(0), 8, 64)))


def suffix_parse(m, R):
    """parse_suffix: letters at the end of the mnemonic -> suffix bits and end of the mnemonic proper."""
    f = m.fn("parse_suffix")
    import itertools
    words = {"".join(t) for t in itertools.product("sli.a", repeat=4)}
    for w in (".sis", ".lis", ".sil", ".lil", "q.is", "q.il", "qq.s", "qq.l"):
        for mask in range(1, 16):
            words.add("".join(c.upper() if mask >> i & 1 else c for i, c in enumerate(w)))
    for w in sorted(words):
        full = "qqq" + w
        for adl in (0, 1):
            exp, drop = spec_suffix(full, adl)
            r = SuffixText(full, adl)
            ai.Analysis(m, f, r).run()
            endx = ai.add(64, r.end0, -drop)
            ok = bool(r.out) and all(S == ((exp, exp),) and e == endx for S, e in r.out)
            R.check(ok, "suffix-text", fn_where(m, f), "...%s (ADL=%d) -> %d" % (w, adl, exp),
                    "mnemonic ending `%s` with ADL=%d gives suffix %s, mnemonic end %s; expected suffix %d, %d characters dropped" % (
                        w, adl, [setstr(S) for S, e in r.out], [e[2] - len(full) if e[0] == "g" else "?" for S, e in r.out], exp, drop),
                    "%s" % (exp if exp >= 0 else "none"))


def spec_suffix(text, adl):
    t = text.lower()
    for s, bits_ in ((".sis", (0, 0)), (".lis", (1, 0)), (".sil", (0, 1)), (".lil", (1, 1))):
        if t.endswith(s):
            return bits_[0] | bits_[1] << 1, 4
    if t.endswith(".s") or t.endswith(".l"):
        return (1 if t[-1] == "l" else 0) | (2 if adl else 0), 2
    if t.endswith(".is") or t.endswith(".il"):
        return (1 if adl else 0) | (2 if t[-1] == "l" else 0), 3
    return -1, 0


def check_E09(m, R):
    suffix_parse(m, R)
    layout(m, R)
    suffix_use(m, R)
    R.need("suffix-text", 1000)
    R.need("layout", 100)
    R.need("size", 100)


def suffix_use(m, R):
    """handle_opcode_or_macro looks for a suffix in eZ80 mode only, and hands exactly what parse_suffix found to
    write_instruction_data (-1 = none otherwise)."""
    f = m.fn("handle_opcode_or_macro")
    seen = []

    class Ru(ai.Rule):
        def init(self, A, st):
            out = []
            for s, on in split_mode(A, st, 64):
                s.ts = (on, None)
                out.append(s)
            return out

        def call(self, A, st, I, name, args):
            if name == "parse_suffix":
                A.default_call(st, I, name, args)
                leaf = A.callleaf(st, I, name)
                st.ts = (st.ts[0], leaf)
                return [(st, leaf)]
            if name == "write_instruction_data" and A.reporting:
                seen.append((I, st.ts, A.fold(st, args[3])))
            return None
    ai.Analysis(m, f, Ru(), max_visits=3000).run()
    R.check(bool(seen), "suffix-use", fn_where(m, f), "instructions are written", "write_instruction_data is never reached", "none")
    for I, (ez, leaf), a in seen:
        if ez:
            ok = leaf is not None and a == leaf
        else:
            ok = a == C(-1)
        R.check(ok, "suffix-use", fn_where(m, f, I), "%s mode: the suffix passed on is %s" % ("eZ80" if ez else "Z80", "the parsed one" if ez else "none"),
                "%s mode: the suffix passed to write_instruction_data is %s" % ("eZ80" if ez else "Z80", bits.show(a)), "ez80" if ez else "z80")


# ------------------------------------------------------------------ E03 timing
COUNTERS = ("program_counter", "stats_codesize", "stats_mintime", "stats_maxtime")


def check_E03(m, R):
    forms = oracle_z80.z80()
    rows, _ = table_rows(m, "opcode_list")
    seen = set()
    for r in rows:
        k = (r.name.upper(), r.args.upper())
        w = forms.get(k)
        if w is None or k in seen:
            continue
        seen.add(k)
        R.check((r.min, r.max) == w["t"], "t-states", r.where, "%s %s takes %d..%d" % (k + w["t"]),
                "%s %s is recorded with %d..%d T-states, the Z80 takes %d..%d" % (k + (r.min, r.max) + w["t"]), "%s %s" % k)
        R.check(r.pen == 0, "t-states", r.where, "%s %s has no ADL penalty" % k,
                "Z80 form %s %s carries an ADL penalty of %d" % (k + (r.pen,)), "pen %s %s" % k)
    counters(m, R)
    report_counters(m, R)
    R.need("t-states", 1200)
    R.need("counters", 4)


def counters(m, R):
    f = m.fn("handle_opcode_or_macro")
    fi = m.struct_fields("instr")
    byoff = {v[0]: k for k, v in fi.items()}
    ends = []

    class Ru(ai.Rule):
        def init(self, A, st):
            out = []
            for s, on in split_mode(A, st, 64):
                s.ts = (on, None)
                out.append(s)
            return out

        def load(self, A, st, I, addr):
            if st.ts[1] is not None and not st.ts[0]:
                b, off = ai.split(addr)
                if b == st.ts[1][0] and off in byoff and I.ty.k == "i" and I.ty.n == 32:
                    if byoff[off] == "adl_exectime_penalty":
                        return C(0)     # every Z80 row's penalty is zero (checked over the table)
                    return ("x", ("row", byoff[off]), 32)

        def call(self, A, st, I, name, args):
            if name == "write_instruction_data":
                A.default_call(st, I, name, args)
                st.ts = (st.ts[0], (args[0],))
                for g in COUNTERS:
                    A.store_expr(st, G(g), 4, ("x", ("cnt", g), 32), ("w", I.bb.name, I.idx))
                return [(st, ("x", ("isize",), 32))]
            return None

        def ret(self, A, st, I, v):
            if A.reporting and st.ts[1] is not None:
                ends.append((st.ts, A, st.copy(), I))
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    R.check(bool(ends), "counters", fn_where(m, f), "instructions reach the counters", "no path writes an instruction", "none")
    for (ez, inst), A, st, I in ends:
        if ez:
            continue
        want = {"program_counter": ("isize",), "stats_codesize": ("isize",),
                "stats_mintime": ("row", "min_exectime"), "stats_maxtime": ("row", "max_exectime")}
        for g, w in want.items():
            fin = A.load_expr(st, G(g), 4, 32)
            exp = ai.binop("add", 32, ("x", ("cnt", g), 32), ("x", w, 32))
            R.check(bits.linkey(fin, 32) == bits.linkey(exp, 32), "counters", fn_where(m, f),
                    "each instruction adds its %s to %s" % ("size" if "time" not in g else g[6:9] + " time", g),
                    "after an instruction %s is %s instead of its old value plus %s" % (g, bits.show(fin), w[-1]), g)


def report_counters(m, R):
    """The summary lines print the counters they name, in the order of the format."""
    hits = 0
    for f in m.own:
        for I in f.instrs():
            if I.op != "call" or m.callee_name(I) not in ("printf", "fprintf"):
                continue
            k = 0 if m.callee_name(I) == "printf" else 1
            s = m.cstring(I.ops[k]) if I.ops[k][0] in ("g", "cgep") else None
            if not s:
                continue
            t = s.decode("latin-1").lower()
            if "min" in t and "max" in t and "%" in t and "size" in t:
                names = [glob_of(m, f, o) for o in I.ops[k + 1:]]
                want = order_by(t, {"size": "stats_codesize", "min": "stats_mintime", "max": "stats_maxtime"})
                hits += 1
                R.check(names == want, "report", fn_where(m, f, I), "the code counter prints " + ", ".join(want),
                        "the code counter line prints %s for %r" % (names, t), "counter")
    R.check(hits > 0, "report", "main", "the code counter is printed", "no line prints the code counter", "none")


def order_by(t, d):
    return [d[k] for k in sorted(d, key=lambda k: t.index(k))]


def glob_of(m, f, o):
    for _ in range(6):
        if o[0] != "v":
            return None
        I = f.defs.get(o[1])
        if I is None:
            return None
        if I.op == "load":
            return I.ops[0][1] if I.ops[0][0] == "g" else None
        if I.op in ("zext", "sext", "trunc"):
            o = I.ops[0]
            continue
        return None


CHECKS = {
    "E01": (check_E01, "proof", ["The documented operand syntax is the one match_opcode_args implements (its reference matcher is "
                                 "restated in rules_enc.pattern_matches)."]),
    "E02": (check_E02, "proof", ["As E01."]),
    "E03": (check_E03, "proof", ["T-states of undocumented forms follow the published measurements."]),
    "E04": (check_E04, "proof", ["Operand texts are what match_opcode_args delimits."]),
    "E05": (check_E05, "proof", ["ints are 32 bits wide"]),
    "E09": (check_E09, "proof", ["is_arg, tolower behave as in C"]),
}
