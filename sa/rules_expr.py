"""Expressions: operators (X01), literals (X02), bounded evaluation (X03)."""
import ai
import bits
from ai import C
from core import where
from ir import AnalysisBroken
from util import *  # noqa: F401,F403
from util import P, G, gval, fn_where, setstr


def const_at(m, gname, off, size):
    """Constant stored at a byte offset of a constant global: ("c", n), ("s", text) or None."""
    g = m.globals.get(gname)
    if g is None or not g["const"] or g["init"] is None:
        return None
    t, v = m.norm(g["type"]), g["init"]
    while True:
        t = m.norm(t)
        if t.k == "arr":
            es = m.size(t.e)
            i, off = divmod(off, es)
            el = m.elems(t, v)
            if not 0 <= i < len(el):
                return None
            t, v = t.e, el[i]
        elif t.k == "st":
            offs = m.offsets(t)
            k = max((j for j, o in enumerate(offs) if o <= off), default=None)
            if k is None:
                return None
            el = m.elems(t, v)
            t, v, off = t.e[k], el[k], off - offs[k]
        else:
            break
    if off or m.size(t) != size:
        return None
    if v[0] == "c":
        return ("c", v[1])
    p = m.const_ptr(v)
    if p[0] is not None:
        return ("p", p)
    return None


# ------------------------------------------------------------------ X01
BINARY = {"+": "add", "-": "sub", "*": "mul", "/": "sdiv", "%": "srem", "<<": "shl", ">>": "ashr", "^": "xor", "&": "and",
          "|": "or", "<": "slt", ">": "sgt", "<=": "sle", ">=": "sge", "==": "eq", "=": "eq", "!=": "ne", "&&": "&&", "||": "||"}
COMPARE = {"slt", "sgt", "sle", "sge", "eq", "ne"}
IMIN = -(1 << 31)


def loop_phis(m, f, callee):
    """Integer phis at the heads of the loops around calls of callee."""
    regs = []
    for b in f.blocks:
        for I in b.ins:
            if I.op == "phi" and I.ty.k == "i":
                regs.append(I.res)
    return regs


class OpRule(ai.Rule):
    """Drives the evaluation loop through N operands joined by the given operator texts."""
    retsplit = True

    def __init__(self, m, f, ops, cls, zsplit, close=False):
        self.m, self.f, self.ops, self.cls, self.zsplit, self.close = m, f, ops, cls, zsplit, close
        self.N = len(ops) + 1
        self.regs = loop_phis(m, f, "strncmp")
        self.rets = []
        self.problems = []

    # ts: (operands read, phase, start of operand, sign consumed, value classes, sign flags)
    def init(self, A, st):
        st.ts = (0, "operand", None, (), ())
        st.env[self.f.params[2][0]] = C(1) if self.close else C(0)

    def key(self, A, st):
        ks = []
        for r in self.regs:
            v = st.env.get(r)
            if v is not None and v[0] == "c":
                ks.append((r, v[1]))
        return (st.ts, tuple(ks))

    def bad(self, A, I, what):
        if A.reporting:
            self.problems.append((I, what))

    def load(self, A, st, I, addr):
        b, o = ai.split(addr)
        if b[0] == "g":
            c = const_at(self.m, b[1], o, self.m.size(I.ty))
            if c is not None:
                if c[0] == "c":
                    return C(ai.wrap(c[1], 8 * self.m.size(I.ty)))
                return ("g", c[1][0], c[1][1])
        n, ph, start, zs, mv = st.ts
        if b[0] == "x" and b[1][0] in ("pos", "opr") and self.m.size(I.ty) == 1:
            text = None
            if b[1][0] == "pos" and o == 0:
                c = self.cls[b[1][1]] if b[1][1] < len(self.cls) else None
                if c:
                    return C(ord(c))
                leaf = ("x", ("char", b), 8)
                A.constrain(st, leaf, ai.isub(ai.itop(8), ai.iv(*[(ord(x), ord(x)) for x in "~-+\0"])))
                return leaf
            if b[1][0] == "opr":
                text = self.ops[n - 1] if n - 1 < len(self.ops) else (")" if self.close else "\0")
                if 0 <= o < len(text):
                    return C(ord(text[o]))
        return None

    def text_of(self, e):
        b, o = ai.split(e)
        if b[0] == "g":
            s = self.m.cstring(("g", b[1]))
            if s is not None:
                return s[o:].decode("latin-1")
        return None

    def operand(self, A, st, I, name, arg, out):
        n, ph, start, zs, mv = st.ts
        if ph != "operand":
            self.bad(A, I, "an operand is read where an operator is due")
            return []
        moved = start is not None and ai.split(arg)[0] != start
        if n >= self.N:
            return []
        A.default_call(st, I, name, [arg, out])
        leaf = ("x", ("operand", n), 32)
        res = []
        f = st.copy()
        f.ts = (n, "fail", None, zs, mv)
        res.append((f, C(0)))
        end = ("x", ("end", n), 64)
        classes = [ai.itop(32)]
        if self.zsplit:
            s = (-1 if n else IMIN)
            classes = [((s, s),), ((0, 0),), ai.isub(ai.itop(32), ((s, s), (0, 0)) if s < 0 else ((0, 0),))]
        for k, S in enumerate(classes):
            g = st.copy()
            A.store_expr(g, out, 4, leaf, ("w", I.bb.name, I.idx))
            if not A.constrain(g, leaf, S) or not A.constrain(g, end, ((1, ai.itop(64)[0][1]),)):
                continue
            g.ts = (n + 1, "after", end, zs + (k,), mv + (moved,))
            res.append((g, end))
        return res

    def call(self, A, st, I, name, args):
        n, ph, start, zs, mv = st.ts
        if name == "skip_whitespace":
            if ph == "operand":
                leaf = ("x", ("pos", n, start is not None), 64)
                if start is None:
                    st.ts = (n, ph, leaf, zs, mv)
                elif args[0] != ai.add(64, start, 1):
                    self.bad(A, I, "the operand after a sign does not start behind the sign")
                return [(st, leaf)]
            b, o = ai.split(args[0])
            leaf = ("x", ("opr", n), 64)
            if b == leaf and o:
                # behind the operator
                if n - 1 < len(self.ops) and o != len(self.ops[n - 1]):
                    self.bad(A, I, "after operator %s the operand is read %d characters on" % (self.ops[n - 1], o))
                pos = ("x", ("pos", n, False), 64)
                st.ts = (n, "operand", pos, zs, mv)
                return [(st, pos)]
            return [(st, leaf)]
        if name == "is_end_of_code_line":
            return [(st, C(1 if n >= self.N and not self.close else 0))]
        if name in ("strncmp", "memcmp", "strncasecmp", "strcmp", "strcasecmp"):
            t = self.text_of(args[1])
            other = args[0]
            if t is None:
                t, other = self.text_of(args[0]), args[1]
            if t is None or ai.split(other)[0] != ("x", ("opr", n), 64):
                return None
            text = self.ops[n - 1] if n - 1 < len(self.ops) else ""
            if name.startswith("strn") or name == "memcmp":
                k = args[2]
                if k[0] != "c":
                    return None
                t = t[:k[1]]
            hit = text.startswith(t) and bool(t)
            return [(st, C(0 if hit else 1))]
        if name == "strlen":
            t = self.text_of(args[0])
            if t is not None:
                return [(st, C(len(t)))]
            return None
        if name == "parse_single_num":
            return self.operand(A, st, I, name, args[0], args[1])
        if name == self.f.name:
            return self.operand(A, st, I, name, args[0], args[1])
        return None

    def ret(self, A, st, I, v):
        n, ph, start, zs, mv = st.ts
        if not A.reporting:
            return
        ok = v != C(0)
        self.rets.append((A, st, I, n, ph, zs, mv, ok, A.load_expr(st, P(1), 4, 32)))


def unary(c, moved, x):
    if c == "~":
        return ai.binop("xor", 32, x, C(-1)) if moved else None
    if c == "-" and moved:
        return ai.binop("sub", 32, C(0), x)
    return x


def simp(A, st, e):
    """e with everything the state knows the value of replaced by that value."""
    if e[0] == "c":
        return e
    w = ai.width(e)
    if w <= 64 and e[0] in ("x", "op", "cast", "cmp", "+", "sel"):
        S = A.iset(st, e)
        if len(S) == 1 and S[0][0] == S[0][1]:
            return C(S[0][0])
    if e[0] == "op":
        return ai.binop(e[1], e[2], simp(A, st, e[3]), simp(A, st, e[4]))
    if e[0] == "+":
        return ai.add(e[1], simp(A, st, e[2]), e[3])
    if e[0] == "cast":
        return ai.cast(e[1], e[2], simp(A, st, e[3]), ai.width(e[3]))
    return e


def agrees(A, st, got, op, a, b):
    """got == a op b in this state."""
    a, b, got = simp(A, st, a), simp(A, st, b), simp(A, st, got)
    if op in COMPARE:
        e, neg = ai.cmpexpr(op, 32, a, b)
        for truth in (True, False):
            s = st.copy()
            if A.assume(s, e, truth ^ bool(neg)):
                w = 1 if truth else 0
                if A.iset(s, got) != ((w, w),):
                    return False
        return True
    if op in ("&&", "||"):
        za, zb = A.iset(st, a), A.iset(st, b)

        def tr(S):
            return False if S == ((0, 0),) else True if not ai.iinter(S, ((0, 0),)) else None
        x, y = tr(za), tr(zb)
        if x is None or y is None:
            return False
        w = 1 if ((x and y) if op == "&&" else (x or y)) else 0
        return A.iset(st, got) == ((w, w),)
    return got == ai.binop(op, 32, a, b) or bits.equal(got, ai.binop(op, 32, a, b), 32, lambda e: A.iset(st, e))


def check_X01(m, R):
    f = m.fn("parse_num_full")

    def run(ops, cls, zsplit=False, close=False):
        r = OpRule(m, f, ops, cls, zsplit, close)
        ai.Analysis(m, f, r, max_visits=6000).run()
        return r

    def opn(k):
        return ("x", ("operand", k), 32)

    def problems(r, lab):
        for I, what in r.problems:
            R.bad("order", fn_where(m, f, I), "%s: %s" % (lab, what), what)
    w = fn_where(m, f)
    for T, op in BINARY.items():
        r = run([T], ["", ""], zsplit=True)
        problems(r, T)
        n = 0
        good = True
        shown = ""
        for A, st, I, k, ph, zs, mv, ok, got in r.rets:
            if not ok:
                if ph == "fail" or k == 0:
                    continue
                # only a division may refuse its operands
                div = op in ("sdiv", "srem") and k == 2
                R.check(div and (zs[1] == 1 or (zs[0] == 0 and zs[1] == 0)), "refused", fn_where(m, f, I),
                        "%s refuses only a zero divisor and INT_MIN/-1" % T,
                        "operator %s fails for operands it is defined for" % T, T)
                continue
            if ph == "fail":
                R.bad("refused", fn_where(m, f, I), "%s: the value of an operand that failed is used" % T, "failed operand")
                continue
            n += 1
            if op in ("sdiv", "srem"):
                R.check(zs[1] != 1 and not (zs[0] == 0 and zs[1] == 0), "division", fn_where(m, f, I),
                        "%s: divisor is not zero and the quotient fits" % T,
                        "%s is executed with a zero divisor or as INT_MIN/-1" % T, T)
                if zs[1] == 1 or (zs[0] == 0 and zs[1] == 0):
                    continue
            if not agrees(A, st, got, op, opn(0), opn(1)):
                good = False
                shown = bits.show(got)
        R.check(good and n > 0, "operator", w, "a %s b is %s" % (T, op),
                "a %s b does not compute %s of its operands%s" % (T, op, ": " + shown if shown else ""), T)
        # signs in front of either operand
        for cls in (("-", ""), ("~", ""), ("+", ""), ("", "-"), ("", "~"), ("", "+")):
            if op in ("&&", "||"):
                continue
            r = run([T], cls)
            problems(r, T)
            n, good = 0, True
            for A, st, I, k, ph, zs, mv, ok, got in r.rets:
                if not ok or ph == "fail":
                    continue
                a, b = unary(cls[0], mv[0], opn(0)), unary(cls[1], mv[1], opn(1))
                n += 1
                good = good and a is not None and b is not None and agrees(A, st, got, op, a, b)
            lab = "%sa %s %sb" % (cls[0], T, cls[1])
            R.check(good and n > 0, "unary", w, "%s applies the sign to its own operand first" % lab,
                    "%s is not computed from the signed operands" % lab, lab)
        # three operands, left to right
        for ops in ([T, "*"], ["+", T]):
            z = "&&" in ops or "||" in ops
            r = run(ops, ["", "", ""], zsplit=z)
            problems(r, T)
            n, good = 0, True
            for A, st, I, k, ph, zs, mv, ok, got in r.rets:
                if not ok or ph == "fail":
                    continue
                n += 1
                o1, o2 = BINARY[ops[0]], BINARY[ops[1]]
                good = good and left_right(A, st, got, o1, o2, opn(0), opn(1), opn(2))
            lab = "a %s b %s c" % tuple(ops)
            R.check(good and n > 0, "left-to-right", w, "%s is (a %s b) %s c" % (lab, ops[0], ops[1]),
                    "%s is not evaluated from left to right" % lab, lab)
    # single operand and parentheses
    for close in (False, True):
        for c in ("", "-", "~", "+"):
            r = run([], [c], close=close)
            problems(r, "single")
            n, good = 0, True
            for A, st, I, k, ph, zs, mv, ok, got in r.rets:
                if not ok or ph == "fail":
                    continue
                n += 1
                a = unary(c, mv[0], opn(0))
                good = good and a is not None and got == a
            lab = ("(%sa)" if close else "%sa") % c
            R.check(good and n > 0, "unary", w, "%s is its signed operand" % lab, "%s is not its signed operand" % lab, lab)
    R.need("operator", 19)
    R.need("unary", 100)


def left_right(A, st, got, o1, o2, a, b, c):
    """got == (a o1 b) o2 c"""
    def truth(e):
        S = A.iset(st, e)
        return False if S == ((0, 0),) else True if not ai.iinter(S, ((0, 0),)) else None
    if o1 in COMPARE:
        e, neg = ai.cmpexpr(o1, 32, a, b)
        for t in (True, False):
            s = st.copy()
            if A.assume(s, e, t ^ bool(neg)):
                if not agrees_val(A, s, got, o2, C(1 if t else 0), c):
                    return False
        return True
    if o1 in ("&&", "||"):
        x, y = truth(a), truth(b)
        if x is None or y is None:
            return False
        return agrees_val(A, st, got, o2, C(1 if ((x and y) if o1 == "&&" else (x or y)) else 0), c)
    t = ai.binop(o1, 32, simp(A, st, a), simp(A, st, b))
    if o2 in ("&&", "||"):
        y = truth(c)
        S = A.iset(st, got)
        for v in (True, False):
            s = st.copy()
            e, neg = ai.cmpexpr("ne", 32, t, C(0))
            if A.assume(s, e, v ^ bool(neg)):
                w = 1 if ((v and y) if o2 == "&&" else (v or y)) else 0
                if A.iset(s, got) != ((w, w),):
                    return False
        return y is not None
    return agrees(A, st, got, o2, t, c)


def agrees_val(A, st, got, op, k, c):
    """as agrees, the left operand being a known constant"""
    return agrees(A, st, got, op, k, c)


# ------------------------------------------------------------------ X02
CONV = {"conv_hex": (16, "hex"), "conv_dec": (10, "decimal"), "conv_bin": (2, "binary")}
STRTO = ("strtoll", "__isoc23_strtoll", "strtol", "__isoc23_strtol", "strtoimax", "_strtoi64", "__isoc99_strtoll")


def check_X02(m, R):
    g = m.fn("conv_generic", False)
    for name, (base, word) in sorted(CONV.items()):
        f = m.fn(name)
        conv_rule(m, R, f, g, base, word)
    literal_rule(m, R)
    R.need("conversion", 9)
    R.need("literal", 14)


def conv_rule(m, R, f, g, base, word):
    if g is not None:
        # the wrapper hands its text to the general form
        got = []

        class W(ai.Rule):
            def call(self, A, st, I, name, args):
                if name == g.name:
                    A.default_call(st, I, name, args)
                    leaf = ("x", ("result",), 1)
                    if A.reporting:
                        got.append((I, args))
                    return [(st, leaf)]
                return None

            def ret(self, A, st, I, v):
                if A.reporting:
                    got.append((I, v))
        ai.Analysis(m, f, W()).run()
        got.sort(key=lambda x: not isinstance(x[1], list))
        ok = len(got) == 2 and isinstance(got[0][1], list) and got[0][1][:3] == [P(0), P(1), P(2)] \
            and got[1][1] == ("x", ("result",), 1)
        R.check(ok, "conversion", fn_where(m, f), "%s converts exactly the text it is given" % f.name,
                "%s does not hand its text, end and result to the conversion" % f.name, f.name + " text")
        if not ok:
            return
        b, code = got[0][1][3], got[0][1][4]
        target, pins = g, {3: b, 4: code}
    else:
        target, pins = f, {}
    ends = []

    class Ru(ai.Rule):
        def init(self, A, st):
            for i, v in pins.items():
                st.env[target.params[i][0]] = v
            st.ts = (None, ())

        def call(self, A, st, I, name, args):
            if name in STRTO:
                out = []
                okb = args[2] == C(base) and args[0] == P(0)
                for k in ("all", "part"):
                    s = st.copy()
                    A.default_call(s, I, name, args)
                    v = ("x", ("number",), 64)
                    stop = P(1) if k == "all" else ("x", ("stop",), 64)
                    A.store_expr(s, args[1], 8, stop, ("w", I.bb.name, I.idx))
                    if k == "part":
                        e, neg = ai.cmpexpr("ult", 64, stop, P(1))
                        if not A.assume(s, e, not neg):
                            continue
                    s.ts = ((k if okb else "wrong"), s.ts[1])
                    out.append((s, v))
                return out
            if name == "SetLastSPASMError":
                c = args[0]
                st.ts = (st.ts[0], st.ts[1] + ((c[1] if c[0] == "c" else None),))
                A.default_call(st, I, name, args)
                return [(st, None)]
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                ends.append((A, st, I, v))
    ai.Analysis(m, target, Ru()).run()
    N = ("x", ("number",), 64)
    FIT = ((-(1 << 31), (1 << 32) - 1),)
    w = fn_where(m, f)
    lab = f.name
    acc = ()
    saw = set()
    for A, st, I, v in ends:
        k, errs = st.ts
        T = A.iset(st, v)
        if ai.iinter(T, ((1, 1),)):
            saw.add("true")
            e, neg = ai.cmpexpr("eq", 64, P(0), P(1))
            d = A.decide(st, e)
            empty = d is None or bool(d) ^ bool(neg)
            R.check(not empty, "empty", w, "%s: a text without digits is not a number" % lab,
                    "%s takes an empty text for a number" % lab, lab)
            R.check(k == "all", "conversion", w, "%s: every character is a digit of base %d" % (lab, base),
                    "%s accepts text that is not all digits of base %d" % (lab, base), lab + " digits")
            S = A.iset(st, N)
            acc = ai.iunion(acc, S)
            R.check(ai.subset(S, FIT), "overflow", w, "%s: the value fits 32 bits" % lab,
                    "%s accepts values outside 32 bits: %s" % (lab, setstr(ai.isub(S, FIT))), lab)
            out = A.load_expr(st, P(2), 4, 32)
            R.check(bits.equal(out, ai.cast("trunc", 32, N, 64), 32, lambda e: A.iset(st, e)), "conversion", w,
                    "%s: the result is the value" % lab, "%s stores something else than the value" % lab, lab + " value")
            R.check(not errs, "conversion", w, "%s: no diagnostic with a value" % lab,
                    "%s reports an error and a value" % lab, lab + " quiet")
        if ai.iinter(T, ((0, 0),)):
            saw.add("false")
            R.check(len(errs) == 1, "refusal", w, "%s: a refusal is reported once" % lab,
                    "%s can fail without a diagnostic" % lab, lab)
            if k == "part" and len(errs) == 1:
                names = errname(m, errs[0])
                R.check(word in names.lower() and "digit" in names.lower(), "refusal", w, "%s: bad digits raise %s" % (lab, names),
                        "%s raises %s for a bad digit" % (lab, names), lab + " digit")
            if k == "all":
                S = ai.iinter(A.iset(st, N), FIT)
                R.check(not S, "refusal", w, "%s: values that fit are accepted" % lab,
                        "%s refuses values that fit: %s" % (lab, setstr(S)), lab + " fits")
    R.check(saw == {"true", "false"}, "conversion", w, "%s both accepts and refuses" % lab, "%s never %s" % (lab, "/".join(
        sorted({"true", "false"} - saw))), lab + " outcomes")


ESC = {"N": 10, "\\": 92, "0": 0, "R": 13, "T": 9, "'": 39}


def load_addr(e):
    """Address of the character an expression is the (extended) value of."""
    while e[0] == "cast":
        e = e[3]
    if e[0] == "x" and e[1][0] == "ld":
        return e[1][1]
    if e[0] == "x" and e[1][0] == "at":
        return e[1][1]
    return None


class LitRule(ai.Rule):
    """One literal notation: the first characters of the text are given."""
    retsplit = True

    def __init__(self, m, text):
        self.m, self.text = m, text
        self.rets = []
        self.probs = []

    # ts: (conversion name or None, from, to, ok?), letter after escape/suffix, its address
    def init(self, A, st):
        st.ts = (None, None, None, False)

    def load(self, A, st, I, addr):
        b, o = ai.split(addr)
        if self.m.size(I.ty) == 1 and b == P(0) and 0 <= o < len(self.text):
            c = self.text[o]
            if c == "?":        # any character but a backslash or the end
                leaf = ("x", ("at", addr), 8)
                A.constrain(st, leaf, ai.isub(ai.itop(8), ai.iv((0, 0), (92, 92))))
                return leaf
            if c == "*":
                leaf = ("x", ("at", addr), 8)
                A.constrain(st, leaf, ai.isub(ai.itop(8), ai.iv((0, 0))))
                return leaf
            return C(ord(c))
        if self.m.size(I.ty) == 1 and b[0] == "x" and b[1][0] in ("phi", "param"):
            return ("x", ("at", addr), 8)
        return None

    def call(self, A, st, I, name, args):
        conv, let, xd, wn = st.ts
        if name in ("isalpha", "isdigit", "isxdigit", "isalnum", "isspace", "isupper", "islower"):
            v = args[0]
            if v[0] == "c":
                ch = chr(v[1] & 255)
                k = {"isalpha": ch.isalpha(), "isdigit": ch in "0123456789", "isxdigit": ch in "0123456789abcdefABCDEF",
                     "isalnum": ch.isalnum(), "isspace": ch.isspace(), "isupper": ch.isupper(), "islower": ch.islower()}[name]
                return [(st, C(1 if k else 0))]
            if name == "isxdigit" and xd is None and load_addr(v) == ai.add(64, P(0), 1):
                out = []
                for t in (True, False):
                    s = st.copy()
                    s.ts = (conv, let, t, wn)
                    out.append((s, C(1 if t else 0)))
                return out
            return None
        if name in ("toupper", "tolower"):
            if args[0][0] == "c":
                ch = chr(args[0][1] & 255)
                return [(st, C(ord(ch.upper() if name == "toupper" else ch.lower())))]
            a = load_addr(args[0])
            out = []
            for L in ("H", "B", "D", "N", "\\", "0", "R", "T", "'", "#", None):
                s = st.copy()
                s.ts = (conv, (L, a), xd, wn)
                leaf = ("x", ("letter", L), 32)
                if L is None:
                    known = [ord(x) for x in "HBDN\\0RT'#"]
                    if name == "tolower":
                        known = [ord(chr(x).lower()) for x in known]
                    A.constrain(s, leaf, ai.isub(((0, 255),), ai.iv(*[(x, x) for x in known])))
                    out.append((s, leaf))
                else:
                    out.append((s, C(ord(L if name == "toupper" else L.lower()))))
            return out
        if name in CONV:
            out = []
            for t in (True, False):
                s = st.copy()
                A.default_call(s, I, name, args)
                if t:
                    A.store_expr(s, args[2], 4, ("x", ("converted",), 32), ("w", I.bb.name, I.idx))
                s.ts = ((name, args[0], args[1], t), let, xd, wn)
                out.append((s, C(1 if t else 0)))
            return out
        if name in ("show_warning", "SetLastSPASMWarning", "SetLastSPASMError", "show_error"):
            keep = st.mem.get((P(1), 0))        # diagnostics do not know the result
            A.default_call(st, I, name, args)
            st.ts = (conv, let, xd, True)
            if keep is not None:
                st.mem[(P(1), 0)] = keep
            return [(st, None)]
        return None

    def ret(self, A, st, I, v):
        if A.reporting:
            self.rets.append((A, st, I, v, A.load_expr(st, P(1), 4, 32)))


def literal_rule(m, R):
    f = m.fn("parse_single_num")
    w = fn_where(m, f)

    def run(text):
        r = LitRule(m, text)
        ai.Analysis(m, f, r, max_visits=4000).run()
        return r.rets

    def converted(rets, want, lab):
        """want(ts, end pointer) -> (conversion, from, to)"""
        n = good = 0
        for A, st, I, v, val in rets:
            conv, let, xd, wn = st.ts
            x = want(st.ts, v)
            if x is None:
                continue
            n += 1
            if v == C(0):
                good += conv is not None and not conv[3] and conv[:2] == x[:2]
                continue
            good += conv is not None and conv[3] and conv[:3] == x and val == ("x", ("converted",), 32)
        R.check(n >= 2 and good == n, "literal", w, "%s is read as %s" % (lab, x_name(lab)),
                "%s is not read as %s of exactly its digits" % (lab, x_name(lab)), lab)

    def x_name(lab):
        return "hexadecimal" if "hex" in lab else "binary" if "binary" in lab else "decimal"
    rets = run("$")
    converted(rets, lambda ts, v: ("conv_hex", ai.add(64, P(0), 1), v) if ts[2] else None, "$digits (hex)")
    here = [(A, st, v, val) for A, st, I, v, val in rets if not st.ts[2]]
    pc = ("x", ("ld", G("program_counter"), 4, "entry"), 32)
    R.check(bool(here) and all(val == pc and v == ai.add(64, P(0), 1) and st.ts[0] is None for A, st, v, val in here),
            "literal", w, "$ alone is the location counter", "$ alone is not the location counter", "$")
    converted(run("%"), lambda ts, v: ("conv_bin", ai.add(64, P(0), 1), v), "%digits (binary)")
    for d in "059":
        rets = run(d)
        for L, fn in (("H", "conv_hex"), ("B", "conv_bin"), ("D", "conv_dec"), (None, "conv_dec")):
            def want(ts, v, L=L, fn=fn):
                if ts[1] is None:
                    return None
                l = ts[1][0] if ts[1][0] in ("H", "B", "D") else None
                if l != L:
                    return None
                last = ts[1][1]
                if last is None:        # the last character is the first one
                    last = P(0)
                end = last if L else ai.add(64, last, 1)
                if v != C(0) and v != ai.add(64, last, 1):
                    return ("ends elsewhere", None, None)
                return (fn, P(0), end)
            converted(rets, want, "%s..%s (%s)" % (d, L or "", {"conv_hex": "hex", "conv_bin": "binary", "conv_dec": "decimal"}[fn]))
    # character literals
    at1, at2 = ("x", ("at", ai.add(64, P(0), 1)), 8), ("x", ("at", ai.add(64, P(0), 2)), 8)
    n, good = 0, True
    for A, st, I, v, val in run("'?"):
        n += 1
        good = good and bits.equal(val, ai.cast("sext", 32, at1, 8), 8, lambda e: A.iset(st, e)) and v == ai.add(64, P(0), 2 if st.ts[3] else 3)
    R.check(good and n > 0, "literal", w, "'c' is the code of c", "'c' is not the code of its character", "'c'")
    seen = set()
    for A, st, I, v, val in run("'\\*"):
        L = st.ts[1][0] if st.ts[1] else None
        if L in ("H", "B", "D"):
            L = None
        seen.add(L)
        if L == "#":
            continue            # random by definition (O06)
        want = ESC.get(L)
        S = A.iset(st, val)
        ok = v == ai.add(64, P(0), 3 if st.ts[3] else 4) and (
            S == ((want, want),) if want is not None else bits.equal(val, ai.cast("sext", 32, at2, 8), 8, lambda e: A.iset(st, e)))
        R.check(ok, "literal", w, "'\\%s' is %s" % (L or "c", "its code" if want is None else want),
                "'\\%s' is not %s" % (L or "c", "the code of c" if want is None else want), "escape " + str(L))
    R.check(set(ESC) <= seen, "literal", w, "every escape is recognised", "escapes without a case: %s" % sorted(
        set(ESC) - seen), "escapes")
    for t, lab in (("'\0", "'"), ("'\\\0", "'\\")):
        bad = [I for A, st, I, v, val in run(t) if v != C(0)]
        R.check(not bad, "literal", fn_where(m, f, bad[0] if bad else None), "an open %s is refused" % lab,
                "a text that ends behind %s is read beyond its end" % lab, "open " + lab)


# ------------------------------------------------------------------ X03
# reading of source lines; its nesting is P03
SOURCE = {"run_first_pass", "run_first_pass_line", "run_first_pass_line_sec"}
LIM = 1000      # any limit above this counts as none
# recursion that consumes the text or list it recurses on
STRUCTURAL = {("do_if", "handle_preop_if"), ("match_opcode_args", "match_opcode_args"),
              ("ReplayErrorRecursive", "ReplayErrorRecursive")}


def call_graph(m):
    g = {}
    for f in m.own:
        g.setdefault(f.name, set())
        for I in f.instrs():
            if I.op == "call":
                n = m.callee_name(I)
                if n is not None and m.fn(n, False) is not None:
                    g[f.name].add(n)
    return g


def cyclic(nodes, edges):
    """A cycle among nodes along edges, or None."""
    state = {}
    for r in sorted(nodes):
        if r in state:
            continue
        stack = [(r, iter(sorted(edges.get(r, ()))))]
        state[r] = 1
        path = [r]
        while stack:
            n, it = stack[-1]
            for x in it:
                if x not in nodes:
                    continue
                if state.get(x) == 1:
                    return path[path.index(x):] + [x]
                if x not in state:
                    state[x] = 1
                    path.append(x)
                    stack.append((x, iter(sorted(edges.get(x, ())))))
                    break
            else:
                state[n] = 2
                path.pop()
                stack.pop()
    return None


def components(edges):
    """Functions that lie on some cycle."""
    reach = {}
    for n in edges:
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            for y in edges.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        reach[n] = seen
    return {n for n in edges if n in reach[n]}, reach


class Nest(ai.Rule):
    """What a function does to the nesting counters around its calls within the recursion."""

    def __init__(self, m, f, cs, group, rough, flags):
        self.m, self.f, self.cs, self.group, self.rough, self.flags = m, f, cs, group, rough, flags
        self.tops = sorted({I.ops[1][1] for I in f.instrs() if I.op == "store" and I.ops[1][0] == "g" and I.ops[1][1] in cs})
        self.calls = []         # (I, callee, {counter: (delta or None, bounded)}, self-recursion step)
        self.exits = []         # (I, {counter: (delta, exact)}, tripped, reported)

    def init(self, A, st):
        self.e = {}
        for c in self.cs:
            x = A.load_expr(st, G(c), 4, 32)
            self.e[c] = x
            A.constrain(st, x, ((0, (1 << 31) - 1000),))
            st.mem[(G(c), 0)] = (x, 4)
        for k, (r, t) in enumerate(self.f.params):
            if t.k == "i" and t.n == 32:
                pass
        st.ts = (frozenset(), False)        # counters that may be above their cell, a diagnostic was raised

    def key(self, A, st):
        # what is above a limit stays apart from what is not
        return st.ts, tuple(self.bound(A, st, c) <= LIM for c in self.tops)

    def delta(self, A, st, c):
        v = A.load_expr(st, G(c), 4, 32)
        a, b = bits.linkey(v, 32), bits.linkey(self.e[c], 32)
        d = ai.binop("sub", 32, v, self.e[c])
        return d[1] if d[0] == "c" else None

    def bound(self, A, st, c):
        """Upper bound known for a counter, on its own or together with a depth parameter that starts at zero."""
        v = A.load_expr(st, G(c), 4, 32)
        hi = A.iset(st, v)[-1][1]
        for k, (r, t) in enumerate(self.f.params):
            if t.k == "i" and t.n == 32:
                S = A.iset(st, ai.binop("add", 32, P(k, 32), v))
                hi = min(hi, S[-1][1])
        return hi

    def store(self, A, st, I, addr, val):
        if addr[0] == "g" and addr[1] in self.cs and val == self.e[addr[1]]:
            st.ts = (st.ts[0] - {addr[1]}, st.ts[1])
        if addr[0] == "g" and addr[1] in self.flags and val in (C(1), C(-1)):
            st.ts = (st.ts[0], True)

    def call(self, A, st, I, n, args):
        if n == "SetLastSPASMError" or n == "show_error" or n == "show_fatal_error":
            st.ts = (st.ts[0], True)
        keep = {c: A.load_expr(st, G(c), 4, 32) for c in self.cs}
        if n in self.group:
            if A.reporting:
                info = {c: (self.delta(A, st, c), self.bound(A, st, c)) for c in self.cs}
                step = None
                if n == self.f.name:
                    for k, (r, t) in enumerate(self.f.params):
                        if t.k == "i" and t.n == 32 and args[k] == ai.add(32, P(k, 32), 1):
                            hi = A.iset(st, P(k, 32))[-1][1]
                            for c in self.cs:
                                hi = min(hi, A.iset(st, ai.binop("add", 32, P(k, 32), keep[c]))[-1][1])
                            step = hi if step is None else min(hi, step)
                self.calls.append((I, n, info, step))
        A.default_call(st, I, n, args)
        up = set()
        for c in self.cs:
            st.mem[(G(c), 0)] = (keep[c], 4)
            if (n, c) in self.rough:
                up.add(c)
        if up:
            st.ts = (st.ts[0] | up, st.ts[1])
        return [(st, None)]

    def ret(self, A, st, I, v):
        if A.reporting:
            info = {c: (self.delta(A, st, c), c not in st.ts[0]) for c in self.cs}
            low = {c: A.iset(st, A.load_expr(st, G(c), 4, 32)) for c in self.cs}
            self.exits.append((I, info, st.ts[1]))


def nesting(m):
    r = getattr(m, "_nesting", None)
    if r is not None:
        return r
    g = call_graph(m)
    edges = {n: {x for x in s if x not in SOURCE and (n, x) not in STRUCTURAL} for n, s in g.items() if n not in SOURCE}
    group, reach = components(edges)
    # candidate counters: scalar globals some function of the recursion counts up
    cs = set()
    flags = set()
    for f in m.own:
        for I in f.instrs():
            if I.op == "store" and I.ops[1][0] == "g":
                gl = m.globals.get(I.ops[1][1])
                if gl is None or gl["const"]:
                    continue
                t = m.norm(gl["type"])
                if f.name in group and t.k == "i" and t.n == 32:
                    cs.add(I.ops[1][1])
                if t.k == "i" and t.n == 8:
                    flags.add(I.ops[1][1])
    r = m._nesting = (edges, group, reach, cs, flags, g)
    return r


def free_flags(m, flags):
    """Flags that are only reached by name."""
    from rules_diag import own_cells
    r = set()
    for x in flags:
        try:
            own_cells(m, x)
            r.add(x)
        except AnalysisBroken:
            pass
    return r


def check_X03(m, R):
    from rules_diag import own_cells
    edges, group, reach, cs, flags, g = nesting(m)
    R.count("functions that evaluate recursively", len(group))
    fs = [f for f in m.own if f.name in group]
    cs = sorted(cs)
    usable = []
    for c in cs:
        try:
            own_cells(m, c)
        except AnalysisBroken:
            continue
        usable.append(c)
    # counters that are only ever counted up and down (each candidate on its own is cheap to decide)
    cs = usable
    mr = own_cells(m, *cs, *sorted(set(flags) & free_flags(m, flags)))
    rough = set()
    while True:
        runs = {}
        changed = False
        for f in fs:
            r = Nest(m, f, cs, group, rough, flags)
            ai.Analysis(m, f, r, mr, max_visits=4000).run()
            runs[f.name] = r
            for I, info, rep in r.exits:
                for c, (d, exact) in info.items():
                    if (d != 0 or not exact) and (f.name, c) not in rough:
                        rough.add((f.name, c))
                        changed = True
        if not changed:
            break
    # a counter counts nesting only if no function of the recursion takes it below the value it was entered with
    good = []
    for c in cs:
        ok = True
        up = False
        for f in fs:
            r = runs[f.name]
            for I, n, info, step in r.calls:
                d = info[c][0]
                ok = ok and d is not None and d >= 0
                up = up or (d or 0) > 0
            for I, info, rep in r.exits:
                d = info[c][0]
                ok = ok and d is not None and d >= 0
        if ok and up:
            good.append(c)
    R.count("nesting counters", len(good))
    R.note("nesting counters: " + ", ".join(good))
    inc = {c: set() for c in good}
    bnd = {c: set() for c in good}
    for f in fs:
        calls = runs[f.name].calls
        for c in good:
            if calls and all(info[c][0] >= 1 for I, n, info, step in calls):
                inc[c].add(f.name)
            if calls and all(info[c][1] <= LIM for I, n, info, step in calls):
                bnd[c].add(f.name)
    # recursion on a parameter
    e2 = {n: set(s) for n, s in edges.items()}
    for f in fs:
        own = [x for x in runs[f.name].calls if x[1] == f.name]
        if own and all(x[3] is not None and x[3] <= LIM for x in own):
            e2[f.name].discard(f.name)
            R.ok("bounded", "%s recurses on a depth it limits" % f.name)
    # an edge that the (constant) arguments of its calls rule out
    for a in sorted(group):
        for b in sorted(e2.get(a, ())):
            if b in group and b != a and ruled_out(m, m.fn(a), m.fn(b), group):
                e2[a].discard(b)
    import itertools
    worst = None
    for pick in itertools.product((0, 1), repeat=len(good)):
        cut = set()
        for k, c in zip(pick, good):
            cut |= (inc if k == 0 else bnd)[c]
        cyc = cyclic(group - cut, e2)
        if cyc:
            worst = cyc
            break
    f0 = m.fn(worst[0]) if worst else m.fn("parse_num_full")
    R.check(worst is None, "bounded", fn_where(m, f0), "every cycle of evaluation (%d functions) counts up and checks a nesting counter"
            % len(group), "the recursion %s is not bounded by any nesting limit" % " -> ".join(worst or ()),
            "cycle " + " ".join(sorted(set(worst or ()))))
    for f in fs:
        R.ok("analysed", f.name)
    used = [c for c in good if inc[c] and bnd[c]]
    # the level is back where it was for everyone outside the recursion
    called = {}
    for a, s in g.items():
        for b in s:
            if b in group and a not in group:
                called.setdefault(b, set()).add(a)
    for b in sorted(called):
        for c in used:
            R.check((b, c) not in rough, "restored", fn_where(m, m.fn(b)), "%s leaves %s as it was" % (b, c),
                    "%s can return with the nesting level %s changed" % (b, c), "%s %s" % (b, c))
    # the limit is reported
    for c in used:
        for name in sorted(bnd[c]):
            limit_rule(m, R, m.fn(name), c, group, flags, mr, cs)
    R.need("bounded", 2)
    R.need("restored", 6)
    R.need("diagnosed", 2)


def ruled_out(m, fa, fb, group):
    """Every call of fb in fa has constant arguments with which fb calls nothing of the recursion."""
    sets = set()
    for I in fa.instrs():
        if I.op == "call" and m.callee_name(I) == fb.name:
            sets.add(tuple((k, a[1]) for k, a in enumerate(I.ops) if a[0] == "c" and fb.params[k][1].k == "i"))
    if not sets or () in sets:
        return False
    for cons in sets:
        seen = []

        class Ru(ai.Rule):
            def init(self, A, st):
                for k, v in cons:
                    t = fb.params[k][1]
                    A.constrain(st, P(k, t.n), ((ai.wrap(v, t.n), ai.wrap(v, t.n)),))

            def call(self, A, st, I, n, args):
                if n in group and A.reporting:
                    seen.append(n)
                return None
        ai.Analysis(m, fb, Ru(), max_visits=4000).run()
        if seen:
            return False
    return True


def limit_rule(m, R, f, c, group, flags, mr, cs):
    """Beyond the limit the function raises a diagnostic, or a flag whose reader does."""
    outs = []

    class Ru(ai.Rule):
        def init(self, A, st):
            self.e = A.load_expr(st, G(c), 4, 32)
            A.constrain(st, self.e, ((1001, 1 << 30),))
            for k, (r, t) in enumerate(f.params):
                if t.k == "i" and t.n == 32:
                    A.constrain(st, P(k, 32), ((0, 1000),))
            for x in cs:
                st.mem[(G(x), 0)] = (A.load_expr(st, G(x), 4, 32), 4)
            st.ts = (False, frozenset())

        def store(self, A, st, I, addr, val):
            if addr[0] == "g" and addr[1] in flags:
                s = set(st.ts[1])
                (s.add if val in (C(1), C(-1)) else s.discard)(addr[1])
                st.ts = (st.ts[0], frozenset(s))

        def call(self, A, st, I, n, args):
            if n in ("SetLastSPASMError", "show_error", "show_fatal_error"):
                A.default_call(st, I, n, args)
                st.ts = (True, st.ts[1])
                return [(st, None)]
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append((I, st.ts))
    ai.Analysis(m, f, Ru(), mr, max_visits=4000).run()
    ok = bool(outs)
    for I, (err, fl) in outs:
        if err:
            continue
        ok = ok and any(flag_reported(m, x, group) for x in fl)
    R.check(ok, "diagnosed", fn_where(m, f), "%s reports that %s is beyond its limit" % (f.name, c),
            "%s gives up at the nesting limit without a diagnostic" % f.name, f.name + " " + c)


def raises_on(m, f, flag, group):
    """f raises an error on every path when it is entered with the flag set."""
    outs = []

    class Ru(ai.Rule):
        def init(self, A, st):
            A.constrain(st, A.load_expr(st, G(flag), 1, 8), ((1, 1),))
            st.ts = False

        def call(self, A, st, I, n, args):
            if n in ("SetLastSPASMError", "show_error", "show_fatal_error"):
                A.default_call(st, I, n, args)
                st.ts = True
                return [(st, None)]
            return None

        def ret(self, A, st, I, v):
            if A.reporting:
                outs.append(st.ts)
    ai.Analysis(m, f, Ru(), max_visits=4000).run()
    return bool(outs) and all(outs)


def flag_reported(m, flag, group):
    """Whoever takes the flag back raises an error for it, or has had the text evaluated by a function that raises one
    whenever it finds the flag set; and someone raises it where nothing around can."""
    some = False
    for f in m.own:
        hits = []

        class Ru(ai.Rule):
            def init(self, A, st):
                st.ts = (False, False)

            def call(self, A, st, I, n, args):
                if n == "SetLastSPASMError":
                    A.default_call(st, I, n, args)
                    st.ts = (st.ts[0], True)
                    return [(st, None)]
                return None

            def store(self, A, st, I, addr, val):
                if addr == G(flag) and val == C(0):
                    st.ts = (True, st.ts[1])

            def ret(self, A, st, I, v):
                if A.reporting:
                    hits.append(st.ts)
        if not any(I.op == "store" and I.ops[1] == ("g", flag) and I.ops[0] == ("c", 0) for I in f.instrs()):
            continue
        ai.Analysis(m, f, Ru(), max_visits=4000).run()
        cleared = [b for a, b in hits if a]
        if not cleared:
            continue
        if all(cleared):
            some = True
            continue
        called = {m.callee_name(I) for I in f.instrs() if I.op == "call"} & group
        if not any(raises_on(m, m.fn(n), flag, group) for n in sorted(called)):
            return False
    return some


CHECKS = {
    "X01": (check_X01, "proof", ["skip_whitespace skips white space only; the machine's shift counts are taken modulo 32 by the compiled code."]),
    "X02": (check_X02, "proof", ["strtoll implements the C standard's conversion of digits of a base."]),
    "X03": (check_X03, "proof", ["Calls through pointers (table callbacks) do not evaluate expressions."]),
}
