"""Helpers shared by the rules."""
import ai
import bits
from core import where
from ir import AnalysisBroken



def P(i, w=64):
    return ("x", ("param", i), w)


def G(name, off=0):
    return ("g", name, off)


def gval(A, st, name, size=4):
    return A.load_expr(st, G(name), size, size * 8)


def sym(m, name):
    """Resolved symbol of a global."""
    return m.resolve_sym(name)


def split_mode(A, st, mask):
    """Two states: mode & mask zero / non-zero."""
    out = []
    e = ai.binop("and", 32, gval(A, st, "mode"), ai.C(mask))
    for S in (((0, 0),), ((mask, mask),) if mask & (mask - 1) == 0 else ((1, mask),)):
        s = st.copy()
        if A.constrain(s, e, S):
            out.append((s, S != ((0, 0),)))
    return out


def const_returns(m, fname, *consts):
    """Interval set of the value fname returns for constant arguments (abstract interpretation of its body)."""
    f = m.fn(fname)

    class R(ai.Rule):
        def init(self, A, st):
            for i, c in enumerate(consts):
                st.env[f.params[i][0]] = ai.C(c)
            self.S = ()

        def ret(self, A, st, I, v):
            self.S = ai.iunion(self.S, A.iset(st, v))
    r = R()
    ai.Analysis(m, f, r).run()
    return r.S


def error_texts(m):
    """code -> [message texts] of the table of diagnostics."""
    t = getattr(m, "_errtexts", None)
    if t is None:
        g = m.globals.get("g_ErrorCodes")
        if g is None or not g.get("init"):
            raise AnalysisBroken("table of diagnostics g_ErrorCodes not found")
        t = {}
        for e in m.elems(g["type"], g["init"]):
            if e[0] != "st":
                continue
            s = m.cstring(e[1][1])
            t.setdefault(e[1][0][1] & 0xFFFFFFFF, []).append((s or b"").decode("latin-1"))
        m._errtexts = t
    return t


def errname(m, code):
    t = error_texts(m).get(code)
    return "0x%X (%s)" % (code, t[0]) if t else str(code)


def modebit(m, name):
    return m.enum("MODE_NORMAL")[name]


def callers(m, name):
    """[(function, call instruction)] of every direct call of name in own code."""
    out = []
    for f in m.own:
        for I in f.instrs():
            if I.op == "call" and m.callee_name(I) == name:
                out.append((f, I))
    return out


def fn_where(m, f, I=None):
    s = "%s:%s" % (f.file, f.name)
    if I is not None:
        loc = I.loc()
        if loc:
            s += ":%s" % loc[1]
    return s


def setstr(S):
    def n(x):
        return "-inf" if x <= -(1 << 62) else "inf" if x >= (1 << 62) else str(x)
    return "{" + ", ".join(n(a) if a == b else n(a) + ".." + n(b) for a, b in S) + "}"
