"""M06: no division traps: the divisor is not zero, and the smallest number is not divided by minus one."""
import ai
from ai import C
from ir import AnalysisBroken
from util import fn_where
from core import parallel

ZERO, MONE = ((0, 0),), ((-1, -1),)
DIVS = ("sdiv", "udiv", "srem", "urem")


class Div(ai.Rule):
    def __init__(self, m, f):
        self.m, self.f = m, f
        self.divs = [I for I in f.instrs() if I.op in DIVS]
        self.seen = {}

    def init(self, A, st):
        st.ts = ()

    def key(self, A, st):
        return st.ts

    def holds(self, A, st, I, o, S, ahead=False):
        """The operand may be in S here."""
        if o[0] == "c":
            return any(lo <= o[1] <= hi for lo, hi in S)
        d = self.f.defs.get(o[1])
        if ahead and d is not None and d.op == "load" and d.bb is I.bb and d.ops[0][0] in ("v", "g"):
            # read just before the division: what the variable holds now
            if d.ops[0][0] == "v" and (self.f.defs.get(d.ops[0][1]) is None or self.f.defs[d.ops[0][1]].op != "alloca"):
                return None
            e = A.load_expr(st, A.val(st, d.ops[0]), d.ty.n // 8, d.ty.n)
            return any(lo <= e[1] <= hi for lo, hi in S) if e[0] == "c" else bool(ai.iinter(A.iset(st, e), S))
        if o[0] == "v" and o[1] not in st.env and not any(r == o[1] for r, t in self.f.params):
            return None
        v = A.val(st, o, I.ty)
        return any(lo <= v[1] <= hi for lo, hi in S) if v[0] == "c" else bool(ai.iinter(A.iset(st, v), S))

    def facts(self, A, st, I, ahead=False):
        least = ((-(1 << (I.ty.n - 1)),) * 2,)
        return (self.holds(A, st, I, I.ops[1], ZERO, ahead),
                I.op in ("sdiv", "srem") and self.holds(A, st, I, I.ops[1], MONE, ahead),
                I.op in ("sdiv", "srem") and self.holds(A, st, I, I.ops[0], least, ahead))

    def edge(self, A, st, src, dst):
        # paths that know something about an operand are kept apart
        st.ts = tuple(self.facts(A, st, I, True) if any(o[0] != "c" for o in I.ops[1:]) else None for I in self.divs)
        return True


def scan(m, f):
    q = Div(m, f)
    A = ai.Analysis(m, f, q, max_visits=20000)
    out = {}
    real = A.step

    def step(st, I):
        if A.reporting and I.op in DIVS:
            z, mo, le = q.facts(A, st, I)
            out.setdefault(I, set()).update(x for x, on in (("a divisor that can be 0", z is not False), ("the smallest number divided by -1", mo is not False and le is not False)) if on)
        return real(st, I)
    A.step = step
    A.run()
    return q, out


def check_M06(m, R):
    def one(R, f):
        if not any(I.op in DIVS for I in f.instrs()):
            return
        if all(I.ops[1][0] == "c" and I.ops[1][1] not in (0, -1) for I in f.instrs() if I.op in DIVS):
            for I in f.instrs():
                if I.op in DIVS:
                    R.ok("constant", "%s: divided by %d" % (fn_where(m, f, I), I.ops[1][1]))
            return
        q, out = scan(m, f)
        for I in q.divs:
            if I not in out:
                R.ok("dead", "%s: not reached" % fn_where(m, f, I))
                continue
            for what in sorted(out[I]):
                R.bad("trap", fn_where(m, f, I), "%s: the program is killed" % what, "%s %s" % (f.name, what))
            if not out[I]:
                R.ok("constant" if I.ops[1][0] == "c" else "trap", "%s: %s cannot trap" % (fn_where(m, f, I), I.op))
    parallel(R, [f for f in m.own if f.blocks], one)
    R.need("constant", 10)
    R.need("trap", 2)


CHECKS = {"M06": (check_M06, "proof", ["x86-64: an integer division traps on divisor 0 and on the smallest number by -1"])}
