"""O04: the output position never leaves the output image, and nothing is stored outside it."""
import ai
import core
from ai import C
from ir import AnalysisBroken
from util import G, fn_where, callers
from rules_expr import const_at

BASE = 1 << 40
ALLOC = {"malloc": lambda a: a[0], "calloc": None}
TELL = ("show_fatal_error", "show_fatal_error_prefix", "SetLastSPASMError", "show_error")


def global_named(m, name):
    return name if name in m.globals else None


def field_geps(m):
    """Registers, per function, that hold the address of a queued operand's output position."""
    fields = m.struct_fields("expr_t") or {}
    if "out_ptr" not in fields:
        raise AnalysisBroken("expr_t.out_ptr not found")
    return fields["out_ptr"][0]


def image_size(m, R):
    """What is allocated for the image; every assignment of the image pointer is such an allocation, or empties it."""
    sizes = []
    for f in m.own:
        for I in f.instrs():
            if I.op == "store" and I.ops[1] == ("g", "output_contents"):
                v = I.ops[0]
                if v[0] == "null" or v == ("c", 0):
                    R.ok("allocated", "%s: the image is dropped" % fn_where(m, f, I))
                    continue
                D = next((J for J in f.instrs() if v[0] == "v" and J.res == v[1]), None)
                n = m.callee_name(D) if D is not None and D.op == "call" else None
                k = None
                if n == "malloc" and D.ops[0][0] == "c":
                    k = D.ops[0][1]
                elif n == "calloc" and D.ops[0][0] == "c" and D.ops[1][0] == "c":
                    k = D.ops[0][1] * D.ops[1][1]
                if k is None:
                    R.bad("allocated", fn_where(m, f, I), "the output image is set to something other than a block of constant size", "alloc %s" % f.name)
                else:
                    sizes.append(k)
                    R.ok("allocated", "%s: %d bytes" % (fn_where(m, f, I), k))
    if not sizes:
        raise AnalysisBroken("no allocation of the output image found")
    return min(sizes)


def linear(e, sgn=1, out=None):
    """A value as constant and {leaf: coefficient}, as if no operation wrapped around."""
    out = {} if out is None else out
    k = e[0]
    c = 0
    if k == "c":
        c = sgn * e[1]
    elif k == "+":
        c = sgn * e[3] + linear(e[2], sgn, out)[0]
    elif k == "op" and e[1] in ("add", "sub"):
        c = linear(e[3], sgn, out)[0] + linear(e[4], sgn if e[1] == "add" else -sgn, out)[0]
    elif k == "cast" and e[1] == "sext" and (e[3][0] == "+" or e[3][0] == "op" and e[3][1] in ("add", "sub")):
        c = linear(e[3], sgn, out)[0]
    else:
        if k == "cast" and e[1] == "sext":
            e = e[3]
        out[e] = out.get(e, 0) + sgn
    return c, out


def form(e):
    c, t = linear(e)
    return c, frozenset((k, v) for k, v in t.items() if v)


class Image(ai.Rule):
    """The image at a known address; the position somewhere in it (or at its end)."""

    def __init__(self, m, f, size, foff):
        self.m, self.f, self.size, self.foff = m, f, size, foff
        self.inside = ((BASE, BASE + size),)
        self.probs, self.stores, self.moves, self.passed, self.sink = [], set(), set(), set(), False
        self.drops = []
        self.structs = {}
        offs = {v[0] for v in m.struct_fields("expr_t").values()}
        for I in f.instrs():
            if I.op == "gep":
                t = m.norm(I.x)
                if t.k == "st" and len(I.ops) == 3 and I.ops[2][0] == "c":
                    o = m.offsets(t)
                    if o[I.ops[2][1]] == foff and set(o) == offs:
                        self.structs[I.res] = True

    def init(self, A, st):
        st.ts = (False, False)                     # a byte was stored, something was reported

    def key(self, A, st):
        return st.ts

    def field(self, I, k):
        return I.ops[k][0] == "v" and I.ops[k][1] in self.structs

    def load(self, A, st, I, addr):
        if addr == G("output_contents"):
            return C(BASE)
        if addr == G("out_ptr") or self.field(I, 0):
            r = A.load_expr(st, addr, 8, 64)
            A.constrain(st, r, self.inside)
            return r
        return None

    def place(self, A, st, v):
        """What a value can be; a difference that is known to be small is the same in 32 and in 64 bits."""
        S = A.iset(st, v)
        if ai.subset(S, self.inside):
            return S
        c, t = form(v)
        if not t:
            return S
        for e, R in list(st.cons.items()):
            if ai.width(e) == 64 and e[0] != "x" and R:
                d, u = form(e)
                # both are places in the image and differ by less than 2^31 from a place: nothing wrapped
                r = ai.ishift(R, c - d)
                if u == t and ai.subset(r, self.inside) and any(ai.subset(A.iset(st, x), self.inside) for x, k in t if k == 1):
                    return r
        return S

    def near(self, A, st, v):
        """Whether a value is a place in (or near) the image."""
        S = A.iset(st, v)
        return bool(S) and S[0][0] >= BASE - (1 << 33) and S[-1][1] <= BASE + (1 << 33)

    def derived(self, A, st, v):
        return self.near(A, st, v) or ai.mentions(v, lambda e: e == ("c", BASE) or e[0] == "x" and e[1][0] == "ld" and e[1][1] == G("out_ptr"))

    def store(self, A, st, I, addr, v):
        w = self.m.size(I.ty) if I.ty is not None else 1
        if addr == G("out_ptr") or self.field(I, 1):
            S = self.place(A, st, v)
            if A.reporting:
                self.moves.add((I.bb.name, I.idx))
                if not ai.subset(S, self.inside):
                    self.probs.append(("position", I, "the output position can be moved out of the image", "moved"))
            return
        if addr[0] in ("g", "al"):
            return
        if self.derived(A, st, addr):
            S = A.iset(st, addr)
            st.ts = (True, st.ts[1])
            if A.reporting:
                self.stores.add((I.bb.name, I.idx))
                if not ai.subset(S, ((BASE, BASE + self.size - w),)):
                    self.probs.append(("inside", I, "a byte can be stored outside the image", "stored"))

    def call(self, A, st, I, n, args):
        if n in TELL:
            st.ts = (st.ts[0], True)
        for i, a in enumerate(args):
            if i == 0 and n and (n.startswith("llvm.mem") or n in ("memcpy", "memset", "memmove")) and self.near(A, st, a):
                S, L = A.iset(st, a), A.iset(st, args[2])
                if A.reporting:
                    self.stores.add((I.bb.name, I.idx))
                    if not (L and S[-1][1] + L[-1][1] <= BASE + self.size and S[0][0] >= BASE and L[0][0] >= 0):
                        self.probs.append(("inside", I, "bytes can be stored outside the image", "stored"))
            elif self.near(A, st, a) and A.reporting:
                self.passed.add((n, i, I.bb.name, I.idx))
        return None

    def ret(self, A, st, I, v):
        if A.reporting and not st.ts[0] and not st.ts[1]:
            E = A.iset(st, A.load_expr(st, G("error_occurred"), 1, 8))
            if ai.iinter(E, ((0, 0),)):
                self.drops.append(("told", I, "a byte can be dropped without a word", "dropped"))


def touches(m, f, foff):
    names = ("out_ptr", "output_contents")
    for I in f.instrs():
        for o in I.ops:
            if isinstance(o, tuple) and o and o[0] == "g" and o[1] in names:
                return True
    return bool(Image(m, f, 1, foff).structs)


def check_image(m, R):
    foff = field_geps(m)
    size = image_size(m, R)
    fs = [f for f in m.own if touches(m, f, foff)]

    def one(r, f):
        q = Image(m, f, size, foff)
        A = ai.Analysis(m, f, q, max_visits=4000)
        A.run()
        q.sink = bool(q.stores)
        if q.sink:
            q.probs += q.drops
        seen = set()
        for rule, I, text, key in q.probs:
            if (rule, key) not in seen:
                seen.add((rule, key))
                r.bad(rule, fn_where(m, f, I), text, "%s %s" % (f.name, key))
        for k in sorted(q.moves):
            r.ok("position", "%s: %s" % (fn_where(m, f, f.bmap[k[0]].ins[k[1]]), "the position stays in the image"))
        for k in sorted(q.stores):
            r.ok("inside", "%s: within the image" % fn_where(m, f, f.bmap[k[0]].ins[k[1]]))
        if q.sink:
            r.ok("told", "%s: a byte is stored, or an error is or was reported" % fn_where(m, f))
        for n, i, b, k in sorted(q.passed, key=str):
            g = m.fn(n, False) if n else None
            if g is None or not g.blocks:
                if n not in ("free", "printf", "fprintf", "fwrite"):
                    r.bad("passed", fn_where(m, f, f.bmap[b].ins[k]), "the image is handed to %s" % n, "%s %s" % (f.name, n))
                continue
            if writes_through(m, g, i, set()):
                r.bad("passed", fn_where(m, f, f.bmap[b].ins[k]), "%s writes through the image pointer it is given" % n, "%s %s" % (f.name, n))
            else:
                r.ok("passed", "%s: %s only reads it" % (fn_where(m, f, f.bmap[b].ins[k]), n))
    core.parallel(R, fs, one)
    R.need("position", 4)
    R.need("inside", 1)
    R.need("allocated", 1)
    R.need("told", 1)


def writes_through(m, g, i, seen):
    """Whether a function stores through (or lets out of sight) the pointer it gets as parameter i."""
    if (g.name, i) in seen:
        return False
    seen.add((g.name, i))
    regs, work = {g.params[i][0]}, [g.params[i][0]]
    while work:
        r = work.pop()
        for I in g.instrs():
            ops = [o for o in I.ops if isinstance(o, tuple) and o]
            if ("v", r) not in ops:
                continue
            if I.res is not None and I.op in ("gep", "phi", "select", "bitcast", "freeze") and I.res not in regs:
                regs.add(I.res)
                work.append(I.res)
            if I.op == "store":
                return True
            if I.op == "call":
                n = m.callee_name(I)
                for j, o in enumerate(I.ops):
                    if o != ("v", r):
                        continue
                    h = m.fn(n, False) if n else None
                    if h is not None and h.blocks:
                        if j >= len(h.params) or writes_through(m, h, j, seen):
                            return True
                    elif n and (n.startswith("llvm.memcpy") or n in ("memcpy", "memmove")) and j == 1:
                        pass
                    elif n in ("fwrite", "printf", "fprintf", "fputs", "memcmp", "strlen", "strcmp"):
                        pass
                    else:
                        return True
    return False


CHECKS = {"O04": (check_image, "proof", ["the allocation of the image succeeds", "a source's size and location counter stay within 32 bits"])}
