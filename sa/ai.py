"""Abstract interpreter over the parsed IR.

Domain: global value numbering (hash-consed expressions over opaque leaves) x interval sets on those
expressions x a store of memory cells, partitioned by a rule's typestate (property simulation: states that
agree on the typestate are joined, states that differ are kept apart).  Fixpoint with widening; no solver,
no path enumeration."""
import sys
from ir import AnalysisBroken, T
sys.setrecursionlimit(20000)

INF = 1 << 80


# ------------------------------------------------------------ interval sets
def iv(*pairs):
    ps = sorted(p for p in pairs if p[0] <= p[1])
    out = []
    for lo, hi in ps:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iunion(a, b):
    if a == b:
        return a
    return iv(*(a + b))


def iinter(a, b):
    if a == b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def icompl(a, u):
    out = []
    lo = u[0][0]
    hi = u[-1][1]
    for x, y in a:
        if lo < x:
            out.append((lo, min(x - 1, hi)))
        lo = max(lo, y + 1)
    if lo <= hi:
        out.append((lo, hi))
    return iinter(iv(*out), u)


def isub(a, b):
    """a \\ b"""
    if not a:
        return a
    return iinter(a, icompl(b, ((a[0][0], a[-1][1]),)))


def ishift(a, k):
    return tuple((x + k, y + k) for x, y in a)


def subset(a, b):
    return iinter(a, b) == a


def itop(w):
    if w == 1:
        return ((0, 1),)
    return ((-(1 << (w - 1)), (1 << (w - 1)) - 1),)


def ptop(w, ptr=False):
    return itop(w)


def limit(a, n=40):
    """Bound the number of pieces by closing the smallest gaps."""
    while len(a) > n:
        g = min(range(len(a) - 1), key=lambda i: a[i + 1][0] - a[i][1])
        a = a[:g] + ((a[g][0], a[g + 1][1]),) + a[g + 2:]
    return a


# ------------------------------------------------------------ expressions
def C(n):
    return ("c", n)


_W = {}


def width(e):
    k = e[0]
    if k == "c":
        return 64
    if k in ("g", "al"):
        return 64
    if k == "x":
        return e[2]
    if k == "+":
        return e[1]
    if k == "op":
        return e[2]
    if k == "cmp":
        return 1
    if k == "cast":
        return e[2]
    if k == "sel":
        return e[1]
    return 64


def wrap(n, w):
    if w == 1:
        return n & 1
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


def add(w, a, k):
    if k == 0:
        return a
    if a[0] == "c":
        return C(wrap(a[1] + k, w))
    if a[0] == "g":
        return ("g", a[1], a[2] + k)
    if a[0] == "al":
        return ("al", a[1], a[2] + k)
    if a[0] == "+":
        return add(w, a[2], wrap(a[3] + k, w))
    return ("+", w, a, wrap(k, w))


def split(e):
    """Pointer expression -> (base, constant offset)."""
    if e[0] in ("g", "al"):
        return (e[0], e[1], 0), e[2]
    if e[0] == "+":
        return e[2], e[3]
    return e, 0


def key_of(e):
    return repr(e)


COMM = {"add", "mul", "and", "or", "xor"}


def binop(op, w, a, b):
    if a[0] == "c" and b[0] == "c":
        x, y = a[1], b[1]
        m = (1 << w) - 1
        ux, uy = x & m, y & m
        r = None
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif op == "mul":
            r = x * y
        elif op == "and":
            r = ux & uy
        elif op == "or":
            r = ux | uy
        elif op == "xor":
            r = ux ^ uy
        elif op == "shl" and uy < w:
            r = ux << uy
        elif op == "lshr" and uy < w:
            r = ux >> uy
        elif op == "ashr" and uy < w:
            r = wrap(x, w) >> uy
        elif op == "udiv" and uy:
            r = ux // uy
        elif op == "urem" and uy:
            r = ux % uy
        elif op == "sdiv" and y:
            r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        elif op == "srem" and y:
            r = abs(x) % abs(y) * (1 if x >= 0 else -1)
        if r is not None:
            return C(wrap(r, w))
    if op == "add":
        if b[0] == "c":
            return add(w, a, b[1])
        if a[0] == "c":
            return add(w, b, a[1])
        # pull constants out
        ba, ka = split(a) if a[0] != "x" else (a, 0)
        bb, kb = split(b) if b[0] != "x" else (b, 0)
        if ka or kb:
            return add(w, binop("add", w, ba, bb), ka + kb)
        # x + (y - x) -> y
        for p, q in ((a, b), (b, a)):
            if q[0] == "op" and q[1] == "sub" and q[4] == p:
                return q[3]
    if op == "sub":
        if b[0] == "c":
            return add(w, a, -b[1])
        if a == b:
            return C(0)
        ba, ka = split(a)
        bb, kb = split(b)
        if (ka or kb) and a[0] in "+gal" and True:
            return add(w, binop("sub", w, ba, bb), ka - kb) if not (ba == a and bb == b) else ("op", "sub", w, a, b)
    if op in ("and",):
        if a == b:
            return a
        m = (1 << w) - 1
        for p, q in ((a, b), (b, a)):
            if q[0] == "c":
                if (q[1] & m) == m:
                    return p
                if q[1] == 0:
                    return C(0)
                if p[0] == "op" and p[1] == "and" and p[4][0] == "c":
                    return binop("and", w, p[3], C(wrap(p[4][1] & q[1], w)))
                # (zext a) & mask covering a
                if p[0] == "cast" and p[1] == "zext":
                    sw = (1 << width_src(p)) - 1
                    if (q[1] & sw) == sw:
                        return p
    if op == "or":
        if a == b:
            return a
        for p, q in ((a, b), (b, a)):
            if q == C(0):
                return p
            if w == 1 and q == C(1):
                return C(1)
    if op == "xor":
        if a == b:
            return C(0)
        for p, q in ((a, b), (b, a)):
            if q == C(0):
                return p
            if w == 1 and q[0] == "c" and p[0] == "op" and p[1] == "xor" and p[4] == C(1):
                return p[3]
    if op == "mul":
        for p, q in ((a, b), (b, a)):
            if q == C(1):
                return p
            if q == C(0):
                return C(0)
        # canonical: mul by power of two stays mul; shl becomes mul below
    if op == "shl" and b[0] == "c" and 0 <= b[1] < w:
        if b[1] == 0:
            return a
        return binop("mul", w, a, C(wrap(1 << b[1], w)))
    if op in ("lshr", "ashr", "sdiv", "udiv") and b == C(0 if "shr" in op else 1):
        return a
    if op in COMM and (a[0] == "c" or (b[0] != "c" and key_of(a) > key_of(b))):
        a, b = b, a
    return ("op", op, w, a, b)


def width_src(e):
    return e[4]


def cast(op, w, a, sw):
    """sw: source width."""
    if op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast") or sw == w and op in ("zext", "sext", "trunc"):
        return a
    if a[0] == "c":
        n = a[1]
        if op == "zext":
            return C(n & ((1 << sw) - 1) if sw > 1 else n & 1)
        if op == "sext":
            return C(-1 if sw == 1 and n else wrap(n, sw))
        if op == "trunc":
            return C(wrap(n, w))
    if op == "trunc":
        if a[0] == "cast" and a[1] in ("zext", "sext"):
            if a[4] == w:
                return a[3]
            if a[4] > w:
                return cast("trunc", w, a[3], a[4])
            return cast(a[1], w, a[3], a[4])
        if a[0] == "cast" and a[1] == "trunc":
            return cast("trunc", w, a[3], a[4])
        if a[0] == "op" and a[1] == "and" and a[4][0] == "c" and w > 1:
            m = (1 << w) - 1
            if (a[4][1] & m) == m:
                return cast("trunc", w, a[3], sw)
    if op in ("zext", "sext") and a[0] == "cast" and a[1] == op:
        return ("cast", op, w, a[3], a[4])
    if op == "sext" and a[0] == "cast" and a[1] == "zext":
        return ("cast", "zext", w, a[3], a[4])
    return ("cast", op, w, a, sw)


NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
        "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def cmpexpr(p, w, a, b):
    """Canonical comparison -> (expr, negated?)"""
    if a[0] == "c" and b[0] != "c":
        a, b, p = b, a, SWAP[p]
    elif b[0] != "c" and p in ("eq", "ne") and key_of(a) > key_of(b):
        a, b = b, a
    neg = False
    if p in ("ne", "sge", "uge"):
        p, neg = NEGP[p], True
    elif p in ("sle", "ule"):
        p, neg = NEGP[p], True
    if p in ("sgt", "ugt") and b[0] != "c":
        a, b, p = b, a, SWAP[p]
    if p == "sgt" and b[0] == "c":      # a > c  ==  !(a < c+1)
        if b[1] < (1 << (w - 1)) - 1:
            p, b, neg = "slt", C(b[1] + 1), not neg
    if p == "ugt" and b[0] == "c":
        if wrap(b[1], w) != -1:
            p, b, neg = "ult", C(wrap(b[1] + 1, w)), not neg
    return ("cmp", p, w, a, b), neg


def mentions(e, pred, memo=None):
    """Does any leaf tag of e satisfy pred?"""
    if e[0] == "x":
        if pred(e[1]):
            return True
        for s in e[1][1:]:
            if isinstance(s, tuple) and s and s[0] in ("x", "+", "op", "cmp", "cast", "sel") and mentions(s, pred):
                return True
        return False
    if e[0] == "+":
        return mentions(e[2], pred)
    for s in e[1:]:
        if isinstance(s, tuple) and s and isinstance(s[0], str) and s[0] in ("x", "+", "op", "cmp", "cast", "sel"):
            if mentions(s, pred):
                return True
    return False


_blocks_memo = {}


def leaf_blocks(e):
    r = _blocks_memo.get(e)
    if r is not None:
        return r
    s = set()
    st = [e]
    while st:
        x = st.pop()
        if x[0] == "x":
            t = x[1]
            if t[0] in ("phi", "call", "w", "memphi", "op"):
                s.add(t[1])
            elif t[0] == "ld":
                st.append(t[1])
                v = t[3]
                if v != "entry":
                    s.add(v[1])
            elif t[0] != "param":
                # a rule's own tag: a block name may stand first, expressions anywhere
                if len(t) > 1 and isinstance(t[1], str):
                    s.add(t[1])
                for y in t[1:]:
                    if isinstance(y, tuple) and y and y[0] in ("x", "+", "op", "cmp", "cast", "sel"):
                        st.append(y)
        else:
            for y in x[1:]:
                if isinstance(y, tuple) and y and y[0] in ("x", "+", "op", "cmp", "cast", "sel"):
                    st.append(y)
    r = frozenset(s)
    _blocks_memo[e] = r
    return r


def subexprs(e):
    yield e
    for y in e[1:]:
        if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in ("x", "+", "op", "cmp", "cast", "sel", "g", "al", "c"):
            yield from subexprs(y)


# ------------------------------------------------------------ mod summaries
EXT_WRITES = {  # external: written pointer args (by index); everything not listed writes through all pointer args
    "strlen": (), "strcmp": (), "strcasecmp": (), "strncasecmp": (), "strncmp": (), "strchr": (), "strrchr": (),
    "strpbrk": (), "strstr": (), "memcmp": (), "strspn": (), "strcspn": (), "toupper": (), "tolower": (),
    "isalnum": (), "isdigit": (), "isspace": (), "__ctype_b_loc": (), "__ctype_toupper_loc": (),
    "__ctype_tolower_loc": (), "printf": (), "puts": (), "putchar": (), "fputs": (), "fputc": (), "fprintf": (),
    "vprintf": (), "vfprintf": (), "fwrite": (), "fclose": (), "fopen": (), "fgetc": (), "fgets": (0,), "fseek": (),
    "ftell": (), "free": (), "malloc": (), "calloc": (), "realloc": (), "strdup": (), "getenv": (), "exit": (),
    "abort": (), "__assert_fail": (), "atoi": (), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,),
    "memcpy": (0,), "memmove": (0,), "memset": (0,), "sprintf": (0,), "snprintf": (0,), "vsnprintf": (0,),
    "fread": (0,), "sscanf": None, "atexit": (), "fflush": (), "rewind": (), "feof": (), "fgetpos": (1,),
    "fsetpos": (), "ferror": (), "access": (), "pow": (), "sin": (), "cos": (), "tan": (), "round": (), "floor": (),
    "llvm.va_start": (0,), "llvm.va_end": (0,), "llvm.va_copy": (0,), "perror": (), "getc": (), "ungetc": (),
    "strtol": (1,), "strtok": (0,), "strnlen": (), "rand": (), "srand": (), "time": (0,), "ftime": (0,),
}
NORETURN = {"exit", "abort", "__assert_fail", "_exit", "__cxa_pure_virtual"}


class ModRef:
    def __init__(self, mod):
        self.mod = mod
        self.addr_taken_funcs = set()
        self.gpriv = {}          # global -> True if only loaded/stored directly (address never escapes)
        self._scan_globals()
        self._compute()

    def _scan_globals(self):
        mod = self.mod
        taken = set()

        def esc(v):
            if v[0] == "g":
                taken.add(v[1])
            elif v[0] == "cgep":
                for x in v[2]:
                    esc(x)
            elif v[0] in ("arr", "st"):
                for x in v[1]:
                    esc(x)
            elif v[0] == "ccast":
                esc(v[2])
            elif v[0] == "cbin":
                esc(v[2]); esc(v[3])
        for g in mod.globals.values():
            if g["init"]:
                esc(g["init"])
        for f in mod.funcs.values():
            if f.declared:
                continue
            for I in f.instrs():
                if I.op == "load":
                    continue
                if I.op == "store":
                    esc(I.ops[0])
                    continue
                if I.op == "call":
                    n = mod.callee_name(I)
                    for o in I.ops:
                        if o[0] in ("g", "cgep"):
                            esc(o)
                    continue
                if I.op == "gep":
                    for o in I.ops[1:]:
                        esc(o)
                    if I.ops[0][0] == "g":
                        # address arithmetic on an array/struct global: escapes unless every use is load/store
                        taken.add(I.ops[0][1])
                    continue
                for o in I.ops:
                    if isinstance(o, tuple):
                        esc(o)
        self.taken = taken
        for g in mod.globals:
            self.gpriv[g] = g not in taken
        self.addr_taken_funcs = {f for f in mod.funcs if f in taken and not mod.funcs[f].declared}

    def root(self, f, v, depth=0):
        """Roots of a pointer value: set of ('G',name) ('P',i) ('L',reg) 'H'."""
        if v[0] == "g":
            return {("G", v[1])}
        if v[0] == "cgep":
            return self.root(f, v[2][0], depth)
        if v[0] in ("null", "c", "undef"):
            return set()
        if v[0] == "v":
            for i, (n, t) in enumerate(f.params):
                if n == v[1]:
                    return {("P", i)}
            I = f.defs.get(v[1])
            if I is None or depth > 30:
                return {"H"}
            if I.op == "alloca":
                return {("L", v[1])}
            if I.op in ("gep", "bitcast", "freeze"):
                return self.root(f, I.ops[0], depth + 1)
            if I.op == "phi":
                r = set()
                seen = getattr(self, "_seen", None)
                if seen is None:
                    self._seen = seen = set()
                k = (f.sym, v[1])
                if k in seen:
                    return r
                seen.add(k)
                for o in I.ops:
                    r |= self.root(f, o, depth + 1)
                seen.discard(k)
                return r
            if I.op == "select":
                return self.root(f, I.ops[1], depth + 1) | self.root(f, I.ops[2], depth + 1)
            if I.op == "call":
                n = self.mod.callee_name(I)
                if n in ("malloc", "calloc", "strdup", "realloc"):
                    return {"H"}
            return {"H"}
        return {"H"}

    def _compute(self):
        mod = self.mod
        self.mods = {f: set() for f in mod.funcs}
        calls = {}
        for s, f in mod.funcs.items():
            if f.declared:
                continue
            m = self.mods[s]
            cl = []
            for I in f.instrs():
                if I.op == "store":
                    for r in self.root(f, I.ops[1]):
                        if not (isinstance(r, tuple) and r[0] == "L"):
                            m.add(r)
                elif I.op == "call":
                    cl.append(I)
            calls[s] = cl
        changed = True
        while changed:
            changed = False
            for s, cl in calls.items():
                f = mod.funcs[s]
                m = self.mods[s]
                n0 = len(m)
                for I in cl:
                    for r in self.call_writes(f, I):
                        if not (isinstance(r, tuple) and r[0] == "L"):
                            m.add(r)
                if len(m) != n0:
                    changed = True

    def targets(self, I):
        cf = self.mod.callee_fn(I)
        if cf is not None:
            return [cf.sym] if not cf.declared else None
        if I.x[0] == "v":
            return [t for t in self.addr_taken_funcs
                    if len(self.mod.funcs[t].params) == len(I.ops)]
        return None

    def call_writes(self, f, I):
        """Roots (in f's terms) a call may write."""
        tg = self.targets(I)
        out = set()
        if tg is None:
            n = self.mod.callee_name(I) or ""
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n.startswith("llvm.memset"):
                idx = (0,)
            elif n.startswith("llvm."):
                idx = EXT_WRITES.get(n.split(".p0")[0], ())
            else:
                idx = EXT_WRITES.get(n)
            if idx is None:
                idx = [i for i, t in enumerate(I.tys) if t.k == "ptr"]
            for i in idx:
                if i < len(I.ops):
                    out |= self.root(f, I.ops[i])
            return out
        for t in tg:
            for r in self.mods[t]:
                if isinstance(r, tuple) and r[0] == "P":
                    if r[1] < len(I.ops):
                        out |= self.root(f, I.ops[r[1]])
                else:
                    out.add(r)
            cf = self.mod.funcs[t]
        return out


# ------------------------------------------------------------ states
def lform(e, n=32):
    import bits
    return bits.linkey(e, n)


def ladd(a, b, k=1, n=32):
    m = (1 << n) - 1
    d = dict(a[1])
    for x, v in b[1]:
        d[x] = (d.get(x, 0) + k * v) & m
    return (a[0] + k * b[0]) & m, frozenset((x, v) for x, v in d.items() if v)


def _bexprs(b, out):
    if isinstance(b, tuple):
        if b and b[0] == "b":
            out.add(b[1])
        else:
            for x in b:
                _bexprs(x, out)


_lbm = {}


def lblocks(f):
    """Blocks whose values the linear form mentions."""
    r = _lbm.get(f)
    if r is None:
        es = set()
        for b, _ in f[1]:
            _bexprs(b, es)
        s = set()
        for e in es:
            s |= leaf_blocks(e)
        r = _lbm[f] = frozenset(s)
    return r


def lleaf(b):
    """The 32-bit (or wider, truncated) value whose plain low bits these are."""
    if b and isinstance(b[0], tuple) and b[0][0] == "b":
        e = b[0][1]
        w = width(e)
        if all(isinstance(x, tuple) and x[0] == "b" and x[1] == e and x[2] == min(i, w - 1) for i, x in enumerate(b)):
            return e
        if w < len(b) and all(isinstance(x, tuple) and x[0] == "b" and x[1] == e and x[2] == i for i, x in enumerate(b[:w])) \
                and all(x == 0 for x in b[w:]):
            return e
    return None


def lshow(f):
    import bits
    if f is None:
        return "?"
    c, t = f
    out = []
    for b, k in sorted(t, key=repr):
        e = lleaf(b)
        k = k - (1 << 32) if k >> 31 else k
        out.append("%+d*%s" % (k, bits.show(e) if e is not None else "(..)"))
    if c or not out:
        out.append(str(c - (1 << 32) if c >> 31 else c))
    return " ".join(out)


L0 = (0, frozenset())


class State:
    __slots__ = ("env", "mem", "ver", "cons", "ts", "gh")

    def __init__(self):
        self.env, self.mem, self.ver, self.cons, self.ts = {}, {}, {}, {}, None
        self.gh = {}            # ghost counters: name -> linear form mod 2^32 over the state's values, or None

    def copy(self):
        s = State()
        s.env, s.mem, s.ver, s.cons, s.ts = dict(self.env), dict(self.mem), dict(self.ver), dict(self.cons), self.ts
        s.gh = dict(self.gh)
        return s


class Rule:
    """Override what is needed.  ts must be hashable."""
    def init(self, A, st):
        pass

    def key(self, A, st):
        return st.ts

    def call(self, A, st, I, name, args):
        """None: default.  Otherwise list of (state, return expr or None)."""
        return None

    def store(self, A, st, I, addr, val):
        pass

    def load(self, A, st, I, addr):
        return None

    def ret(self, A, st, I, val):
        pass

    def edge(self, A, st, src, dst):
        return True

    def back(self, A, st, src, dst):
        """before a back edge invalidates the values of the loop"""


class Analysis:
    def __init__(self, mod, fn, rule, modref=None, max_visits=400, track=None):
        self.mod, self.fn, self.rule = mod, fn, rule
        self.mr = modref or get_modref(mod)
        self.reporting = False
        self._prep()
        self.max_visits = max_visits

    # ---- CFG prep
    def _prep(self):
        fn = self.fn
        if not fn.blocks:
            raise AnalysisBroken("no body for " + fn.name)
        order, seen = [], set()
        stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
        seen.add(fn.blocks[0].name)
        onstack = {fn.blocks[0].name}
        back = set()
        while stack:
            b, it = stack[-1]
            nxt = next(it, None)
            if nxt is None:
                order.append(b)
                onstack.discard(b.name)
                stack.pop()
            elif nxt.name in onstack:
                back.add((b.name, nxt.name))
            elif nxt.name not in seen:
                seen.add(nxt.name)
                onstack.add(nxt.name)
                stack.append((nxt, iter(nxt.succs)))
        order.reverse()
        self.rpo = {b.name: i for i, b in enumerate(order)}
        self.order = order
        self.back = back
        # natural loops
        self.loops = {}
        for u, h in back:
            body = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                for p in fn.bmap[x].preds:
                    if p.name in self.rpo:
                        st.append(p.name)
        self.thresholds = sorted({o[1] + d for I in fn.instrs() if I.op in ("icmp", "phi", "select")
                                  for o in I.ops if o[0] == "c" for d in ((-1, 0, 1, 2) if getattr(self.rule, "nested", False) else (-1, 0, 1))} | {0, 1, -1})
        # allocas: private unless captured
        self.al_size = {}
        self.al_captured = set()
        for I in fn.instrs():
            if I.op == "alloca":
                n = I.ops[0][1] if I.ops[0][0] == "c" else 0
                self.al_size[I.res] = self.mod.size(I.x) * n
        derived = {}
        for a in self.al_size:
            work = [a]
            seenv = set()
            while work:
                v = work.pop()
                if v in seenv:
                    continue
                seenv.add(v)
                for J in self.uses(v):
                    if J.op in ("gep", "phi", "select", "bitcast"):
                        work.append(J.res)
                    elif J.op == "store" and J.ops[0] == ("v", v):
                        self.al_captured.add(a)
                    elif J.op in ("ptrtoint", "ret", "insertvalue"):
                        if J.op != "ptrtoint":
                            self.al_captured.add(a)
        # phis that steer control with constant inputs keep states apart in their block
        self.ctrl_phis = {}
        for b in fn.blocks:
            r = []
            for I in b.ins:
                if I.op == "phi" and I.ty.k == "i" and any(o[0] == "c" for o in I.ops):
                    if I.ty.n == 1 or self._feeds_branch(I):
                        r.append(I.res)
            self.ctrl_phis[b.name] = r
        # a rule may ask to keep paths with different results apart
        self.ret_phis = {}
        if getattr(self.rule, "retsplit", False):
            work = [o[1] for I in fn.instrs() if I.op == "ret" for o in I.ops if o[0] == "v"]
            seen = set()
            while work:
                v = work.pop()
                I = fn.defs.get(v)
                if v in seen or I is None:
                    continue
                seen.add(v)
                if I.op == "phi":
                    self.ret_phis.setdefault(I.bb.name, []).append(v)
                if I.op in ("phi", "trunc", "zext", "select"):
                    work += [o[1] for o in I.ops if o[0] == "v"]
        # bytes that are only read as truth values are 0 or 1
        self.boolloads = {I.ops[0][1] for I in fn.instrs() if I.op == "trunc" and I.ty.k == "i" and I.ty.n == 1
                          and I.ops[0][0] == "v" and I.ops[0][1] in fn.defs and fn.defs[I.ops[0][1]].op == "load"
                          and fn.defs[I.ops[0][1]].ty.k == "i" and fn.defs[I.ops[0][1]].ty.n == 8}

    def _feeds_branch(self, I):
        work, seen = [I.res], set()
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            for J in self.uses(v):
                if J.op == "switch" and J.bb is I.bb:
                    return True
                if J.op in ("zext", "trunc") and J.bb is I.bb:
                    work.append(J.res)
                if J.op == "icmp" and J.bb is I.bb and I.ty.n == 1:
                    work.append(J.res)
                if J.op == "br" and J.bb is I.bb:
                    return True
        return False

    def uses(self, reg):
        u = getattr(self.fn, "_uses", None)
        if u is None:
            u = {}
            for I in self.fn.instrs():
                for o in I.ops:
                    if isinstance(o, tuple) and o[0] == "v":
                        u.setdefault(o[1], []).append(I)
                if I.op == "call" and I.x[0] == "v":
                    u.setdefault(I.x[1], []).append(I)
            self.fn._uses = u
        return u.get(reg, [])

    # ---- values
    def wid(self, t):
        t = self.mod.norm(t)
        if t.k == "i":
            return t.n
        return 64

    def val(self, st, v, ty=None):
        k = v[0]
        if k == "v":
            e = st.env.get(v[1])
            if e is None:
                e = ("x", ("undefreg", v[1]), 64)
            return e
        if k == "c":
            return v
        if k == "null" or k == "zero":
            return C(0)
        if k == "g":
            return ("g", self.mod.resolve_sym(v[1]), 0)
        if k == "cgep":
            b = self.val(st, v[2][0])
            idx = [x[1] for x in v[2][1:] if x[0] == "c"]
            return add(64, b, self.mod.gep_const(v[1], idx))
        if k == "undef":
            return ("x", ("undef",), self.wid(ty) if ty else 64)
        if k == "f":
            return ("x", ("float", v[1]), 64)
        return ("x", ("const", repr(v)), 64)

    def iset(self, st, e, depth=0):
        k = e[0]
        if k == "c":
            return ((e[1], e[1]),)
        if k in ("g", "al"):
            return ((1, INF),)
        base = self._iset(st, e, depth)
        c = st.cons.get(e)
        if c is not None:
            return iinter(base, c)
        return base

    def _iset(self, st, e, depth):
        w = width(e)
        top = itop(w)
        if depth > 12:
            return top
        k = e[0]
        if k == "x":
            return self.leafset(e) or top
        if k == "+":
            s = ishift(self.iset(st, e[2], depth + 1), e[3])
            if s and (s[0][0] < top[0][0] or s[-1][1] > top[0][1]):
                # may wrap: split
                out = []
                m = 1 << w
                for lo, hi in s:
                    if hi - lo >= m:
                        return top
                    l2, h2 = wrap(lo, w), wrap(hi, w)
                    if l2 <= h2:
                        out.append((l2, h2))
                    else:
                        out += [(l2, top[0][1]), (top[0][0], h2)]
                return iv(*out)
            return s
        if k == "cast":
            s = self.iset(st, e[3], depth + 1)
            sw = e[4]
            if e[1] == "sext":
                return s if sw > 1 else iv(*[(-b, -a) for a, b in s])
            if e[1] == "zext":
                if sw == 1:
                    return s
                neg = iinter(s, ((-(1 << (sw - 1)), -1),))
                pos = iinter(s, ((0, 1 << 80),))
                return iunion(pos, ishift(neg, 1 << sw))
            if e[1] == "trunc":
                out = []
                m = 1 << w
                for lo, hi in s:
                    if hi - lo >= m:
                        return top
                    l2, h2 = wrap(lo, w), wrap(hi, w)
                    if l2 <= h2:
                        out.append((l2, h2))
                    else:
                        out += [(l2, top[0][1]), (top[0][0], h2)]
                return iv(*out) if out else top
            return top
        if k == "cmp":
            r = self.decide(st, e)
            return top if r is None else ((r, r),)
        if k == "sel":
            c = self.iset(st, e[2], depth + 1)
            if c == ((1, 1),):
                return self.iset(st, e[3], depth + 1)
            if c == ((0, 0),):
                return self.iset(st, e[4], depth + 1)
            return iunion(self.iset(st, e[3], depth + 1), self.iset(st, e[4], depth + 1))
        if k == "op":
            op = e[1]
            a = self.iset(st, e[3], depth + 1)
            b = self.iset(st, e[4], depth + 1)
            if not a or not b:
                return ()
            if op == "and" and e[4][0] == "c":
                c = e[4][1]
                if c >= 0:
                    if a and a[0][0] >= 0 and a[-1][1] <= c and (c & (c + 1)) == 0:
                        return a
                    hi = c
                    if a[0][0] >= 0:
                        hi = min(hi, a[-1][1])
                    return ((0, hi),)
            if op == "and" and w > 1 and (a[0][0] >= 0 or b[0][0] >= 0):
                hi = min([x[-1][1] for x in (a, b) if x[0][0] >= 0])
                return ((0, hi),)
            if w == 1:
                if op == "and":
                    if a == ((0, 0),) or b == ((0, 0),):
                        return ((0, 0),)
                    if a == ((1, 1),) and b == ((1, 1),):
                        return ((1, 1),)
                if op == "or":
                    if a == ((1, 1),) or b == ((1, 1),):
                        return ((1, 1),)
                    if a == ((0, 0),) and b == ((0, 0),):
                        return ((0, 0),)
                if op == "xor" and len(a) == 1 and a[0][0] == a[0][1] and b[0][0] == b[0][1]:
                    return ((a[0][0] ^ b[0][0],) * 2,)
                return top
            if op in ("ashr",) and e[4][0] == "c" and 0 <= e[4][1] < w:
                return iinter(iv(*[(x >> e[4][1], y >> e[4][1]) for x, y in a]), top)
            if op == "lshr" and e[4][0] == "c" and 0 <= e[4][1] < w:
                if a[0][0] >= 0:
                    return iv(*[(x >> e[4][1], y >> e[4][1]) for x, y in a])
                return ((0, (1 << (w - e[4][1])) - 1),)
            if op in ("add", "sub", "mul"):
                xs = (a[0][0], a[-1][1])
                ys = (b[0][0], b[-1][1])
                if op == "add":
                    r = (xs[0] + ys[0], xs[1] + ys[1])
                elif op == "sub":
                    r = (xs[0] - ys[1], xs[1] - ys[0])
                else:
                    ps = [p * q for p in xs for q in ys]
                    r = (min(ps), max(ps))
                if r[0] < top[0][0] or r[1] > top[0][1]:
                    return top
                return (r,)
            if op == "urem" and e[4][0] == "c" and e[4][1] > 0:
                return ((0, e[4][1] - 1),)
            if op == "srem" and e[4][0] == "c" and e[4][1] != 0:
                m = abs(e[4][1]) - 1
                return ((0 if a[0][0] >= 0 else -m, m),)
            if op == "sdiv" and e[4][0] == "c" and e[4][1] > 0:
                d = e[4][1]
                q = lambda n: abs(n) // d * (1 if n >= 0 else -1)
                return ((q(a[0][0]), q(a[-1][1])),)
            if op == "udiv" and e[4][0] == "c" and e[4][1] > 0 and a[0][0] >= 0:
                return ((a[0][0] // e[4][1], a[-1][1] // e[4][1]),)
            if op == "or" and a[0][0] >= 0 and b[0][0] >= 0:
                h = (1 << max(a[-1][1], b[-1][1]).bit_length()) - 1
                return ((max(a[0][0], b[0][0]), h),)
        return top

    def leafset(self, e):
        t = e[1]
        if t[0] == "call" and len(t) > 3:
            f = getattr(self.rule, "call_range", None)
            if f:
                return f(t[3], e[2])
        return None

    def pset(self, p, c, w):
        """Set of signed w-bit a with (a p c)."""
        top = itop(w)
        lo, hi = top[0]
        if p == "eq":
            return ((c, c),)
        if p == "slt":
            return iv((lo, c - 1))
        if p == "sgt":
            return iv((c + 1, hi))
        if p == "ult":
            u = c & ((1 << w) - 1)
            return iv((0, min(u - 1, hi)), (lo, u - 1 - (1 << w)))
        if p == "ugt":
            u = c & ((1 << w) - 1)
            return icompl(self.pset("ult", c, w), top) if u == 0 else isub(icompl(self.pset("ult", c, w), top), ((c, c),))
        return top

    def decide(self, st, e):
        """1/0 if comparison known, else None."""
        _, p, w, a, b = e
        if a == b:
            return 1 if p == "eq" else 0
        c = st.cons.get(e)
        if c in (((1, 1),), ((0, 0),)):
            return c[0][0]
        A = self.iset(st, a)
        B = self.iset(st, b)
        if not A or not B:
            return 0
        if len(B) == 1 and B[0][0] == B[0][1]:
            S = self.pset(p, B[0][0], w)
            if w > 1 and (a[0] in ("g", "al")):
                if p == "eq" and B[0][0] == 0:
                    return 0
                return None
            i = iinter(A, S)
            if not i:
                return 0
            if i == A:
                return 1
            return None
        if p == "eq":
            if not iinter(A, B):
                return 0
            # same base different offset
            if split(a)[0] == split(b)[0] and split(a)[1] != split(b)[1]:
                return 0
            return None
        if p == "slt":
            if A[-1][1] < B[0][0]:
                return 1
            if A[0][0] >= B[-1][1]:
                return 0
        if p == "ult" and A[0][0] >= 0 and B[0][0] >= 0:
            if A[-1][1] < B[0][0]:
                return 1
            if A[0][0] >= B[-1][1]:
                return 0
        return None

    # ---- refinement: returns list of states
    def assume(self, st, e, truth):
        k = e[0]
        if k == "c":
            return [st] if bool(e[1] & 1) == truth else []
        if k == "op" and e[2] == 1:
            op, a, b = e[1], e[3], e[4]
            if op == "xor" and b == C(1):
                return self.assume(st, a, not truth)
            if op == "xor" and b == C(-1):
                return self.assume(st, a, not truth)
            if op == "and" or op == "or":
                conj = (op == "and") == truth
                if conj:
                    out = []
                    for s in self.assume(st, a, truth):
                        out += self.assume(s, b, truth)
                    return out
                out = self.assume(st.copy(), a, truth)
                for s in self.assume(st.copy(), a, not truth):
                    out += self.assume(s, b, truth)
                return out
        if k == "sel" and e[1] == 1:
            out = []
            for s in self.assume(st.copy(), e[2], True):
                out += self.assume(s, e[3], truth)
            for s in self.assume(st.copy(), e[2], False):
                out += self.assume(s, e[4], truth)
            return out
        if k == "cmp":
            d = self.decide(st, e)
            if d is not None:
                return [st] if bool(d) == truth else []
            _, p, w, a, b = e
            st.cons[e] = ((1, 1),) if truth else ((0, 0),)
            B = self.iset(st, b)
            if len(B) == 1 and B[0][0] == B[0][1]:
                S = self.pset(p, B[0][0], w)
                if not truth:
                    S = icompl(S, itop(w))
                # comparisons of a boolean-valued expression
                if a[0] == "cast" and a[4] == 1 and B[0][0] in (0, 1) and p == "eq":
                    want = (B[0][0] == 1) == truth if a[1] == "zext" else None
                    if want is not None:
                        return self.assume(st, a[3], want)
                if a[0] == "sel":
                    out = []
                    for s in self.assume(st.copy(), a[2], True):
                        if self.constrain(s, a[3], S):
                            out.append(s)
                    for s in self.assume(st.copy(), a[2], False):
                        if self.constrain(s, a[4], S):
                            out.append(s)
                    return out
                if not self.constrain(st, a, S):
                    return []
                return [st]
            A = self.iset(st, a)
            if p == "slt":
                if truth:
                    ok = self.constrain(st, a, iv((-INF, B[-1][1] - 1))) and self.constrain(st, b, iv((A[0][0] + 1, INF)))
                else:
                    ok = self.constrain(st, a, iv((B[0][0], INF))) and self.constrain(st, b, iv((-INF, A[-1][1])))
                return [st] if ok else []
            if p == "ult" and B[0][0] >= 0:
                if truth:
                    ok = self.constrain(st, a, iv((0, B[-1][1] - 1)))
                elif A[0][0] >= 0:
                    ok = self.constrain(st, a, iv((B[0][0], INF))) and self.constrain(st, b, iv((-INF, A[-1][1])))
                else:
                    ok = True
                return [st] if ok else []
            if p == "eq" and truth:
                i = iinter(A, B)
                ok = self.constrain(st, a, i) and self.constrain(st, b, i)
                return [st] if ok else []
            return [st]
        s = self.iset(st, e)
        want = ((1, 1),) if truth else ((0, 0),)
        s = iinter(s, want)
        if not s:
            return []
        st.cons[e] = s
        if e[0] == "cast" and e[1] == "trunc" and e[2] == 1:
            # i8 holding a bool
            inner = self.iset(st, e[3])
            if subset(inner, ((0, 1),)):
                if not self.constrain(st, e[3], want):
                    return []
        return [st]

    def constrain(self, st, e, S):
        k = e[0]
        if k == "c":
            return bool(iinter(((e[1], e[1]),), S))
        if k in ("g", "al"):
            return bool(isub(S, ((0, 0),)))
        cur = self.iset(st, e)
        new = iinter(cur, S)
        if not new:
            return False
        if new == cur:
            return True
        st.cons[e] = limit(new)
        if k == "+":
            w = e[1]
            top = itop(w)
            s = ishift(new, -e[3])
            out = []
            for lo, hi in s:
                l2, h2 = wrap(lo, w), wrap(hi, w)
                if l2 <= h2 and hi - lo < (1 << w):
                    out.append((l2, h2))
                else:
                    out += [(l2, top[0][1]), (top[0][0], h2)]
            return self.constrain(st, e[2], iv(*out))
        if k == "cast":
            sw = e[4]
            if e[1] == "sext" and sw > 1:
                return self.constrain(st, e[3], new)
            if e[1] == "zext":
                if sw == 1:
                    if new in (((0, 0),), ((1, 1),)):
                        r = self.assume(st, e[3], new == ((1, 1),))
                        return bool(r)
                    return True
                half = 1 << (sw - 1)
                pos = iinter(new, ((0, half - 1),))
                neg = ishift(iinter(new, ((half, (1 << sw) - 1),)), -(1 << sw))
                return self.constrain(st, e[3], iunion(pos, neg))
            if e[1] == "trunc":
                inner = self.iset(st, e[3])
                if subset(inner, itop(e[2])):
                    return self.constrain(st, e[3], new)
                if new and e[2] > 1:
                    # keep values whose low bits land in `new`
                    m = 1 << e[2]
                    if inner and inner[-1][1] - inner[0][0] < 4 * m:
                        out = []
                        base = (inner[0][0] // m - 1) * m
                        while base <= inner[-1][1] + m:
                            out += [(lo + base, hi + base) for lo, hi in new]
                            base += m
                        return self.constrain(st, e[3], iv(*out))
        return True

    # ---- memory
    def base_kind(self, b):
        """'priv' class name or 'H' / semi-private."""
        if b[0] == "g":
            return ("G", b[1]) if self.mr.gpriv.get(b[1], True) else ("S", b[1])
        if b[0] == "al":
            return ("A", b[1]) if b[1] not in self.al_captured else ("S", "al:" + b[1])
        return "H"

    def addr_root(self, e):
        """Root base of a (possibly dynamic) address."""
        while True:
            if e[0] in ("g", "al"):
                return (e[0], e[1], 0)
            if e[0] == "+":
                e = e[2]
                continue
            if e[0] == "op" and e[1] == "add":
                for c in (e[3], e[4]):
                    r = self.addr_root(c)
                    if r[0] in ("g", "al"):
                        return r
                for c in (e[3], e[4]):
                    if c[0] == "x" and c[2] == 64 or c[0] in ("+",):
                        return self.addr_root(c) if c[0] == "+" else c
                return e
            return e

    def vtoken(self, st, base):
        k = self.base_kind(base)
        if k == "H":
            return st.ver.get("H", "entry")
        return st.ver.get(k, "entry")

    def load_expr(self, st, addr, size, w):
        b, o = split(addr)
        c = st.mem.get((b, o))
        if c is not None and c[1] == size:
            return c[0]
        root = self.addr_root(addr)
        # overlapping cell of different size: opaque
        if c is not None and c[1] != size and c[0][0] == "c" and size < c[1]:
            return C(wrap(c[0][1], 8 * size))
        # constant globals fold
        if root[0] == "g" and root == b:
            g = self.mod.globals.get(b[1])
            if g and g["const"] and g["init"] is not None and w <= 64:
                by = self.mod.init_bytes(g["type"], g["init"])
                if by is not None and 0 <= o and o + size <= len(by):
                    return C(wrap(int.from_bytes(by[o:o + size], "little"), 8 * size if w > 1 else 1))
        ver = self.vtoken(st, root)
        # any store inside the object at another offset has its own entry; version covers unknown ones
        return ("x", ("ld", addr, size, ver), w)

    def kill(self, st, root, tok, keep=None):
        k = self.base_kind(root) if root != "H" else "H"
        if k == "H":
            for key in list(st.mem):
                kb = key[0]
                kk = self.base_kind(self.addr_root(kb))
                if kk == "H" or (isinstance(kk, tuple) and kk[0] == "S"):
                    if kb[0] == "g" and self.mod.globals.get(kb[1], {}).get("const"):
                        continue
                    del st.mem[key]
            st.ver["H"] = tok
            for g in self.semi:
                st.ver[g] = tok
        else:
            for key in list(st.mem):
                if self.addr_root(key[0])[:2] == root[:2]:
                    del st.mem[key]
            st.ver[k] = tok
            if k[0] == "S":
                for key in list(st.mem):
                    if self.base_kind(self.addr_root(key[0])) == "H":
                        del st.mem[key]
                st.ver["H"] = tok

    @property
    def semi(self):
        s = getattr(self, "_semi", None)
        if s is None:
            s = [("S", g) for g in self.mod.globals if not self.mr.gpriv.get(g, True)
                 and not self.mod.globals[g]["const"]]
            s += [("S", "al:" + a) for a in self.al_captured]
            self._semi = s
        return s

    def store_expr(self, st, addr, size, val, tok):
        b, o = split(addr)
        root = self.addr_root(addr)
        if b != root or b[0] not in ("g", "al"):
            # dynamic address
            if root[0] in ("g", "al"):
                if b == root:
                    pass
                else:
                    self.kill(st, root, tok)
                    st.mem[(b, o)] = (val, size)
                    return
            else:
                same = {key: v for key, v in st.mem.items()
                        if key[0] == b and (key[1] + v[1] <= o or key[1] >= o + size)}
                self.kill(st, "H", tok)
                st.mem.update(same)
                st.mem[(b, o)] = (val, size)
                return
        k = self.base_kind(root)
        for key in list(st.mem):
            if key[0] == b:
                if not (key[1] + st.mem[key][1] <= o or key[1] >= o + size):
                    del st.mem[key]
            elif self.addr_root(key[0])[:2] == root[:2]:
                del st.mem[key]
            elif k[0] == "S" and self.base_kind(self.addr_root(key[0])) == "H":
                del st.mem[key]
        if k[0] == "S":
            st.ver["H"] = tok
        st.ver[k] = tok if False else st.ver.get(k, "entry")
        # a dynamic load on this object must see a new version
        st.ver[("D", k)] = tok
        if not self.is_scalar(root, size):
            st.ver[k] = tok
        st.mem[(b, o)] = (val, size)

    def is_scalar(self, root, size):
        if root[0] == "g":
            g = self.mod.globals.get(root[1])
            return bool(g) and self.mod.size(g["type"]) == size
        return self.al_size.get(root[1]) == size

    # ---- joins
    def join(self, b, s1, s2, widen):
        out = State()
        out.ts = s1.ts
        pairs = {}

        def jv(name, e1, e2):
            if e1 == e2:
                return e1
            k = (e1, e2)
            r = pairs.get(k)
            if r is None:
                w = width(e1) if e1[0] != "c" else width(e2)
                if e1[0] == "c" and e2[0] == "c":
                    w = self.namew.get(name, 64)
                r = ("x", ("phi", b, name), w)
                # already this leaf on one side
                pairs[k] = r
                newcons[r] = iunion(self.iset(s1, e1), self.iset(s2, e2))
            return r
        newcons = {}
        for reg in s1.env:
            if reg in s2.env:
                out.env[reg] = jv(reg, s1.env[reg], s2.env[reg])
        for key in s1.mem:
            if key in s2.mem and s1.mem[key][1] == s2.mem[key][1]:
                nm = ("m",) + key
                if nm not in self.namew:
                    self.namew[nm] = min(64, 8 * s1.mem[key][1])
                out.mem[key] = (jv(nm, s1.mem[key][0], s2.mem[key][0]), s1.mem[key][1])
            else:
                # one side has a cell: the other side's content is its (possibly entry) load value
                have, oth = (s1, s2) if key in s1.mem else (s2, s1)
                self._half(b, key, have, oth, out, jv, swap=have is s2)
        for key in s2.mem:
            if key not in s1.mem:
                self._half(b, key, s2, s1, out, jv, swap=True)
        for k in set(s1.ver) | set(s2.ver):
            a, c = s1.ver.get(k, "entry"), s2.ver.get(k, "entry")
            out.ver[k] = a if a == c else ("vj", b)
        for e in s1.cons:
            if e in s2.cons:
                u = iunion(s1.cons[e], s2.cons[e])
                out.cons[e] = u
            else:
                u = iunion(s1.cons[e], self.iset(s2, e))
                if u != itop(width(e)):
                    out.cons[e] = u
        for e in s2.cons:
            if e not in s1.cons:
                u = iunion(s2.cons[e], self.iset(s1, e))
                if u != itop(width(e)):
                    out.cons[e] = u
        for e, s in newcons.items():
            if s != itop(width(e)):
                out.cons[e] = limit(s)
            else:
                out.cons.pop(e, None)
        if widen:
            for e in list(out.cons):
                old = s1.cons.get(e)
                nw = out.cons[e]
                if old is not None and old != nw:
                    out.cons[e] = self.widen(old, nw, width(e))
                elif old is None and e in newcons:
                    base = self.iset(s1, e)
        for g in s1.gh:
            out.gh[g] = self.join_ghost(b, g, s1, s2, out)
        return out

    # ghost counters: kept as affine functions of one program value across loops
    def gmod(self, g):
        """A ghost is kept modulo 2 to the power of this."""
        return getattr(self.rule, "gmods", {}).get(g, 32)

    def cells(self, st, n=32):
        for r, e in st.env.items():
            if n <= self.namew.get(r, 64) <= 64 and e[0] not in ("g", "al"):
                yield ("r", r), e
        for k, (e, sz) in st.mem.items():
            if n <= 8 * sz <= 64 and e[0] not in ("g", "al"):
                yield ("m", k), e

    def join_ghost(self, b, g, s1, s2, out):
        import bits
        g1, g2 = s1.gh.get(g), s2.gh.get(g)
        if g1 is None or g2 is None:
            return None
        if g1 == g2:
            return g1
        n = self.gmod(g)
        held = {e for r, e in s1.env.items() if s2.env.get(r) == e}

        def same(x, y):
            """The form both stand for, possibly because one side knows more about the values the other mentions."""
            if x == y:
                return x
            for ga, gb, sa in ((x, y, s1), (y, x, s2)):
                new = [lleaf(b) for b, k in gb[1] - ga[1]]
                if all(l is not None and (l[0] == "x" and l[1][0] == "param" or l in held) for l in new) \
                        and self.lfold(sa, gb, n) == self.lfold(sa, ga, n):
                    return gb
            return None
        r = same(g1, g2)
        if r is not None:
            return r
        c1 = dict(self.cells(s1, n))
        c2 = dict(self.cells(s2, n))
        co = dict(self.cells(out, n))
        for k in co:
            if k[0] == "m":
                base, o = k[1]
                sz = out.mem[k[1]][1]
                for c, s in ((c1, s1), (c2, s2)):
                    if k not in c:
                        c[k] = self.load_expr(s, add(64, base, o), sz, 8 * sz)
        cand = []
        for k, e1 in c1.items():
            e2 = c2.get(k)
            eo = co.get(k)
            if e2 is None or eo is None or e1 == e2:
                continue
            cand.append((k, lform(e1, n), lform(e2, n), eo))
        tries = [(c, a) for c in cand for a in (1, -1, 2, -2, 3, -3)]
        if getattr(self.rule, "nested", False):
            # first the head's own counters, and those that go in step
            tries.sort(key=lambda t: (not self.counts(b, t[0][0]), abs(t[1])))
            d = ladd(g1, g2, -1, n)
            for c in cand:
                e = ladd(c[1], c[2], -1, n)
                if not d[1] and not e[1] and e[0] and self.counts(b, c[0]):
                    x, y = ((v + (1 << n - 1)) % (1 << n) - (1 << n - 1) for v in (d[0], e[0]))
                    if x % y == 0 and abs(x // y) > 3:
                        tries.append((c, -x // y))
        for (k, l1, l2, eo), a in tries:
            x = same(ladd(g1, l1, a, n), ladd(g2, l2, a, n))
            if x is not None:
                return ladd(x, lform(eo, n), -a, n)
        return None

    def counts(self, b, k):
        """Cell k is a phi of loop head b that goes up or down by a constant each time round."""
        if k[0] != "r" or b not in self.loops:
            return False
        d = self.fn.defs.get(k[1])
        if d is None or d.op != "phi" or d.bb.name != b:
            return False
        return any(self.goes_on(o, k[1]) for o, p in zip(d.ops, d.x) if p in self.loops[b])

    def goes_on(self, o, r, depth=0):
        d = self.fn.defs.get(o[1]) if o[0] == "v" else None
        if d is None or depth > 4 or d.op not in ("add", "sub", "gep"):
            return False
        return d.ops[-1][0] == "c" and (d.ops[0] == ("v", r) or self.goes_on(d.ops[0], r, depth + 1))

    def lfold(self, st, f, n=32):
        """Linear form with everything that has one value in this state folded in."""
        import bits

        def known(e):
            S = self.iset(st, e)
            return S[0][0] if len(S) == 1 and S[0][0] == S[0][1] else None
        c, keep, memo = f[0], set(), {}
        for b, k in f[1]:
            v = bits.value(b, known, memo)
            if v is None:
                keep.add((b, k))
            else:
                c = (c + k * v) & ((1 << n) - 1)
        return c, frozenset(keep)

    def stale_ghosts(self, st, h, body, old):
        """Crossing a back edge: re-express ghosts that mention values of the finished iteration."""
        for g, f in list(st.gh.items()):
            if f is None or not (lblocks(f) & body):
                continue
            new, n = None, self.gmod(g)
            cn = dict(self.cells(st, n))
            for k, e in old.items():
                if k not in cn:
                    continue
                le = lform(e, n)
                more = {-kf // ke for bf, kf in f[1] for be, ke in le[1] if bf == be and kf % ke == 0} if getattr(self.rule, "nested", False) else set()
                for a in [1, -1, 2, -2, 3, -3] + sorted(more - {0, 1, -1, 2, -2, 3, -3}):
                    x = ladd(f, le, a, n)
                    if not (lblocks(x) & body):
                        new = ladd(x, lform(cn[k], n), -a, n)
                        break
                if new is not None:
                    break
            st.gh[g] = new

    def ghost_add(self, st, g, e, sign=1):
        """ghost += sign * e"""
        f = st.gh.get(g)
        if f is not None:
            n = self.gmod(g)
            st.gh[g] = ladd(f, lform(e, n), sign, n)

    def ghost_value(self, st, g):
        """The ghost's linear form with everything that has one value in this state folded in."""
        f = st.gh.get(g)
        return None if f is None else self.lfold(st, f, self.gmod(g))

    def _half(self, b, key, have, oth, out, jv, swap):
        base, o = key
        val, size = have.mem[key]
        root = self.addr_root(base)
        nm = ("m",) + key
        if nm not in self.namew:
            self.namew[nm] = min(64, 8 * size)
        ver = self.vtoken(oth, root)
        other = ("x", ("ld", add(64, base, o), size, ver), min(64, 8 * size))
        if root[0] in ("g",) and root == base:
            pass
        out.mem[key] = (jv(nm, other, val) if swap else jv(nm, val, other), size)

    def widen(self, old, new, w):
        top = itop(w)
        lo, hi = new[0][0], new[-1][1]
        if lo < old[0][0]:
            c = [t for t in self.thresholds if t <= lo]
            lo = c[-1] if c else top[0][0]
        if hi > old[-1][1]:
            c = [t for t in self.thresholds if t >= hi]
            hi = c[0] if c else top[0][1]
        return iinter(((lo, hi),), top) or top

    def same(self, a, b):
        return a.env == b.env and a.mem == b.mem and a.ver == b.ver and a.cons == b.cons and a.gh == b.gh

    def stale(self, st, h):
        """Crossing a back edge to h: forget what refers to values of the previous iteration."""
        body = self.loops.get(h, {h})

        def bad(e):
            return bool(leaf_blocks(e) & body)
        for reg in list(st.env):
            e = st.env[reg]
            if bad(e):
                I = self.fn.defs.get(reg)
                if I is not None and I.bb.name in body:
                    if I.op == "phi" and I.bb.name == h:
                        ne = ("x", ("phi", h, reg), width(e))
                        self._recons(st, ne, e)
                        st.env[reg] = ne
                    else:
                        del st.env[reg]
                else:
                    ne = ("x", ("phi", h, reg), width(e))
                    self._recons(st, ne, e)
                    st.env[reg] = ne
        ren = {}
        for key in list(st.mem):
            v, size = st.mem[key]
            if bad(key[0]):
                del st.mem[key]
                continue
            if bad(v):
                ne = ("x", ("memphi", h, ("m",) + key), width(v))
                self._recons(st, ne, v)
                st.mem[key] = (ne, size)
        keep = getattr(self, "_keepcons", {})
        for e in list(st.cons):
            if bad(e) and e not in keep:
                del st.cons[e]
        for k, v in list(st.ver.items()):
            if v != "entry" and v[1] in body:
                st.ver[k] = ("vj", h)
        st.cons.update(keep)
        self._keepcons = {}

    def _recons(self, st, ne, e):
        s = self.iset(st, e)
        k = getattr(self, "_keepcons", None)
        if k is None:
            k = self._keepcons = {}
        if s != itop(width(ne)):
            k[ne] = s

    # ---- driver
    def run(self):
        fn = self.fn
        self.probe = None
        self.namew = {}
        for I in fn.instrs():
            if I.res is not None and I.ty is not None and I.ty.k in ("i", "ptr"):
                self.namew[I.res] = self.wid(I.ty)
        st = State()
        for i, (n, t) in enumerate(fn.params):
            st.env[n] = ("x", ("param", i), self.wid(t))
        self.states = {b.name: {} for b in fn.blocks}
        self.contrib = {}
        self.visits = {}
        init = self.rule.init(self, st)
        inits = init if init is not None else [st]
        import heapq
        self.work = []
        self.inwork = set()
        for s in inits:
            self.push(fn.blocks[0].name, s, None)
        steps = 0
        while self.work:
            _, bname = heapq.heappop(self.work)
            self.inwork.discard(bname)
            steps += 1
            if steps > 200000:
                raise AnalysisBroken("no fixpoint in " + fn.name)
            todo = [(k, s) for k, (s, dirty) in self.states[bname].items() if dirty]
            for k, s in todo:
                self.states[bname][k] = (s, False)
            for k, s in todo:
                done = set()
                for dst, ns in self.flow_block(fn.bmap[bname], s.copy()):
                    self.push(dst, ns, bname, (bname, k), done)
        if getattr(self.rule, "nested", False):
            self.prune(inits)
        # reporting pass over the stable states
        self.reporting = True
        for b in self.order:
            for k, (s, _) in list(self.states[b.name].items()):
                for dst, ns in self.flow_block(b, s.copy()):
                    if (b.name, dst) in self.back:
                        self.rule.back(self, ns, b.name, dst)
        self.reporting = False
        return self

    def push(self, dst, st, src, who=None, done=None):
        """who: (source block, key of the source state); done: targets this flow has already contributed to"""
        import heapq
        if src is not None:
            b = self.fn.bmap[dst]
            # phis in parallel
            newv = {}
            for I in b.ins:
                if I.op != "phi":
                    break
                for v, blk in zip(I.ops, I.x):
                    if blk == src:
                        e = self.val(st, v, I.ty)
                        s = self.iset(st, e)
                        newv[I.res] = e
                        break
            for r, e in newv.items():
                st.env[r] = e
            if (src, dst) in self.back:
                self.rule.back(self, st, src, dst)
                self._keepcons = {}
                oldcells = dict(self.cells(st, min(self.gmod(g) for g in st.gh))) if st.gh else None
                self.stale(st, dst)
                if st.gh:
                    self.stale_ghosts(st, dst, self.loops.get(dst, {dst}), oldcells)
            if not self.rule.edge(self, st, src, dst):
                return
        kk = [self.rule.key(self, st)]
        for r in self.ctrl_phis.get(dst, ()):
            e = st.env.get(r)
            kk.append(e[1] if e is not None and e[0] == "c" else None)
        for r in self.ret_phis.get(dst, ()):
            kk.append(st.env.get(r))
        k = tuple(kk)
        if self.probe is not None:
            self.probe.append((dst, k))
            return
        cur = self.states[dst].get(k)
        # Outside loop heads a state is the join of what its predecessors' current states contribute: a predecessor's
        # newer contribution replaces its older one (loop heads accumulate and widen, so this terminates).
        if who is not None and dst not in self.loops:
            cs = self.contrib.setdefault((dst, k), {})
            if cs is not None:
                if who in cs and (dst, k) in done:
                    cs[who] = self.join(dst, cs[who], st, False)
                elif len(cs) >= 6 and who not in cs:
                    self.contrib[(dst, k)] = None
                    cs = None
                else:
                    cs[who] = st
                done.add((dst, k))
            if cs is not None:
                j = None
                for c in cs.values():
                    j = c if j is None else self.join(dst, j, c, False)
                if cur is not None and self.same(j, cur[0]):
                    return
                self.states[dst][k] = (j, True)
                if len(self.states[dst]) > self.max_visits:
                    raise AnalysisBroken("state explosion in %s at %s" % (self.fn.name, dst))
                if dst not in self.inwork:
                    self.inwork.add(dst)
                    heapq.heappush(self.work, (self.rpo[dst], dst))
                return
        if cur is None:
            self.states[dst][k] = (st, True)
            if len(self.states[dst]) > self.max_visits:
                raise AnalysisBroken("state explosion in %s at %s" % (self.fn.name, dst))
        else:
            n = self.visits.get((dst, k), 0) + 1
            self.visits[(dst, k)] = n
            j = self.join(dst, cur[0], st, n > 8)
            if n > 60:
                # force: drop unstable numeric facts
                for e in list(j.cons):
                    if cur[0].cons.get(e) != j.cons[e]:
                        del j.cons[e]
            if n > 3000 and not self.same(j, cur[0]):
                raise AnalysisBroken("join does not stabilise in %s at %s" % (self.fn.name, dst))
            if self.same(j, cur[0]):
                if getattr(self.rule, "nested", False):
                    self.visits[(dst, k)] = n - 1
                return
            self.states[dst][k] = (j, True)
            if getattr(self.rule, "nested", False):
                self.restart(dst)
        if dst not in self.inwork:
            self.inwork.add(dst)
            heapq.heappush(self.work, (self.rpo[dst], dst))

    def prune(self, inits):
        """Drop states that only contributions since withdrawn had reached: no stable state leads there."""
        self.probe = []
        for s in inits:
            self.push(self.fn.blocks[0].name, s.copy(), None)
        seen = set()
        while self.probe:
            at = self.probe.pop()
            if at in seen:
                continue
            if at[1] not in self.states[at[0]]:
                raise AnalysisBroken("not a fixpoint in %s at %s" % (self.fn.name, at[0]))
            seen.add(at)
            b, k = at
            todo, self.probe = self.probe, []
            done = set()
            for dst, ns in self.flow_block(self.fn.bmap[b], self.states[b][k][0].copy()):
                self.push(dst, ns, b, at, done)
            self.probe += todo
        self.probe = None
        for b in self.states:
            for k in [k for k in self.states[b] if (b, k) not in seen]:
                del self.states[b][k]

    def restart(self, h):
        """The state at the head of a loop has grown: what is known inside the loop is worked out afresh from it."""
        gone = set()
        for b in self.loops[h]:
            if b == h:
                continue
            for k in self.states[b]:
                gone.add((b, k))
                self.contrib.pop((b, k), None)
                self.visits.pop((b, k), None)
            self.states[b] = {}
        for cs in self.contrib.values():
            for who in [w for w in cs or () if w in gone]:
                del cs[who]
        for k, (s, _) in list(self.states[h].items()):
            self.states[h][k] = (s, True)

    def flow_block(self, b, st):
        """-> [(succ name, state)]"""
        states = [st]
        for I in b.ins:
            if I.op == "phi":
                continue
            if I.op in ("br", "switch", "ret", "unreachable"):
                out = []
                for s in states:
                    out += self.term(b, s, I)
                return out
            nxt = []
            for s in states:
                r = self.step(s, I)
                nxt += r
            states = nxt
            if not states:
                return []
        return []

    def term(self, b, st, I):
        if I.op == "ret":
            v = self.val(st, I.ops[0], I.ty) if I.ops else None
            self.rule.ret(self, st, I, v)
            return []
        if I.op == "unreachable":
            return []
        if I.op == "br":
            if len(I.x) == 1:
                return [(I.x[0], st)]
            c = self.val(st, I.ops[0])
            if I.x[0] == I.x[1]:
                return [(I.x[0], st)]
            out = [(I.x[0], s) for s in self.assume(st.copy(), c, True)]
            out += [(I.x[1], s) for s in self.assume(st, c, False)]
            return out
        if I.op == "switch":
            c = self.val(st, I.ops[0])
            w = self.wid(I.ty)
            bydst = {}
            for v, d in I.x[1]:
                bydst.setdefault(d, []).append(v)
            out = []
            allv = iv(*[(v, v) for v, _ in I.x[1]])
            for d, vs in bydst.items():
                s = st.copy()
                S = iv(*[(v, v) for v in vs])
                if d == I.x[0]:
                    continue
                if self.constrain(s, c, S):
                    out.append((d, s))
            d = I.x[0]
            rest = isub(itop(w), isub(allv, iv(*[(v, v) for v in bydst.get(d, [])])))
            if self.constrain(st, c, rest):
                out.append((d, st))
            return out

    def step(self, st, I):
        op = I.op
        env = st.env
        if op == "load":
            a = self.val(st, I.ops[0])
            r = self.rule.load(self, st, I, a)
            if r is None:
                r = self.load_expr(st, a, self.mod.size(I.ty), self.wid(I.ty))
            env[I.res] = r
            if I.res in self.boolloads and r[0] != "c":
                S = iinter(self.iset(st, r), ((0, 1),))
                if S:
                    st.cons[r] = S
            return [st]
        if op == "store":
            a = self.val(st, I.ops[1])
            v = self.val(st, I.ops[0], I.ty)
            r = self.rule.store(self, st, I, a, v)
            self.store_expr(st, a, self.mod.size(I.ty), v, ("w", I.bb.name, I.idx))
            return r if isinstance(r, list) else [st]
        if op == "gep":
            env[I.res] = self.gep(st, I)
            return [st]
        if op == "alloca":
            env[I.res] = ("al", I.res, 0)
            return [st]
        if op == "icmp":
            a, b = self.val(st, I.ops[0], I.tys[0]), self.val(st, I.ops[1], I.tys[0])
            w = self.wid(I.tys[0])
            if a[0] == "c" and b[0] == "c":
                env[I.res] = C(1 if self.concrete_cmp(I.x, a[1], b[1], w) else 0)
                return [st]
            e, neg = cmpexpr(I.x, w, a, b)
            d = self.decide(st, e)
            if d is not None:
                env[I.res] = C(d ^ (1 if neg else 0))
            else:
                env[I.res] = binop("xor", 1, e, C(1)) if neg else e
            return [st]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            w = self.wid(I.ty)
            a, b = self.val(st, I.ops[0], I.ty), self.val(st, I.ops[1], I.ty)
            a, b = self.fold(st, a), self.fold(st, b)
            h = getattr(self.rule, "arith", None)
            if h:
                h(self, st, I, a, b)
            env[I.res] = binop(op, w, a, b)
            return [st]
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
            a = self.val(st, I.ops[0], I.x)
            env[I.res] = cast(op, self.wid(I.ty), a, self.wid(I.x))
            return [st]
        if op == "select":
            c = self.val(st, I.ops[0])
            a, b = self.val(st, I.ops[1], I.ty), self.val(st, I.ops[2], I.ty)
            cs = self.iset(st, c)
            if cs == ((1, 1),):
                env[I.res] = a
            elif cs == ((0, 0),):
                env[I.res] = b
            elif a == b:
                env[I.res] = a
            elif I.ty.k == "i" and I.ty.n == 1 and b == C(0):
                env[I.res] = binop("and", 1, c, a)
            elif I.ty.k == "i" and I.ty.n == 1 and a == C(1):
                env[I.res] = binop("or", 1, c, b)
            else:
                # split: keeps the two arms' values exact
                out = []
                for s in self.assume(st.copy(), c, True):
                    s.env[I.res] = a
                    out.append(s)
                for s in self.assume(st, c, False):
                    s.env[I.res] = b
                    out.append(s)
                return out
            return [st]
        if op == "call":
            return self.call(st, I)
        if op == "freeze":
            env[I.res] = self.val(st, I.ops[0], I.ty)
            return [st]
        if I.res is not None:
            w = self.wid(I.ty) if I.ty is not None and I.ty.k in ("i", "ptr") else 64
            ops = tuple(self.val(st, o, None) for o in I.ops if isinstance(o, tuple) and o and o[0] in
                        ("v", "c", "null", "g", "f", "undef"))
            env[I.res] = ("x", ("op", I.bb.name, I.res, op), w)
            self.purge(st, env[I.res])
        return [st]

    def purge(self, st, leaf):
        if leaf in st.cons:
            del st.cons[leaf]

    def fold(self, st, e):
        if e[0] in ("c", "g", "al"):
            return e
        s = self.iset(st, e)
        if len(s) == 1 and s[0][0] == s[0][1]:
            return C(s[0][0])
        return e

    def concrete_cmp(self, p, a, b, w):
        m = (1 << w) - 1
        if p[0] == "u":
            a, b = a & m, b & m
            p = "s" + p[1:]
        return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p]

    def gep(self, st, I):
        e = self.val(st, I.ops[0])
        cur = I.x
        idx = I.ops[1:]
        first = True
        off = 0
        dyn = []
        t = None
        for o, ty in zip(idx, I.tys[1:]):
            v = self.val(st, o, ty)
            if first:
                sz = self.mod.size(cur)
                t = self.mod.norm(cur)
                first = False
            elif t.k in ("arr", "vec"):
                sz = self.mod.size(t.e)
                t = self.mod.norm(t.e)
            else:
                if v[0] != "c":
                    raise AnalysisBroken("dynamic struct index")
                off += self.mod.offsets(t)[v[1]]
                t = self.mod.norm(t.e[v[1]])
                continue
            w = self.wid(ty)
            if w < 64:
                v = cast("sext", 64, v, w)
            v = self.fold(st, v)
            if v[0] == "c":
                off += v[1] * sz
            else:
                dyn.append(binop("mul", 64, v, C(sz)))
        for d in dyn:
            e = binop("add", 64, e, d)
        return add(64, e, off)

    def call(self, st, I):
        mod = self.mod
        name = mod.callee_name(I)
        args = [self.val(st, o, t) for o, t in zip(I.ops, I.tys)]
        r = self.rule.call(self, st, I, name, args)
        if r is not None:
            out = []
            for s, v in r:
                if I.res is not None:
                    s.env[I.res] = v if v is not None else self.callleaf(s, I, name)
                out.append(s)
            return out
        self.default_call(st, I, name, args)
        if name in NORETURN:
            return []
        return [st]

    def callleaf(self, st, I, name):
        w = self.wid(I.ty) if I.ty.k in ("i", "ptr") else 64
        leaf = ("x", ("call", I.bb.name, I.idx, name or "?"), w)
        self.purge(st, leaf)
        return leaf

    def default_call(self, st, I, name, args):
        tok = ("w", I.bb.name, I.idx)
        if name and name.startswith("llvm."):
            if name.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs", "llvm.fabs", "llvm.expect")):
                pass
        for r in self.mr.call_writes(self.fn, I):
            if r == "H" or (isinstance(r, tuple) and r[0] == "P"):
                self.kill(st, "H", tok)
        for r in self.mr.call_writes(self.fn, I):
            if isinstance(r, tuple):
                if r[0] == "G":
                    self.kill(st, ("g", r[1], 0), tok)
                elif r[0] == "L":
                    self.kill(st, ("al", r[1], 0), tok)
        if I.res is not None:
            st.env[I.res] = self.callleaf(st, I, name)


_mr = {}


def get_modref(mod):
    r = _mr.get(id(mod))
    if r is None:
        r = _mr[id(mod)] = ModRef(mod)
    return r
