"""M02: fixed-size tables are indexed within their bounds (whole-program interval inference)."""
import multiprocessing as mp
import ai
import bits
import core
from ai import C
from ir import AnalysisBroken
from util import G, fn_where
from rules_image import form

INF = 1 << 63


def rng(A, st, e, w, d=0):
    """Smallest and largest value (signed), or None."""
    S = bits.range_of(A, st, e, w)
    best = (S[0][0], S[-1][1]) if S else None
    r = None
    if e[0] == "c":
        return (e[1], e[1])
    if d < 12:
        k = e[0]
        if k == "cast" and e[1] in ("sext", "zext"):
            r = rng(A, st, e[3], e[4], d + 1)
            if e[1] == "zext" and r and r[0] < 0:
                r = (0, (1 << e[4]) - 1)
        elif k == "+":
            r = rng(A, st, e[2], w, d + 1)
            r = r and (r[0] + e[3], r[1] + e[3])
        elif k == "op" and e[1] == "mul" and e[4][0] == "c":
            r = rng(A, st, e[3], w, d + 1)
            q = e[4][1]
            r = r and (min(r[0] * q, r[1] * q), max(r[0] * q, r[1] * q))
        elif k == "op" and e[1] in ("add", "sub"):
            a, b = rng(A, st, e[3], w, d + 1), rng(A, st, e[4], w, d + 1)
            if a and b:
                r = (a[0] + b[0], a[1] + b[1]) if e[1] == "add" else (a[0] - b[1], a[1] - b[0])
        elif k == "op" and e[1] == "and" and e[4][0] == "c" and e[4][1] >= 0:
            r = (0, e[4][1])
        elif k == "op" and e[1] == "lshr" and e[4][0] == "c":
            r = rng(A, st, e[3], w, d + 1)
            r = (r[0] >> e[4][1], r[1] >> e[4][1]) if r and r[0] >= 0 else (0, ((1 << w) - 1) >> e[4][1])
    lim = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if r and (r[0] < lim[0] or r[1] > lim[1]):
        r = None
    if r and best:
        return (max(r[0], best[0]), min(r[1], best[1]))
    return r or best


class Cells:
    """The integers whose range is inferred over the whole program: globals, structure fields, parameters and results of own functions."""

    def __init__(self, m):
        self.m = m
        self.fns = [f for f in m.own if f.blocks]
        self.names = {f.name: f for f in self.fns}
        self.geps, self.escaped, self.sizes, self.texts = {}, set(), set(), {}
        gl_bad, taken = set(), set()
        for f in self.fns:
            for I in f.instrs():
                if I.op == "gep":
                    c = self.field_of(I)
                    if c is not None:
                        self.geps[(f.name, I.res)] = c
                    t = m.norm(I.x)
                    for o in I.ops[2:]:
                        if t.k == "arr":
                            if o[0] != "c" and m.size(t.e) > 1 or t.n <= 16:
                                self.sizes.add(t.n)
                            t = m.norm(t.e)
                        elif t.k == "st" and o[0] == "c":
                            t = m.norm(t.e[o[1]])
                        else:
                            break
        for f in self.fns:
            for I in f.instrs():
                for k, o in enumerate(I.ops):
                    if not isinstance(o, tuple) or not o:
                        continue
                    plain = I.op == "load" or I.op == "store" and k == 1
                    if o[0] == "g" and not plain:
                        gl_bad.add(o[1])
                    if o[0] == "v" and (f.name, o[1]) in self.geps and not plain:
                        self.escaped.add(self.geps[(f.name, o[1])])
                    if o[0] in ("f", "g"):
                        taken.add(o[1])
        self.globals = {}
        for g, d in m.globals.items():
            t = m.norm(d["type"])
            if t.k == "i" and g not in gl_bad and not d["const"]:
                self.globals[g] = m.size(t)
        for g, d in m.globals.items():
            def walk(v):
                if isinstance(v, tuple) and len(v) > 1 and v[0] in ("g", "f"):
                    taken.add(v[1])
                if isinstance(v, (tuple, list)):
                    for x in v:
                        walk(x)
            walk(d["init"])
        called = set()
        for f in self.fns:
            for I in f.instrs():
                if I.op == "call":
                    n = m.callee_name(I)
                    if n in self.names:
                        called.add(n)
        self.roots = {f.name for f in self.fns if f.name not in called or f.sym in taken or f.name in taken}
        self.val = {}
        self.ext = self.extents()
        self.sizes |= {n for n, z in self.ext.values()}
        self.fixed = {g for g, d in m.globals.items() if d["const"] or "internal" in d["linkage"] and d["init"] is not None}
        for f in self.fns:
            via = {}
            for I in f.instrs():
                if I.op == "gep" and I.ops[0][0] == "g":
                    via[I.res] = I.ops[0][1]
            for I in f.instrs():
                for k, o in enumerate(I.ops):
                    if isinstance(o, tuple) and o and (o[0] == "v" and o[1] in via or o[0] == "g"):
                        g = via[o[1]] if o[0] == "v" else o[1]
                        if I.op == "load" or I.op == "gep" and k == 0 and I.res in via or m.globals.get(g, {}).get("const"):
                            continue
                        self.fixed.discard(g)

    def field_of(self, I):
        t = self.m.norm(I.x)
        if t.k != "st" or len(I.ops) < 3 or any(o[0] != "c" for o in I.ops[2:]):
            return None
        off, cur = 0, t
        for o in I.ops[2:]:
            if cur.k != "st":
                return None
            off += self.m.offsets(cur)[o[1]]
            cur = self.m.norm(cur.e[o[1]])
        if cur.k != "i" or cur.n > 64 or cur.n < 8:
            return None
        return ("f", I.x.name or repr(I.x), off)

    def cell(self, f, op):
        """The cell behind the address operand of a load or store."""
        if op[0] == "g" and op[1] in self.globals:
            return ("g", op[1])
        if op[0] == "v":
            c = self.geps.get((f.name, op[1]))
            if c is not None and c not in self.escaped:
                return c
        return None

    def text(self, f, root):
        """Whether an array of characters is text: it is handed on as a string."""
        if root[0] not in ("v", "g"):
            return False
        if (f.name, root) not in self.texts:
            d = {root}
            for I in f.instrs():
                if I.op == "gep" and I.ops[0] == root and all(o == ("c", 0) for o in I.ops[1:]):
                    d.add(("v", I.res))
            self.texts[(f.name, root)] = any(I.op == "call" and not (self.m.callee_name(I) or "").startswith("llvm.") and d & set(o for o in I.ops if isinstance(o, tuple))
                                             for I in f.instrs())
        return self.texts[(f.name, root)]

    def extents(self):
        """Parameters that always get the start of an array of known length: {(function, i): length}."""
        m, out = self.m, {}
        for _ in range(4):
            new = {}
            for f in self.fns:
                own = {r: out.get((f.name, i)) for i, (r, t) in enumerate(f.params)}
                al = {}
                for I in f.instrs():
                    if I.op == "alloca":
                        t = m.norm(I.x) if hasattr(I.x, "k") else m.norm(I.ty)
                        if t.k == "arr":
                            al[("v", I.res)] = (t.n, m.size(t.e))
                for I in f.instrs():
                    if I.op == "gep" and I.ops[0] in al and all(o == ("c", 0) for o in I.ops[1:]):
                        al[("v", I.res)] = al[I.ops[0]]
                for I in f.instrs():
                    n = m.callee_name(I) if I.op == "call" else None
                    if n not in self.names or n in self.roots:
                        continue
                    for i, o in enumerate(I.ops[:len(self.names[n].params)]):
                        if self.names[n].params[i][1].k != "ptr":
                            continue
                        e = al.get(o) if isinstance(o, tuple) else None
                        if e is None and isinstance(o, tuple) and o[0] == "v" and o[1] in own:
                            e = "same" if n == f.name and f.params[i][0] == o[1] else own[o[1]]
                        if e == "same":
                            continue
                        k = (n, i)
                        new[k] = e if k not in new or new[k] == e else None
            if new == out:
                break
            out = new
        return {k: v for k, v in out.items() if v}


class Bounds(ai.Rule):
    def __init__(self, cs, f):
        self.cs, self.m, self.f = cs, cs.m, f
        self.out, self.sites, self.reads, self.tabs = {}, {}, set(), {}
        self.tables = {}
        self.defs = {I.res: I for I in f.instrs() if I.res is not None}
        self.down = self.falling()
        self.copied()

    def falling(self):
        """Loop counters that only go down: {(block, register): what they start with}."""
        out = {}
        for b in self.f.blocks:
            for I in b.ins:
                if I.op != "phi":
                    break
                start, ok = [], True
                for v in I.ops:
                    D = self.defs.get(v[1]) if v[0] == "v" else None
                    if D is not None and D.op == "add" and "nsw" in D.x and D.ops[0] == ("v", I.res) and D.ops[1][0] == "c" and D.ops[1][1] < 0:
                        continue
                    start.append(v)
                if len(start) == 1 and len(I.ops) > 1:
                    out[(b.name, I.res)] = (start[0], I.ty)
        return out

    def low(self, A, st, e, w, r):
        """Lower bound of an index that counts up while a counter it is taken from counts down."""
        c, t = form(e)
        if not r or r[0] >= 0 or not any(x[0] == "x" and x[1][0] == "phi" and (x[1][1], x[1][2]) in self.down and k < 0 for x, k in t):
            return r
        e2 = C(c)
        tot = {}
        for x, k in t:
            z = (c, 0)
            if k < 0 and x[0] == "x" and x[1][0] == "phi" and (x[1][1], x[1][2]) in self.down:
                v, ty = self.down[(x[1][1], x[1][2])]
                v = A.val(st, v, ty)
            else:
                v = x
            z, u = form(v)
            c += k * z
            for y, j in u:
                tot[y] = tot.get(y, 0) + j * k
        tot = {y: j for y, j in tot.items() if j}
        return (max(r[0], c), r[1]) if not tot else r

    def copied(self):
        """Local arrays that are copies of a constant table."""
        f, m = self.f, self.m
        n, src = {}, {}
        for I in f.instrs():
            if I.op == "call" and (m.callee_name(I) or "").startswith("llvm.memcpy") and I.ops[0][0] == "v" and I.ops[1][0] == "g":
                src[I.ops[0][1]] = I.ops[1][1]
            if I.op == "store" and I.ops[1][0] == "v":
                n[I.ops[1][1]] = True
        for I in f.instrs():
            if I.op == "gep" and I.ops[0][0] == "v" and I.ops[0][1] in src and I.res in n:
                src.pop(I.ops[0][1], None)
        self.tables = {("al", r, 0): g for r, g in src.items() if m.globals[g]["const"]}

    def init(self, A, st):
        st.ts = ()
        A.thresholds = sorted(set(A.thresholds) | {n + d for n in self.cs.sizes for d in (-1, 0)} | {0, 1, -1})
        if self.f.name not in self.cs.roots:
            for i, (r, t) in enumerate(self.f.params):
                if t.k == "i" and t.n >= 8:
                    S = self.cs.val.get(("p", self.f.name, i))
                    if S is not None:
                        A.constrain(st, st.env[r], (S,))

    def put(self, A, st, cell, v, w):
        if A.reporting:
            r = rng(A, st, v, w) or (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            o = self.out.get(cell)
            self.out[cell] = r if o is None else (min(o[0], r[0]), max(o[1], r[1]))

    def load(self, A, st, I, addr):
        if I.ty.k == "i" and I.ty.n >= 8:
            c = self.cs.cell(self.f, I.ops[0])
            if c is not None:
                self.reads.add(c)
                b = ai.split(addr)[0]
                held = next((x[2] for x in st.ts if x[0] == b and x[1] == c), None) if self.fresh(b) else None
                if held is not None:
                    return held
                r = A.load_expr(st, addr, self.m.size(I.ty), I.ty.n)
                if self.fresh(b) and (b, "out") not in st.ts:
                    return r
                S = self.cs.val.get(c, (0, 0))
                if r[0] != "c":
                    A.constrain(st, r, (S,))
                return r
        t = self.table(A, addr)
        if t is not None:
            g, idx, n, size = t
            r = A.load_expr(st, addr, size, 64)
            if r[0] != "c":
                self.tabs[r] = (idx, n, g, size)
            return r
        return None

    def table(self, A, addr):
        """(table, index, length, element size) of a load from a constant table of pointers."""
        if addr[0] != "op" or addr[1] != "add":
            return None
        for base, off in ((addr[3], addr[4]), (addr[4], addr[3])):
            g = base[1] if base[0] == "g" and base[2] == 0 and base[1] in self.cs.fixed else self.tables.get(base)
            if g is None:
                continue
            t = self.m.norm(self.m.globals[g]["type"])
            if t.k != "arr" or self.m.norm(t.e).k != "ptr":
                continue
            if off[0] == "op" and off[1] == "mul" and off[4] == C(8):
                return g, off[3], t.n, 8
        return None

    def arith(self, A, st, I, a, b):
        """Signed arithmetic does not overflow."""
        if I.op == "add" and "nsw" in I.x and b[0] == "c" and I.ty.k == "i":
            lim = 1 << (I.ty.n - 1)
            A.constrain(st, a, ((max(-lim, -lim - b[1]), min(lim - 1, lim - 1 - b[1])),))

    def edge(self, A, st, src, dst):
        for L, (idx, n, g, size) in self.tabs.items():
            if L in st.cons:
                S = A.iset(st, L)
                null = [k for k, v in enumerate(self.m.elems(self.m.norm(self.m.globals[g]["type"]), self.m.globals[g]["init"])) if v[0] == "null" or v == ("c", 0)]
                if len(null) == 1 and null[0] == n - 1:
                    if not ai.iinter(S, ((0, 0),)):
                        e = idx
                        while True:
                            A.constrain(st, e, ((0, n - 2),))
                            if e[0] == "cast" and e[1] in ("sext", "zext"):
                                e = e[3]
                            else:
                                break
        return True

    def store(self, A, st, I, addr, v):
        self.leave(A, st, v)
        if I.ty is not None and I.ty.k == "i" and I.ty.n >= 8:
            c = self.cs.cell(self.f, I.ops[1])
            if c is not None:
                b = ai.split(addr)[0]
                if self.fresh(b) and not any(x[0] == "phi" for x in self.leaves(v)) and (b, "out") not in st.ts:
                    # nobody else sees the object yet: what counts is what the field holds when it gets out
                    st.ts = tuple(x for x in st.ts if x[:2] != (b, c)) + ((b, c, v, I.ty.n),)
                else:
                    self.put(A, st, c, v, I.ty.n)

    def leaves(self, v):
        return [e[1] for e in [v] + list(ai.subexprs(v)) if e[0] == "x"]

    def fresh(self, b):
        return b[0] == "x" and b[1][0] == "call" and b[1][3] in ("malloc", "calloc")

    def leave(self, A, st, v):
        """The object v points to (or into) gets out of the function's hands."""
        b = ai.split(v)[0] if v[0] in ("x", "+") else None
        if b is None or not self.fresh(b) or (b, "out") in st.ts:
            return
        for x in st.ts:
            if x[0] == b:
                self.put(A, st, x[1], x[2], x[3])
        st.ts = tuple(x for x in st.ts if x[0] != b) + ((b, "out"),)

    def call(self, A, st, I, n, args):
        g = self.cs.names.get(n)
        if n not in ("free", "strlen", "strcmp", "strcasecmp") and not (n or "").startswith("llvm."):
            for a in args:
                self.leave(A, st, a)
        if n == "strlen":
            A.default_call(st, I, n, args)
            leaf = A.callleaf(st, I, n)
            A.constrain(st, leaf, ((0, (1 << 31) - 2),))
            return [(st, leaf)]
        if n in ("malloc", "calloc"):
            A.default_call(st, I, n, args)
            leaf = A.callleaf(st, I, n)
            if any(x[0] == leaf for x in st.ts):
                # an object of an earlier round
                self.leave(A, st, leaf)
                st.ts = tuple(x for x in st.ts if x[0] != leaf)
            return [(st, leaf)]
        if g is None:
            return None
        if A.reporting:
            self.out.setdefault(("called", n), (0, 0))
        for i, (r, t) in enumerate(g.params):
            if t.k == "i" and t.n >= 8 and i < len(args):
                self.put(A, st, ("p", n, i), args[i], t.n)
        A.default_call(st, I, n, args)
        if I.res is not None and I.ty.k == "i" and I.ty.n >= 8:
            self.reads.add(("r", n))
            S = self.cs.val.get(("r", n))
            if S is None:
                return []
            leaf = A.callleaf(st, I, n)
            A.constrain(st, leaf, (S,))
            return [(st, leaf)]
        if ("ret", n) not in self.cs.val:
            self.reads.add(("ret", n))
            return []
        return [(st, st.env.get(I.res) if I.res is not None else None)]

    def ret(self, A, st, I, v):
        if v is not None:
            self.leave(A, st, v)
        if A.reporting:
            self.out.setdefault(("ret", self.f.name), (0, 0))
        if v is not None and self.f.ret.k == "i" and self.f.ret.n >= 8:
            self.put(A, st, ("r", self.f.name), v, self.f.ret.n)


def analyse(cs, f):
    q = Bounds(cs, f)
    m = cs.m
    A = ai.Analysis(m, f, q, max_visits=6000)
    gep = A.gep
    ext = {("v", r): cs.ext.get((f.name, i)) for i, (r, t) in enumerate(f.params)}

    def checked(st, I):
        if A.reporting:
            cur = None
            for k, (o, ty) in enumerate(zip(I.ops[1:], I.tys[1:])):
                v = A.val(st, o, ty)
                if k == 0:
                    cur = m.norm(I.x)
                    e = ext.get(I.ops[0])
                    if e and m.size(cur) == e[1] and e[1] > 1 and v != C(0):
                        r = rng(A, st, v, A.wid(ty))
                        key = (I.bb.name, I.idx)
                        p = q.sites.get(key)
                        ok = bool(r and r[0] >= 0 and r[1] < e[0])
                        if p is None or p[0] and not ok:
                            q.sites[key] = (ok, I.ops[0], e[0], False, r)
                    continue
                if cur.k == "arr":
                    n, el = cur.n, m.norm(cur.e)
                    if v[0] != "c" or not 0 <= v[1] < n:
                        r = q.low(A, st, v, A.wid(ty), rng(A, st, v, A.wid(ty)))
                        key = (I.bb.name, I.idx)
                        p = q.sites.get(key)
                        ok = bool(r and r[0] >= 0 and r[1] < n)
                        if p is None or p[0] and not ok:
                            q.sites[key] = (ok, I.ops[0], n, el.k == "i" and el.n == 8 and cs.text(f, I.ops[0]), r)
                    cur = el
                elif cur.k == "st":
                    cur = m.norm(cur.e[v[1]])
        return gep(st, I)
    A.gep = checked
    A.run()
    return q.out, q.sites, q.reads


_cs = None


def _one(name):
    try:
        return name, analyse(_cs, _cs.names[name]), None
    except AnalysisBroken as e:
        return name, None, repr(e)


def infer(m, verbose=False):
    global _cs
    cs = Cells(m)
    _cs = cs
    big = [-INF, -(1 << 31), 0, (1 << 31) - 1, INF - 1]
    th = sorted({n + d for n in cs.sizes for d in (-1, 0)} | {0, 1, -1, 2, 4, 8, 127, 255, 32767, 65535, -128, -32768, (1 << 31) - 1, -(1 << 31), (1 << 32) - 1, INF - 1, -INF})
    for g in cs.globals:
        v = m.globals[g]["init"]
        cs.val[("g", g)] = (v[1], v[1]) if isinstance(v, tuple) and v[0] == "c" else (0, 0)
    reached = set(cs.roots)
    last, outs, grown = {}, {}, {}
    todo = set(reached)
    rounds = 0
    while todo:
        rounds += 1
        if rounds > 200:
            raise AnalysisBroken("the ranges do not settle")
        with mp.Pool(8) as p:
            res = p.map(_one, sorted(todo), 1)
        changed = set()
        for name, r, err in res:
            if r is None:
                raise AnalysisBroken("%s: %s" % (name, err))
            last[name] = r
            for c, S in r[0].items():
                if c[0] == "called":
                    if c[1] not in reached:
                        reached.add(c[1])
                        changed.add(("new", c[1]))
                    continue
                o = cs.val.get(c)
                if o is None:
                    cs.val[c] = S if c[0] in ("p", "r", "ret") else (min(S[0], 0), max(S[1], 0))
                    changed.add(c)
                    continue
                n = (min(o[0], S[0]), max(o[1], S[1]))
                if n != o:
                    grown[c] = grown.get(c, 0) + 1
                    if grown[c] > 1:
                        t2 = th if grown[c] < 30 else big
                        lo = n[0] if n[0] == o[0] else max([t for t in t2 if t <= n[0]] or [-INF])
                        hi = n[1] if n[1] == o[1] else min([t for t in t2 if t >= n[1]] or [INF - 1])
                        n = (lo, hi)
                    cs.val[c] = n
                    changed.add(c)
        todo = {c[1] for c in changed if c[0] == "new"}
        todo |= {c[1] for c in changed if c[0] == "p" and c[1] in reached}
        for name in reached:
            if name in last and last[name][2] & changed:
                todo.add(name)
        if verbose:
            print(rounds, len(todo), len(changed))
    return cs, last




# read through the row that was matched; its wildcards were counted when it was
BY_ROW = ("write_instruction_data",)


def table_name(m, f, o):
    if o[0] == "g":
        return m.globals[o[1]]["name"].split("E")[-1].lstrip("_0123456789L") or o[1]
    return m.local_name(f, o[1]) or o[1]


def check_M02(m, R):
    cs, last = infer(m)
    for name in sorted(last):
        f = cs.names[name]
        for (b, k), (ok, root, n, text, r) in sorted(last[name][1].items()):
            I = f.bmap[b].ins[k]
            if text or root[0] == "v" and cs.ext.get((name, next((i for i, p in enumerate(f.params) if p[0] == root[1]), None))) and name in BY_ROW:
                R.count("left to the text rule", 1)
                continue
            t = root[1].split(".")[0].rstrip("0123456789") if root[0] == "v" else root[1].split("E")[-1].lstrip("_0123456789L")
            if ok:
                R.ok("index", "%s: %s[%d] is indexed with %s" % (fn_where(m, f, I), t, n, "..".join(map(str, r))))
            else:
                R.bad("index", fn_where(m, f, I), "%s has %d entries and is indexed with %s" % (t, n, "anything" if r is None else "%d..%d" % r), "%s %s" % (name, t))
    R.note("ranges inferred for %d globals, fields, parameters and results over %d functions" % (len(cs.val), len(last)))
    R.need("index", 40)


CHECKS = {"M02": (check_M02, "proof", ["structures are only accessed with their own type", "fields are set before they are read (M04)"])}
