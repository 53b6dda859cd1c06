"""M04: nothing is read before it is set: local variables, results through pointers, fields of new objects."""
import ai
import core
from ai import C
from ir import AnalysisBroken
from util import G, P, fn_where, gval, modebit

NZ = ((-(1 << 63), -1), (1, (1 << 63) - 1))
USED = ((4096, (1 << 47) - 1),)  # an address that is read from
# library functions that only read what they are pointed to
READERS = {"strlen", "strcmp", "strcasecmp", "strncmp", "strncasecmp", "strdup", "strndup", "strchr", "strrchr", "strstr", "strcspn", "strspn", "strpbrk", "memchr",
           "memcmp", "puts", "fputs", "fopen", "fopen64", "access", "printf", "free", "atoi", "atol", "strtol", "strtoul", "__isoc23_strtol", "perror", "remove", "getenv",
           "fwrite", "__isoc23_strtoll", "strtoll", "write"}
RW_AFTER = {"fprintf": 0, "printf": 0, "sprintf": 1, "snprintf": 1, "strcpy": 1, "strncpy": 1, "memcpy": 1, "memmove": 1, "strcat": 0, "strncat": 0}
ALLOC = ("malloc", "_Znwm", "realloc")
READS = ("fread", "fread_unlocked")
ANY = frozenset({None})
NONNULL = ("strdup", "strndup")  # memory is taken to suffice
RAISE = ("SetLastSPASMError",)
FREE = ("free", "_ZdlPv", "_ZdlPvm")


def undef(e):
    return e == ("x", ("undef",), ai.width(e)) if e[0] == "x" else False


def tainted(e):
    return undef(e) or any(undef(x) for x in ai.subexprs(e))


class Shapes:
    """Structure fields: which are read anywhere, the field a register points to."""

    def __init__(self, m):
        self.m = m
        self.reg, self.read, self.scalars = {}, set(), {}
        for f in m.own:
            for I in f.instrs():
                if I.op == "gep":
                    k = self.field(I)
                    if k is not None:
                        self.reg[(f.name, I.res)] = k
        # what is read of the elements of lists
        self.listed = set()
        for f in m.own:
            for I in f.instrs():
                if I.op == "load" and I.ops[0][0] == "v" and (f.name, I.ops[0][1]) in self.reg:
                    g = f.defs[I.ops[0][1]]
                    d = f.defs.get(g.ops[0][1]) if g.ops[0][0] == "v" else None
                    if d is not None and d.op == "load" and d.ops[0][0] == "v" and self.reg.get((f.name, d.ops[0][1]), ("",))[0].startswith(("struct.list", "struct._list")):
                        self.listed.add(self.reg[(f.name, I.ops[0][1])][:2])
        for f in m.own:
            for I in f.instrs():
                if I.op == "load" and I.ops[0][0] == "v" and (f.name, I.ops[0][1]) in self.reg:
                    self.read.add(self.reg[(f.name, I.ops[0][1])][:2])

    def field(self, I):
        m = self.m
        t = m.norm(I.x)
        if t.k != "st" or len(I.ops) != 3 or I.ops[2][0] != "c":
            return None
        n = I.ops[2][1]
        e = m.norm(t.e[n])
        if e.k not in ("i", "ptr"):
            return None
        return (I.x.name or repr(I.x), m.offsets(t)[n], m.size(e))


class Init(ai.Rule):
    """ts: the set of local variables (with the offset of the field) that are set, the phis that hold an unset value."""

    retsplit = True

    def __init__(self, m, f, shapes, sums, on=0):
        self.on = on
        self.m, self.f, self.shapes, self.sums = m, f, shapes, sums
        self.vars, self.arrays, self.probs, self.obl = {}, set(), [], set()
        self.outs, self.first = {}, set()
        self.taken = set()
        for I in f.instrs():
            if I.op == "alloca":
                t = m.norm(I.x) if I.x is not None and hasattr(I.x, "k") else m.norm(I.ty)
                if t.k in ("i", "ptr"):
                    self.vars[I.res] = [(0, m.size(t))]
                elif t.k == "st":
                    self.vars[I.res] = self.parts(t, 0)
                else:
                    self.arrays.add(I.res)
        self.ptrs = [i for i, (r, t) in enumerate(f.params) if t.k == "ptr"]
        self.objs, self.silent = {}, False
        self.makes, self.esc = None, set()
        self.why, self.maynull, self.nullargs = set(), False, set()
        # pointers that are a parameter or one of the locals
        ps = {("v", r) for r, t in f.params}
        self.either = {I.res for I in f.instrs() if I.op == "phi" and I.ty.k == "ptr" and set(I.ops) & ps and any(o[0] == "v" and o[1] in self.vars for o in I.ops)}

    def parts(self, t, base):
        m, out = self.m, []
        for o, e in zip(m.offsets(t), t.e):
            e = m.norm(e)
            if e.k in ("i", "ptr"):
                out.append((base + o, m.size(e)))
            elif e.k == "st":
                out += self.parts(e, base + o)
            elif e.k == "arr":
                out.append((base + o, m.size(e)))
        return out

    def init(self, A, st):
        st.ts = frozenset()
        if self.on:
            A.constrain(st, ai.binop("and", 32, gval(A, st, "mode"), C(self.on)), ((self.on, self.on),))

    def note(self, A, rule, I, text, key):
        if A.reporting:
            self.probs.append((rule, I, text, key))

    def name(self, r):
        return (self.m.local_name(self.f, r) or r).split(".")[0]

    def base(self, addr):
        b, o = ai.split(addr)
        if b[0] == "al":
            return b[1], o
        if b[0] == "op":
            for x in [b] + list(ai.subexprs(b)):
                if x[0] == "al":
                    return x[1], None
        return None, None

    def is_set(self, st, r, o):
        if r in self.arrays:
            return ("set", r) in st.ts
        if o is None:
            return True
        return any(("set", r, p) in st.ts for p, z in self.vars[r] if p <= o < p + z) or not any(p <= o < p + z for p, z in self.vars[r])

    def put(self, st, r, o, n=None):
        if r in self.arrays:
            st.ts |= {("set", r)}
        elif r in self.vars:
            st.ts |= {("set", r, p) for p, z in self.vars[r] if o is None or (p <= o < p + z if n is None else p < o + n and p + z > o)}

    def edge(self, A, st, src, dst):
        for I in self.f.bmap[dst].ins:
            if I.op != "phi":
                break
            st.ts = frozenset(x for x in st.ts if x[:2] not in (("unset", I.res), ("is", I.res)))
            e = st.env.get(I.res)
            if I.res in self.either and e is not None and (e in self.pexprs or e[0] == "al"):
                st.ts |= {("is", I.res, e)}
            if tainted(st.env.get(I.res, C(0))):
                st.ts |= {("unset", I.res)}
        return True

    def load(self, A, st, I, addr):
        r, o = self.base(addr)
        if r is None:
            # what is read through was not null
            for e in (addr, ai.split(addr)[0]):
                if e[0] in ("x", "+"):
                    A.constrain(st, e, USED)
        if r is not None:
            if r in self.vars or r in self.arrays:
                ok = self.is_set(st, r, o)
                if A.reporting:
                    self.obl.add((I.bb.name, I.idx))
                if not ok and not self.only_copied(I):
                    self.note(A, "local", I, "%s can be read before it is set" % self.name(r), self.name(r))
            return None
        b, o = ai.split(addr)
        if b[0] == "x" and b[1][0] == "P" or b in self.pexprs:
            i = self.pexprs.get(b)
            if i is not None and not self.written(st, i, o):
                self.first.add(i)
        if self.fresh(b) and ("obj", b, o) not in st.ts and any(x[:2] == ("new", b) for x in st.ts):
            self.note(A, "field", I, "a field of a new object is read before it is set", "read %d" % o)
        return None

    def only_copied(self, I):
        """The whole variable is only copied to another (a structure passed on)."""
        return I.ty.k not in ("i", "ptr")

    def fresh(self, b):
        return b[0] == "x" and b[1][0] == "call" and (b[1][3] in ALLOC or bool(self.made(b[1][3])))

    def made(self, n):
        """Own functions that hand out a new object: its type and the fields they set."""
        g = self.m.fn(n, False) if n else None
        return self.sums.get((g.name, "alloc")) if g is not None and g in self.m.own else None

    def store(self, A, st, I, addr, v):
        if tainted(v):
            self.note(A, "undefined", I, "a value that was never set is stored", "stored")
        r, o = self.base(addr)
        n = self.m.size(I.ty)
        if r is not None:
            self.put(st, r, o, n)
        b, o = ai.split(addr)
        i = self.pexprs.get(b)
        field = I.ops[-1][0] == "v" and (self.f.name, I.ops[-1][1]) in self.shapes.reg
        if i is not None:
            st.ts |= {("w", i, o if field else 0)}  # of a buffer: whether it is written at all
        if self.fresh(b) and (field or o == 0):
            st.ts |= {("obj", b, o)}
        if v[0] in ("x", "+") and ai.split(v)[0] in self.pexprs and r is None:
            self.esc.add(self.pexprs[ai.split(v)[0]])
        vb = ai.split(v)[0] if v[0] in ("x", "+") else None
        if vb is not None and self.fresh(vb) and r is None:
            st.ts |= {("kept", vb), ("shared", vb)}

    def call(self, A, st, I, n, args):
        m = self.m
        for a in args:
            if tainted(a):
                self.note(A, "undefined", I, "a value that was never set is handed to %s" % n, "handed %s" % n)
        if n and n.startswith("llvm.mem"):
            r, o = self.base(args[0])
            if r is not None:
                L = A.iset(st, args[2])
                self.put(st, r, o, L[-1][1] if L else None)
            b, o = ai.split(args[0])
            if self.fresh(b):
                st.ts |= {("obj", b, x) for x in range(0, 512)}
            i = self.pexprs.get(b)
            if i is not None:
                st.ts |= {("w", i, None)}
            return None
        if n and n.startswith("llvm.va_"):
            r, o = self.base(args[0])
            if r is not None:
                self.put(st, r, None)
            return None
        T = lambda x: (x,) in st.ts
        if n == "StartSPASMErrorSession":
            st.ts = st.ts - {("raised",), ("before",), ("replayed",)} | ({("before",)} if T("raised") or T("before") else set())
            return None
        if n == "ReplaySPASMErrorSession":
            st.ts |= {("replayed",)}
            return None
        if n == "EndSPASMErrorSession":
            up = T("before") or T("raised") and T("replayed")
            st.ts = st.ts - {("raised",), ("before",), ("replayed",)} | ({("raised",)} if up else set())
            return None
        if n in RAISE:
            st.ts |= {("raised",)}
            return None
        if n == "GetSPASMErrorSessionErrorCount":
            A.default_call(st, I, n, args)
            res = A.callleaf(st, I, n)
            none = None if T("raised") else st.copy()
            A.constrain(st, res, ((1, (1 << 31) - 1),))
            st.ts |= {("raised",)}
            return [(st, res)] + ([(none, C(0))] if none else [])
        if n in ALLOC:
            A.default_call(st, I, n, args)
            leaf = A.callleaf(st, I, n)
            st.ts = frozenset(x for x in st.ts if not (len(x) > 1 and x[1] == leaf)) | {("new", leaf)}
            return [(st, leaf)]
        if self.made(n):
            A.default_call(st, I, n, args)
            leaf = A.callleaf(st, I, n)
            t, fields = self.made(n)
            for i, a in enumerate(args):
                b = ai.split(a)[0]
                if i in (self.sums.get((m.fn(n).name, "esc")) or ()) and b != leaf:
                    if self.fresh(b):
                        st.ts |= {("kept", b)} | (frozenset() if n.startswith("list_") else {("shared", b)})
                    if b in self.pexprs:
                        self.esc.add(self.pexprs[b])
            st.ts = frozenset(x for x in st.ts if not (len(x) > 1 and x[1] == leaf)) | {("new", leaf)} | {("obj", leaf, o) for o in fields}
            self.objs[(leaf[1][1], leaf[1][2])] = t
            return [(st, leaf)]
        if n in FREE and args:
            b = ai.split(args[0])[0]
            st.ts = frozenset(x for x in st.ts if not (len(x) > 1 and x[1] == b))
            return None
        g = m.fn(n, False) if n else None
        own = g is not None and g.blocks and g in m.own
        todo, short = [], None
        for i, a in enumerate(args):
            r, o = self.base(a)
            b = ai.split(a)[0]
            pi = self.pexprs.get(b)
            if not own and i and n in ("operator[]", "find", "erase", "count"):
                continue  # keys are taken by constant reference
            keeps = (i in (self.sums.get((g.name, "esc")) or ())) if own else n not in READERS and n not in RW_AFTER and n not in FREE
            if keeps and pi is not None:
                self.esc.add(pi)
            new = b if self.fresh(b) else None
            if new and keeps:
                st.ts |= {("kept", b)} | ({("shared", b)} if not (own and n.startswith("list_")) else frozenset())
            if r is None and pi is None and new is None:
                continue
            if own and i < len(g.params) and not (r in self.arrays):
                S = self.sums.get((g.name, i))
                if S is None:
                    continue
                first, outs = S
                if r is not None and first and not self.is_set(st, r, o or 0):
                    self.note(A, "local", I, "%s is handed to %s, which reads it, before it is set" % (self.name(r), n), self.name(r))
                if pi is not None and first and not self.written(st, pi, o):
                    self.first.add(pi)
                todo.append((r, o, pi, outs, new))
            elif n in READERS and (i == 0 or "strto" not in n) or n in RW_AFTER and i >= RW_AFTER[n]:
                if r is not None and not self.is_set(st, r, o or 0) and o is not None:
                    self.note(A, "local", I, "%s is handed to %s before it is set" % (self.name(r), n), self.name(r))
                if A.reporting and r is not None:
                    self.obl.add((I.bb.name, I.idx))
                if n in ("strcat", "strncat") and r is not None:
                    self.put(st, r, None)
            else:
                if r is not None and n not in READS:
                    self.put(st, r, None)
                if pi is not None:
                    st.ts |= {("w", pi, None)}
                if new:
                    st.ts |= {("obj", new, x) for x in range(0, 512)}
                if r is not None and n in READS and i == 0:
                    short = (r, n)
        if short:
            # all that was asked for, or nothing
            A.default_call(st, I, n, args)
            res = A.callleaf(st, I, n)
            s = st.copy()
            self.put(st, short[0], None)
            c = A.iset(st, args[2])
            A.constrain(st, res, c)
            return [(st, res)] + ([(s, res)] if A.constrain(s, res, ((0, c[-1][1] - 1),)) else [])
        raises = own and self.sums.get((g.name, "raise"))
        nonnull = own and self.sums.get((g.name, "nonnull")) or n in NONNULL
        if nonnull and own and any(ai.iinter(A.iset(st, args[i]), ((0, 0),)) for i in nonnull[1] if args[i][0] not in ("g", "al")):
            nonnull = False
        if not todo and not (raises and I.res is not None) and not nonnull:
            return None
        A.default_call(st, I, n, args)
        res = A.callleaf(st, I, n) if I.res is not None else None
        out = []
        if nonnull:
            A.constrain(st, res, USED)
        split = res is not None and not nonnull and any(self.when(x[3], "z") != self.when(x[3], "nz") for x in todo)
        split = split or raises and res is not None and not nonnull
        for cls in (("z", "nz") if split else ("?",)):
            s = st.copy() if split and cls == "z" else st
            if split and not A.constrain(s, res, ((0, 0),) if cls == "z" else NZ):
                continue
            if raises and cls == "z":
                s.ts |= {("raised",)}
            for r, o, pi, outs, new in todo:
                for k in self.when(outs, cls):
                    at = None if k is None or o is None else o + k
                    if r is not None:
                        self.put(s, r, at)
                    if pi is not None:
                        s.ts |= {("w", pi, at)}
                    if new:
                        s.ts |= {("obj", new, x) for x in (range(512) if at is None else (at,))}
            out.append((s, (C(0) if cls == "z" else res) if split else res))
        return out

    def when(self, outs, cls):
        """What the callee has certainly set when it returns this class of result (offsets; None: anything)."""
        w = [x for x, c in outs if c == cls or c == "?" or cls == "?"]
        out = ANY
        for x in w:
            out = x if None in out else out if None in x else out & x
        return out

    def written(self, st, i, o):
        if o not in (0, None) and ("w", i, 0) in st.ts and not any(x[:2] == ("w", i) and x[2] for x in st.ts):
            return True
        return ("w", i, o) in st.ts or ("w", i, None) in st.ts or o is None and any(x[:2] == ("w", i) for x in st.ts)

    def derived(self, st, A, v):
        """A pointer into something: a pointer with an offset, or one that is not null."""
        if self.f.ret.k != "ptr":
            return False
        b, o = ai.split(v)
        return b[0] != "c" and (o != 0 or b[0] == "op" or b[0] == "+" or not ai.iinter(A.iset(st, b), ((0, 0),)))

    def ret(self, A, st, I, v):
        if not A.reporting:
            return
        if v is not None and tainted(v):
            self.note(A, "undefined", I, "a value that was never set is returned", "returned")
        cls = "?"
        if v is not None:
            S = A.iset(st, v)
            if S == ((0, 0),):
                cls = "z"
            elif not ai.iinter(S, ((0, 0),)) or v[0] in ("g", "al") or self.derived(st, A, v):
                cls = "nz"
        if cls != "nz":
            # null for a null argument is no surprise
            z = [i for i in self.ptrs if A.iset(st, P(i)) == ((0, 0),)]
            if z:
                self.nullargs |= {z[0]}
                return
            self.maynull = True
        if cls != "nz" and ("raised",) not in st.ts or v is None:
            self.silent = True
            self.why.add(("silent", cls, I.bb.name, str(v)[:150]))
        for i in self.ptrs:
            w = frozenset(x[2] for x in st.ts if x[:2] == ("w", i))
            if None in w or A.iset(st, P(i)) == ((0, 0),):
                w = ANY
            self.outs.setdefault(i, set()).add((w, cls))
            if not w and cls != "z":
                self.why.add((i, cls, I.bb.name, str(v)[:150]))
        vb = ai.split(v)[0] if v is not None and v[0] in ("x", "+") else None
        if cls != "z" and v is not None and self.f.ret.k == "ptr":
            t = vb is not None and v == vb and ("new", vb) in st.ts and ("kept", vb) not in st.ts and self.objs.get((vb[1][1], vb[1][2]))
            s = frozenset(x[2] for x in st.ts if x[0] == "obj" and x[1] == vb)
            self.makes = False if not t or self.makes is False or self.makes and self.makes[0] != t else (t, s & self.makes[1] if self.makes else s)
        for x in st.ts:
            if x[0] == "new" and (("kept", x[1]) in st.ts or x[1] == vb and not self.makes):
                t = self.objs.get((x[1][1][1], x[1][1][2]))
                if t is None or A.iset(st, x[1]) == ((0, 0),):
                    continue
                self.obl.add(("obj", x[1][1][1], x[1][1][2]))
                for off in sorted(o for n, o in (self.shapes.read if ("shared", x[1]) in st.ts or x[1] == vb else self.shapes.listed) if n == t):
                    if ("obj", x[1], off) not in st.ts:
                        J = self.f.bmap[x[1][1][1]].ins[x[1][1][2]]
                        self.probs.append(("field", J, "the field at offset %d of a new %s is not set, but read elsewhere" % (off, t), "%s %d" % (t, off)))

    def term(self, A, st, I):
        pass


def without(A, st, bit):
    A.constrain(st, ai.binop("and", 32, gval(A, st, "mode"), C(bit)), ((0, 0),))


def unread_without(m, shapes, t, off, bit):
    """No function reads the field when the mode is off."""
    class Reach(ai.Rule):
        hit = False

        def init(self, A, st):
            without(A, st, bit)

        def load(self, A, st, I, addr):
            if I.ops[0][0] == "v" and shapes.reg.get((A.fn.name, I.ops[0][1]), ())[:2] == (t, off):
                self.hit = True
            return None
    for f in m.own:
        if any(I.op == "load" and I.ops[0][0] == "v" and shapes.reg.get((f.name, I.ops[0][1]), ())[:2] == (t, off) for I in f.instrs()):
            q = Reach()
            ai.Analysis(m, f, q, max_visits=8000).run()
            if q.hit:
                return False
    return True


def unset_with(m, f, shapes, sums, key, bit):
    """The field can also be unset when the mode is on."""
    q = analyse(m, f, shapes, sums, on=bit)
    return any(k == key for _, _, _, k in q.probs)


def analyse(m, f, shapes, sums, on=0):
    q = Init(m, f, shapes, sums, on)
    A = ai.Analysis(m, f, q, max_visits=8000)
    q.pexprs = {P(i): i for i in q.ptrs}
    gep = A.gep

    def seen(st, I):
        r = gep(st, I)
        k = shapes.reg.get((f.name, I.res))
        if k is not None:
            b = ai.split(A.val(st, I.ops[0]))[0]
            if q.fresh(b):
                q.objs[(b[1][1], b[1][2])] = k[0]
        return r
    A.gep = seen
    term = A.term

    def branch(b, st, *r):
        for I in b.ins[-1:]:
            if I.op in ("br", "switch", "condbr") and I.ops:
                v = A.val(st, I.ops[0])
                if isinstance(v, tuple) and tainted(v):
                    q.note(A, "undefined", I, "a branch depends on a value that was never set", "branch")
        return term(b, st, *r)
    A.term = branch
    A.run()
    return q


_g = None


def _one(i):
    m, shapes, sums = _g
    f = m.own[i]
    try:
        q = analyse(m, f, shapes, sums)
    except AnalysisBroken as e:
        return i, None, str(e)
    return i, (q.outs, q.first, [(r, I.bb.name, I.idx, t, k) for r, I, t, k in q.probs], len(q.obl), not q.silent, q.why, not q.maynull and (1, frozenset(q.nullargs)), q.makes or None, frozenset(q.esc)), None


def infer(m, verbose=False):
    import multiprocessing as mp
    global _g
    shapes = Shapes(m)
    sums = {}
    own = [i for i, f in enumerate(m.own) if f.blocks]
    # optimistic: whatever gets a pointer sets it, until its body shows otherwise
    for i in own:
        for k, (r, t) in enumerate(m.own[i].params):
            if t.k == "ptr":
                sums[(m.own[i].name, k)] = (False, frozenset({(ANY, "?")}))
        sums[(m.own[i].name, "nonnull")] = m.own[i].ret.k == "ptr" and (1, frozenset())
        sums[(m.own[i].name, "raise")] = m.own[i].ret.k in ("i", "ptr")
    calls = {}
    for i in own:
        calls[i] = {m.callee_name(I) for I in m.own[i].instrs() if I.op == "call"}
    todo, last = list(own), {}
    rounds = 0
    while todo:
        rounds += 1
        if rounds > 30:
            raise AnalysisBroken("summaries do not settle")
        _g = (m, shapes, sums)
        with mp.Pool(8) as p:
            res = p.map(_one, todo, 1)
        changed = set()
        for i, r, err in res:
            if r is None:
                raise AnalysisBroken("%s: %s" % (m.own[i].name, err))
            last[i] = r
            if sums.get((m.own[i].name, "raise")) and not r[4]:
                sums[(m.own[i].name, "raise")] = False
                changed.add(m.own[i].name)
            if sums.get((m.own[i].name, "nonnull")) and r[6] != sums[(m.own[i].name, "nonnull")]:
                sums[(m.own[i].name, "nonnull")] = r[6]
                changed.add(m.own[i].name)
            if sums.get((m.own[i].name, "esc"), frozenset()) != r[8]:
                sums[(m.own[i].name, "esc")] = r[8]
                changed.add(m.own[i].name)
            if sums.get((m.own[i].name, "alloc")) != r[7]:
                sums[(m.own[i].name, "alloc")] = r[7]
                changed.add(m.own[i].name)
            for k, outs in r[0].items():
                new = (k in r[1], frozenset(outs))
                if sums.get((m.own[i].name, k)) != new:
                    sums[(m.own[i].name, k)] = new
                    changed.add(m.own[i].name)
        todo = [i for i in own if calls[i] & changed]
        if verbose:
            print(rounds, len(todo))
    return shapes, sums, last


def check_M04(m, R):
    shapes, sums, last = infer(m)
    for i in sorted(last):
        f = m.own[i]
        outs, first, probs, n = last[i][:4]
        seen = set()
        if any(p[0] == "field" for p in probs):
            bit = modebit(m, "MODE_LIST")
            probs = [p for p in probs if p[0] != "field" or p[4].startswith("read") or unset_with(m, f, shapes, sums, p[4], bit)
                     or not unread_without(m, shapes, p[4].split()[0], int(p[4].split()[1]), bit)]
        for rule, b, k, text, key in probs:
            if (rule, key) in seen:
                continue
            seen.add((rule, key))
            R.bad(rule, fn_where(m, f, f.bmap[b].ins[k]), text, "%s %s" % (f.name, key))
        if n and not probs:
            R.ok("set", "%s: %d reads of locals and new objects" % (fn_where(m, f), n))
    R.need("set", 20)


CHECKS = {"M04": (check_M04, "proof", ["library functions set what they are documented to set"])}
