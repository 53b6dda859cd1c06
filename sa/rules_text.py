"""M01: text never overruns a fixed-size buffer."""
import multiprocessing as mp
import re
import ai
import rules_table as T
from ai import C
from ir import AnalysisBroken
from rules_image import linear
from rules_init import Shapes
from rules_null import reachable
from util import fn_where

PATH = 4096                    # the system opens no file whose name does not fit in this, with its terminator
OPENED = ("curr_input_file",)  # names a file that was opened
BIG = (1 << 31) - 2
COPIES = {"strcpy", "stpcpy", "strcat", "strncpy", "strncat", "sprintf", "snprintf", "vsprintf", "vsnprintf", "getcwd", "fgets", "gets", "fread", "memcpy", "memmove", "memset",
          "scanf", "sscanf", "fscanf", "realpath", "strlcpy", "strlcat"}
# reads its arguments only
QUIET = {"strlen", "strcmp", "strcasecmp", "strncmp", "strncasecmp", "strchr", "strrchr", "strstr", "strdup", "fopen", "fopen64", "printf", "fprintf", "fputs", "puts", "free",
         "atoi", "strtol", "__isoc23_strtol", "isspace", "isdigit", "memcmp", "strpbrk", "strspn", "strcspn", "fclose", "fwrite", "putchar", "fputc", "access", "fflush", "exit"}


def base_name(n):
    n = n or ""
    for p in ("llvm.memcpy", "llvm.memmove", "llvm.memset"):
        if n.startswith(p):
            return p[5:]
    return {"_getcwd": "getcwd", "_snprintf": "snprintf"}.get(n, n)


def ladd(a, b, k=1):
    if a is None or b is None:
        return None
    d = dict(a[1])
    for x, v in b[1].items():
        d[x] = d.get(x, 0) + k * v
    return a[0] + k * b[0], {x: v for x, v in d.items() if v}


def lin(e):
    """Linear form; an integer that is the low part of a sum counts as that sum."""
    c, t = linear(e)
    out = {}
    for x, k in t.items():
        if not k:
            continue
        y = x
        while y[0] == "cast" and y[1] in ("zext", "sext", "trunc"):
            y = y[3]
        if y[0] in ("al", "g") and y[2]:
            c, y = c + k * y[2], (y[0], y[1], 0)
        if y is not x and y[0] in ("+", "op") and (y[0] == "+" or y[1] in ("add", "sub")):
            c2, t2 = lin(y)
            c += k * c2
            for z, j in t2.items():
                out[z] = out.get(z, 0) + k * j
            continue
        out[y] = out.get(y, 0) + k
    return c, {x: k for x, k in out.items() if k}


def frozen(f):
    return f[0], frozenset(f[1].items())


class Text(T.Bounds):
    def __init__(self, cs, f, shapes, caps):
        T.Bounds.__init__(self, cs, f)
        self.shapes, self.caps = shapes, caps
        self.found, self.heap, self.opened = {}, {}, {}
        self.strmax, self.scan = {}, {}
        self.own_cap, self.undecided, self.unbounded = {}, {}, set()
        self.pidx = {r: i for i, (r, t) in enumerate(f.params)}
        self.web = self.walkers()

    # ------------------------------------------------------------ walking pointers
    def walkers(self):
        """Pointers that step through a parameter or a local array: {register: root operand}; how far they get."""
        f, web = self.f, {}
        again = True
        while again:
            again = False
            for I in f.instrs():
                if I.res is None or I.res in web or I.op not in ("phi", "gep", "select"):
                    continue
                if I.op == "gep" and self.m.norm(I.x).k == "st":
                    continue
                ops = I.ops if I.op == "phi" else I.ops[:1] if I.op == "gep" else I.ops[1:]
                rs = set()
                for o in ops:
                    if o == ("v", I.res):
                        continue
                    if o[0] == "v" and o[1] in web:
                        rs.add(web[o[1]])
                    elif o[0] == "v" and (o[1] in self.pidx and f.params[self.pidx[o[1]]][1].k == "ptr" or self.chars(o)):
                        rs.add(o)
                    elif I.op == "phi" and o[0] == "v" and o[1] in self.defs and self.loopback(I, o):
                        continue
                    else:
                        rs.add(None)
                if len(rs) == 1 and None not in rs:
                    web[I.res] = rs.pop()
                    again = True
        return web

    def loopback(self, phi, o, seen=None):
        """o is made from the phi itself by steps and choices."""
        seen = seen if seen is not None else set()
        if o == ("v", phi.res) or o in seen:
            return True
        seen.add(o)
        d = self.defs.get(o[1]) if o[0] == "v" else None
        if d is None or d.op not in ("phi", "gep", "select"):
            return False
        return all(self.loopback(phi, x, seen) for x in (d.ops if d.op == "phi" else d.ops[:1] if d.op == "gep" else d.ops[1:]))

    def chars(self, o):
        d = self.defs.get(o[1]) if o[0] == "v" else None
        if d is None or d.op != "alloca":
            return None
        t = self.m.norm(d.x) if hasattr(d.x, "k") else self.m.norm(d.ty)
        return t.n if t.k == "arr" and self.m.norm(t.e).k == "i" and self.m.norm(t.e).n == 8 else None

    # ------------------------------------------------------------ places
    def struct_field(self, t, off):
        t = self.m.norm(t)
        if t.k != "st":
            return None
        for e, o in zip(t.e, self.m.offsets(t)):
            e = self.m.norm(e)
            if e.k == "arr" and o <= off < o + self.m.size(e) and self.m.norm(e.e).k == "i" and self.m.norm(e.e).n == 8:
                return o, e.n
        return None

    def place(self, A, st, v, o):
        """(object, size or None, offset as linear form)."""
        c, t = lin(v)
        for x, k in t.items():
            if k != 1:
                continue
            rest = {y: j for y, j in t.items() if y != x}
            if x[0] == "al" or x[0] == "g":
                ty = self.defs[x[1]].x if x[0] == "al" else self.m.globals[x[1]]["type"] if x[1] in self.m.globals else None
                if ty is None:
                    continue
                ty = self.m.norm(ty) if hasattr(ty, "k") else self.m.norm(self.defs[x[1]].ty)
                if ty.k == "arr":
                    e = self.m.norm(ty.e)
                    if e.k == "i" and e.n == 8:
                        return (x, 0), ty.n, (c, rest)
                    return (x, -1), ty.n * self.m.size(e), (c, rest)
                if ty.k == "st":
                    h = self.struct_field(ty, c)
                    if h:
                        return (x, h[0]), h[1], (c - h[0], rest)
                return (x, -1), self.m.size(ty), (c, rest)
            if x in self.heap:
                return ("heap", x), self.heap[x], (c, rest)
        b, k = ai.split(v)
        if o is not None and o[0] == "v":
            # a field of a structure somebody else holds
            I, off = self.defs.get(o[1]), 0
            while I is not None and I.op == "gep":
                ty = self.m.norm(I.x)
                if ty.k == "st" and len(I.ops) >= 3 and I.ops[2][0] == "c":
                    e = self.m.norm(ty.e[I.ops[2][1]])
                    if e.k == "arr" and self.m.norm(e.e).k == "i" and self.m.norm(e.e).n == 8:
                        return (I.x.name or repr(I.x), I.ops[2][1]), e.n, (0, {}) if off is not None and len(I.ops) <= 4 else (0, {v: 1})
                    break
                if ty.k == "arr" and all(q == ("c", 0) for q in I.ops[1:]):
                    I = self.defs.get(I.ops[0][1]) if I.ops[0][0] == "v" else None
                    continue
                break
        if b[0] == "x" and b[1][0] == "param":
            return ("param", b[1][1]), None, (k, {})
        return None, None, None

    def hi(self, A, st, f):
        """Upper bound of a linear form."""
        if f is None:
            return None
        n = f[0]
        for x, k in f[1].items():
            w = ai.width(x)
            r = self.strmax.get(x) if x[0] == "x" and x[1][0] == "strlen" else None
            r = (0, r) if r is not None else T.rng(A, st, x, w)
            if x[0] == "x" and x[1][0] == "strlen" and r is None:
                r = (0, BIG)
            if r is None:
                return None
            n += k * (r[1] if k > 0 else r[0])
        return n

    def room(self, A, st, size, used):
        """size - used >= 0, both linear forms."""
        d = ladd(size, used, -1)
        if d is None:
            return False
        for _ in range(4):
            x = next((x for x, k in d[1].items() if k > 0 and x in self.scan), None)
            if x is None:
                break
            k = d[1][x]
            d = ladd(d, (0, {x: 1}), -k)
            d = ladd(d, self.scan[x], k)
        n = d[0]
        for x, k in d[1].items():
            if k < 0:
                h = self.hi(A, st, (0, {x: 1}))
                if h is None:
                    return False
                n += k * h
            else:
                r = T.rng(A, st, x, ai.width(x))
                n += k * max(0, r[0] if r else 0) if x[0] == "x" and x[1][0] == "strlen" or r and r[0] >= 0 else k * (r[0] if r else -(1 << 62))
        return n >= 0

    # ------------------------------------------------------------ lengths
    def length(self, A, st, v, o, obj, n, off):
        """Length of the string at v, as a linear form (an upper bound)."""
        s = T_cstr(self.m, v)
        if s is not None:
            return (s, {})
        if obj is not None and obj[0] != "param":
            for x in st.ts:
                if x[0] == ("len", obj):
                    f = (x[1][0], dict(x[1][1]))
                    return ladd(f, off, -1) if obj[0] == "heap" else f
            if obj[0] != "heap" and n is not None:
                h = ladd((n - 1, {}), off, -1)
                leaf = self.strlen(v, A, st)
                self.strmax[leaf] = max(0, h[0] if all(k < 0 for k in h[1].values()) else n - 1)
                return (0, {leaf: 1})
        if v[0] == "x" and v[1][0] == "ld" and v[1][1][0] == "g" and v[1][1][1] in OPENED or v in self.opened and not ai.iinter(A.iset(st, self.opened[v]), ((0, 0),)):
            return (PATH - 1, {})
        return (0, {self.strlen(v, A, st): 1})

    def strlen(self, v, A, st):
        """What strlen gives: texts held by a structure do not change between being measured and being copied unless this function writes that field."""
        if v[0] in ("al", "g"):
            e = A.load_expr(st, ai.add(64, v, 1 << 40), 1, 8)
            return ("x", ("strlen", v, e[1][3] if e[0] == "x" and e[1][0] == "ld" else e), 64)
        return ("x", ("strlen", self.bare(v)), 64)

    def bare(self, v):
        """An expression without the versions of what it loads."""
        if isinstance(v, tuple):
            if v and v[0] == "x" and v[1][0] == "ld" and ai.split(v[1][1])[0][0] == "x":
                return ("x", ("ld", self.bare(v[1][1]), v[1][2], "entry"), v[2])
            return tuple(self.bare(y) if isinstance(y, tuple) else y for y in v)
        return v

    def setlen(self, st, obj, f):
        if obj is None:
            return
        self.drop(st, obj)
        if f is not None and obj[0] != "param":
            st.ts = tuple(sorted(st.ts + ((("len", obj), frozen(f)),), key=repr))

    def drop(self, st, obj, kinds=("len", "raw")):
        st.ts = tuple(x for x in st.ts if not (isinstance(x[0], tuple) and len(x[0]) == 2 and x[0][1] == obj and x[0][0] in kinds))

    def verdict(self, A, I, ok, rule, good, bad, key):
        if not A.reporting:
            return
        k = (rule, I.bb.name, I.idx, bad)
        p = self.found.get(k)
        if p is None or p[0] and not ok:
            self.found[k] = (bool(ok), good, bad, key)

    def what(self, obj, n):
        if obj[0] == "heap":
            return "the block it was given"
        if obj[0] == "param":
            return "parameter %d" % obj[1]
        if obj[0][0] in ("al", "g"):
            nm = T.table_name(self.m, self.f, ("v", obj[0][1]) if obj[0][0] == "al" else ("g", obj[0][1])).split(".")[0]
            return "%s[%s]" % (nm, n)
        return "%s field [%s]" % (obj[0].replace("struct.", ""), n)

    def write(self, A, st, I, name, v, o, used):
        """A write of `used` bytes (linear form, None: any number) at v."""
        obj, n, off = self.place(A, st, v, o)
        if obj is not None and name in ("memset", "memcpy", "memmove") and v[0] == "al" and used is not None and not used[1]:
            ty = self.m.norm(self.defs[v[1]].x) if hasattr(self.defs[v[1]].x, "k") else self.m.norm(self.defs[v[1]].ty)
            if ty.k == "st" and used[0] + v[2] <= self.m.size(ty):
                # the structure as a whole
                return (("al", v[1], 0), -1), self.m.size(ty), (v[2], {})
        if obj is None:
            if A.reporting:
                self.undecided[(I.bb.name, I.idx)] = name
            return None, None, None
        if obj[0] == "param":
            h = self.hi(A, st, ladd(used, off)) if used is not None else None
            if A.reporting:
                i = obj[1]
                if h is None or h > 1 << 20:
                    self.unbounded.add((i, I.bb.name, I.idx, name))
                else:
                    self.own_cap[i] = max(self.own_cap.get(i, 0), h)
            return obj, n, off
        key = "%s %s %s" % (self.f.name, name, self.what(obj, n))
        if obj[0] == "heap":
            if n is None:
                if A.reporting:
                    self.undecided[(I.bb.name, I.idx)] = name
                return obj, n, off
            ok = used is not None and self.room(A, st, n, ladd(used, off))
            self.verdict(A, I, ok, "heap", "%s stays within the block allocated for it" % name,
                         "%s can write more into the block than was allocated for it" % name, key)
            return obj, n, off
        h = self.hi(A, st, ladd(used, off)) if used is not None else None
        ok = h is not None and h <= n
        self.verdict(A, I, ok, "copy", "%s writes at most %s bytes into %s" % (name, h, self.what(obj, n)),
                     "%s can write %s bytes into %s" % (name, "any number of" if h is None or h > 1 << 20 else "up to %d" % h, self.what(obj, n)), key)
        return obj, n, off

    def printed(self, A, st, I, fo, at, args):
        """Length of what a format makes, or None."""
        f = self.m.cstring(I.ops[fo]) if I.ops[fo][0] == "g" else None
        if f is None:
            return None
        f = f.decode("latin1").rstrip("\0")
        total = (0, {})
        k = at
        pos = 0
        for mt in re.finditer(r"%([-+ 0#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?([diuxXcs%])", f):
            total = (total[0] + mt.start() - pos, total[1])
            pos = mt.end()
            fl, w, prec, ln, cv = mt.groups()
            if cv == "%":
                total = (total[0] + 1, total[1])
                continue
            if k >= len(args):
                return None
            v, o, ty = args[k], I.ops[k], I.tys[k]
            k += 1
            if cv == "s":
                obj, n, off = self.place(A, st, v, o)
                L = self.length(A, st, v, o, obj, n, off)
                if prec:
                    L = (min(int(prec), self.hi(A, st, L) or BIG), {})
                if w:
                    L = (L[0] + int(w), L[1])
            elif cv == "c":
                L = (max(1, int(w or 0)), {})
            else:
                b = 64 if ln in ("l", "ll", "z") else 32
                r = T.rng(A, st, v, ai.width(v) if v[0] != "c" else b)
                lim = (-(1 << (b - 1)), (1 << (b - 1)) - 1)
                lo, hi = r if r and r[0] >= lim[0] and r[1] <= (1 << b) - 1 else lim
                if cv in "di":
                    n = max(len(str(lo)), len(str(hi)))
                else:
                    if lo < 0:
                        lo, hi = 0, (1 << b) - 1
                    n = len("%d" % hi if cv == "u" else "%x" % hi)
                L = (max(n, int(w or 0), int(prec or 0)) + (2 if "#" in fl else 0), {})
            total = ladd(total, L)
            if total is None:
                return None
        if "%" in re.sub(r"%([-+ 0#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?([diuxXcs%])", "", f):
            return None
        return total[0] + len(f) - pos, total[1]

    # ------------------------------------------------------------ hooks
    def init(self, A, st):
        T.Bounds.init(self, A, st)

    def key(self, A, st):
        return st.ts

    def raw_use(self, A, st, I, v, o, n):
        obj, sz, off = self.place(A, st, v, o)
        if obj is not None and any(x[0] == ("raw", obj) for x in st.ts):
            self.drop(st, obj, ("raw",))
            self.verdict(A, I, False, "copy", "", "%s gets %s, which may lack its terminator" % (n, self.what(obj, sz)), "%s raw %s" % (self.f.name, self.what(obj, sz)))

    def store(self, A, st, I, addr, v):
        if I.ty is None or not (I.ty.k == "i" and I.ty.n == 8):
            return T.Bounds.store(self, A, st, I, addr, v)
        o = I.ops[1]
        obj, n, off = self.place(A, st, addr, o)
        if obj is None or obj[0] in ("param",):
            if o[0] == "v" and o[1] in self.web and self.walk(A, st, I, o, addr):
                return T.Bounds.store(self, A, st, I, addr, v)
        if obj is not None and obj[0] not in ("param", "heap") and obj[1] != -1:
            h = self.hi(A, st, off)
            self.verdict(A, I, h is not None and h < n, "store", "%s is written at index %s at most" % (self.what(obj, n), h),
                         "%s can be written at index %s" % (self.what(obj, n), "anything" if h is None or h > 1 << 20 else h), "%s store %s" % (self.f.name, self.what(obj, n)))
            if v == C(0):
                raw = any(x[0] == ("raw", obj) for x in st.ts)
                if raw:
                    self.setlen(st, obj, (min(h, n - 1), {}) if h is not None else None)
            elif any(x[0] == ("len", obj) for x in st.ts):
                self.drop(st, obj, ("len",))
        elif obj is not None and obj[0] == "heap" and v == C(0) and n is not None and off[1]:
            self.verdict(A, I, self.room(A, st, n, (off[0] + 1, off[1])), "heap", "the terminator is written within the block",
                         "the terminator can be written behind the block", "%s terminator" % self.f.name)
        if obj is not None and obj[0] == "heap" and v == C(0) and not any(x[0] == ("len", obj) for x in st.ts):
            self.setlen(st, obj, off)
        return T.Bounds.store(self, A, st, I, addr, v)

    def walk(self, A, st, I, o, addr):
        """A byte stored through a pointer that steps through a parameter: where it can be at most."""
        root = self.web[o[1]]
        reach = self.reach(root)
        c = 0
        x = o
        d = self.defs.get(x[1])
        base = A.val(st, root, None) if False else st.env.get(root[1])
        if base is None:
            return False
        here = None
        h = apart(A, st, addr, base)
        if h is not None and 0 <= h < 1 << 20:
            here = h
        if A.reporting:
            self.stores.setdefault(root, {})[(I.bb.name, I.idx)] = max(self.stores.get(root, {}).get((I.bb.name, I.idx), -1), here) if here is not None and \
                self.stores.get(root, {}).get((I.bb.name, I.idx), 0) is not None else None
        return True

    def reach(self, root):
        return None

    @property
    def stores(self):
        if not hasattr(self, "_stores"):
            self._stores = {}
        return self._stores

    def steps(self, A):
        """After the run: how far the walking pointers of each root get. Each step forward was seen at a bounded place."""
        out = {}
        for root, sites in self.stores.items():
            out[root] = sites
        return out

    def call(self, A, st, I, n, args):
        b = base_name(n)
        if n in ("malloc", "calloc", "realloc"):
            leaf = A.callleaf(st, I, n)
            if n == "malloc":
                self.heap[leaf] = lin(args[0])
            elif n == "calloc" and args[0][0] == "c" and args[1][0] == "c":
                self.heap[leaf] = (args[0][1] * args[1][1], {})
            else:
                self.heap[leaf] = None
            self.drop(st, ("heap", leaf))
            return T.Bounds.call(self, A, st, I, n, args)
        if n == "strlen":
            A.default_call(st, I, n, args)
            obj, sz, off = self.place(A, st, args[0], I.ops[0])
            L = self.length(A, st, args[0], I.ops[0], obj, sz, off)
            leaf = self.strlen(args[0], A, st)
            h = self.strmax.get(leaf) if L[1] == {leaf: 1} else self.hi(A, st, L)
            A.constrain(st, leaf, ((0, h if h is not None and 0 <= h <= BIG else BIG),))
            return [(st, leaf)]
        if n in ("fopen", "fopen64"):
            A.default_call(st, I, n, args)
            leaf = A.callleaf(st, I, n)
            self.opened[args[0]] = leaf
            return [(st, leaf)]
        if b in COPIES:
            return self.copy(A, st, I, n, b, args)
        if n in self.cs.forward:
            self.scan[A.callleaf(st, I, n)] = lin(args[self.cs.forward[n]])
        caps = self.caps.get(n, {})
        for i, a in enumerate(args):
            if i >= len(I.tys) or I.tys[i].k != "ptr":
                continue
            if I.ops[i] == ("null",) or a == C(0):
                continue
            if i in caps:
                obj, sz, off = self.write(A, st, I, n, a, I.ops[i], (caps[i], {}))
                if obj is not None:
                    self.drop(st, obj)
                continue
            self.raw_use(A, st, I, a, I.ops[i], n)
            if n not in QUIET and a[0] in ("al", "g"):
                obj, sz, off = self.place(A, st, a, I.ops[i])
                if obj is not None and n not in SHRINK:
                    self.drop(st, obj, ("len",))
        if n in SHRINK:
            T.Bounds.call(self, A, st, I, n, args)
            return [(st, None)]
        return T.Bounds.call(self, A, st, I, n, args)

    def copy(self, A, st, I, n, b, args):
        d, do = args[0], I.ops[0]
        keep = None
        one = (1, {})
        if b == "gets":
            self.write(A, st, I, n, d, do, None)
        elif b in ("strcpy", "stpcpy", "strcat", "strncpy", "strncat"):
            so, sn, sf = self.place(A, st, args[1], I.ops[1])
            self.raw_use(A, st, I, args[1], I.ops[1], n)
            L = self.length(A, st, args[1], I.ops[1], so, sn, sf)
            obj, sz, off = self.place(A, st, d, do)
            if b in ("strcpy", "stpcpy"):
                self.write(A, st, I, n, d, do, ladd(L, one))
                keep = ladd(L, off) if obj is not None and obj[0] == "heap" else L
            elif b in ("strcat", "strncat"):
                self.raw_use(A, st, I, d, do, n)
                have = self.length(A, st, d, do, obj, sz, off)
                if b == "strncat":
                    k = lin(args[2])
                    h1, h2 = self.hi(A, st, L), self.hi(A, st, k)
                    if obj is None or obj[0] != "heap":
                        L = (min(h1 if h1 is not None else BIG, h2 if h2 is not None else BIG), {})
                    elif not (h1 is not None and h2 is not None and h1 <= h2 and h1 < BIG):
                        L = k
                if obj is not None and obj[0] == "param":
                    self.write(A, st, I, n, d, do, None)
                else:
                    self.write(A, st, I, n, d, do, ladd(ladd(have, L), one))
                keep = ladd(have, L)
                if obj is not None and obj[0] == "heap":
                    keep = ladd(keep, off)
            else:
                k = lin(args[2])
                self.write(A, st, I, n, d, do, k)
                h, kl = self.hi(A, st, L), self.hi(A, st, k)
                if obj is not None and obj[0] not in ("heap", "param"):
                    zero = any(x[0] == ("zero", obj) for x in st.ts)
                    if h is not None and not k[1] and h < k[0] or zero and kl is not None and kl < sz:
                        keep = (min(h if h is not None else BIG, kl), {})
                    else:
                        self.setlen(st, obj, None)
                        st.ts = tuple(sorted(st.ts + ((("raw", obj), 0),), key=repr))
                        A.default_call(st, I, n, args)
                        return [(st, d)]
            if obj is not None:
                self.setlen(st, obj, keep)
        elif b in ("sprintf", "vsprintf"):
            L = self.printed(A, st, I, 1, 2, args) if b == "sprintf" else None
            obj, sz, off = self.write(A, st, I, n, d, do, ladd(L, one) if L is not None else None)
            h = self.hi(A, st, L) if L is not None else None
            self.setlen(st, obj, (h, {}) if h is not None and obj and obj[0] != "heap" else L)
        elif b in ("snprintf", "vsnprintf", "getcwd", "fgets", "strlcpy", "strlcat"):
            z = 2 if b.startswith("strl") else 1
            obj, sz, off = self.write(A, st, I, n, d, do, lin(args[z]))
            self.setlen(st, obj, None)
        elif b == "realpath":
            obj, sz, off = self.write(A, st, I, n, args[1], I.ops[1], (PATH, {})) if args[1] != C(0) else (None, None, None)
            self.setlen(st, obj, None)
        elif b == "fread":
            if args[1][0] == "c":
                k = lin(args[2])
                k = (k[0] * args[1][1], {x: j * args[1][1] for x, j in k[1].items()})
            else:
                k = None
            obj, sz, off = self.write(A, st, I, n, d, do, k)
            self.setlen(st, obj, None)
        elif b in ("memcpy", "memmove", "memset"):
            obj, sz, off = self.place(A, st, d, do)
            if obj is not None and obj[0] == "param" and b != "memset":
                so = self.place(A, st, args[1], I.ops[1])[0]
                if so == obj:
                    A.default_call(st, I, n, args)
                    return [(st, d)]
            if obj is not None and (obj[0] in ("heap", "param") and self.whole(A, st, obj, sz, args)):
                pass
            elif not (I.op == "call" and n.startswith("llvm.") and obj is not None and obj[0] == "param"):
                obj, sz, off = self.write(A, st, I, b, d, do, lin(args[2]))
            if obj is not None and obj[0] == "heap" and b != "memset":
                so, sn, sf = self.place(A, st, args[1], I.ops[1])
                L = self.length(A, st, args[1], I.ops[1], so, sn, sf)
                k = ladd(lin(args[2]), L, -1)
                # with its terminator
                self.setlen(st, obj, ladd(L, off) if k is not None and not k[1] and k[0] >= 1 else None)
            if obj is not None and obj[0] not in ("heap", "param") and obj[1] != -1:
                self.setlen(st, obj, None)
                if b == "memset" and args[1] == C(0):
                    if args[2][0] == "c" and args[2][1] >= sz:
                        st.ts = tuple(sorted(st.ts + ((("zero", obj), 0),), key=repr)) if not any(x[0] == ("zero", obj) for x in st.ts) else st.ts
                        self.setlen(st, obj, (0, {}))
                elif b != "memset" and T_cstr(self.m, args[1]) is None:
                    st.ts = tuple(sorted(st.ts + ((("raw", obj), 0),), key=repr))
        elif b.endswith("scanf"):
            at = 1 if b == "scanf" else 2
            f = self.m.cstring(I.ops[at - 1]) if I.ops[at - 1][0] == "g" else None
            if f is None or re.search(rb"%[*]?[s\[]", f):
                self.write(A, st, I, n, args[at] if at < len(args) else d, I.ops[at] if at < len(args) else do, None)
        A.default_call(st, I, n, args)
        if I.res is not None and b in ("strcpy", "strcat", "strncpy", "strncat", "memcpy", "memmove", "memset"):
            return [(st, d)]
        return [(st, A.callleaf(st, I, n) if I.res is not None else None)]

    def whole(self, A, st, obj, sz, args):
        return obj[0] == "heap" and sz is not None and frozen(ladd(sz, lin(args[2]), -1)) == (0, frozenset())


# own functions that only shorten the text they get
SHRINK = ()


def apart(A, st, addr, base):
    """How far addr is behind base at most, from what was subtracted or compared; None: unknown."""
    r = T.rng(A, st, ai.binop("sub", 64, addr, base), 64)
    best = r[1] if r is not None else None
    d = ladd(lin(addr), lin(base), -1)
    for e, S in st.cons.items():
        if e[0] == "cast" and e[1] == "trunc" and S and S[-1][1] < 1 << 31:
            k = ladd(d, lin(e[3]), -1)
            if not k[1] and (best is None or S[-1][1] + k[0] < best):
                best = S[-1][1] + k[0]
        if e[0] != "cmp" or e[1] not in ("ult", "slt", "eq") or e[2] != 64 or len(S) != 1 or S[0][0] != S[0][1]:
            continue
        if e[1] == "eq":
            continue
        c = ladd(lin(e[3]), lin(e[4]), -1)
        if S[0][0] & 1:                                  # a - b <= -1
            k = ladd(d, c, -1)
            h = k[0] - 1
        else:                                            # b - a <= 0
            k = ladd(d, c, 1)
            h = k[0]
        if not k[1] and (best is None or h < best):
            best = h
    return best


def T_cstr(m, v):
    b, k = ai.split(v)
    if b[0] != "g" or b[1] not in m.globals or not m.globals[b[1]]["const"]:
        return None
    s = m.cstring(("g", b[1]))
    if s is None:
        return None
    s = s.split(b"\0")[0]
    return max(0, len(s) - k)


def forwarders(m):
    """Functions that give back a place in the text they got, not before it: {name: parameter}."""
    out = {}
    again = True
    while again:
        again = False
        for f in m.own:
            if not f.blocks or f.name in out or f.ret.k != "ptr":
                continue
            i = goes_forward(m, f, out)
            if i is not None:
                out[f.name] = i
                again = True
    return {m.short(n) if hasattr(m, "short") else n: i for n, i in out.items()}


def goes_forward(m, f, out):
    par = {r: i for i, (r, t) in enumerate(f.params) if t.k == "ptr"}
    found, seen = set(), set()

    def walk(o):
        if o in seen:
            return True
        seen.add(o)
        if o == ("null",):
            return True
        if o[0] != "v":
            return False
        if o[1] in par:
            found.add(par[o[1]])
            return True
        d = f.defs[o[1]]
        if d.op == "phi":
            return all(walk(x) for x in d.ops)
        if d.op == "select":
            return all(walk(x) for x in d.ops[1:])
        if d.op == "gep":
            t = m.norm(d.x)
            if t.k != "i" or t.n != 8 or len(d.ops) != 2:
                return False
            k = d.ops[1]
            if k[0] == "c":
                return k[1] >= 0 and walk(d.ops[0])
            e = f.defs.get(k[1])
            ok = e is not None and (e.op == "zext" or e.op == "call" and m.callee_name(e) in ("strlen", "strcspn", "strspn"))
            return ok and walk(d.ops[0])
        if d.op == "call":
            n = m.callee_name(d)
            if n in out:
                return walk(d.ops[out[n]])
        return False
    rets = [I for I in f.instrs() if I.op == "ret"]
    if rets and all(walk(I.ops[0]) for I in rets) and len(found) == 1:
        return found.pop()
    return None


def forward(q):
    """Steps of the walking pointers: {root: [(gep, constant)]}."""
    out = {}
    for r, root in q.web.items():
        I = q.defs[r]
        if I.op == "gep":
            out.setdefault(root, []).append(I)
    return out


def ratio(q, f, root):
    """A copy loop that goes on as long as there is text of a file name: where its pointer is when it ends, at most."""
    m = q.m
    best = None
    A = ai.Analysis(m, f, ai.Rule())
    for r, ro in q.web.items():
        p = q.defs[r]
        if ro != root or p.op != "phi" or p.bb.name not in A.loops:
            continue
        body = A.loops[p.bb.name]
        start = adv = 0
        for o, b in zip(p.ops, p.x):
            if b in body:
                k = steps_from(q, o, p, body)
            else:
                k = steps_from(q, o, root, None)
            if k is None:
                return None
            if b in body:
                adv = max(adv, k)
            else:
                start = max(start, k)
        if not adv:
            continue
        ok = False
        for s in p.bb.ins:
            if s.op != "phi" or s is p or s.ty.k != "ptr" or s.res in q.web:
                continue
            one = all(steps_from(q, o, s, body, True) == 1 for o, b in zip(s.ops, s.x) if b in body)
            src = [q.defs.get(o[1]) for o, b in zip(s.ops, s.x) if b not in body and o[0] == "v"]
            named = src and all(d is not None and d.op == "load" and d.ops[0] in [("g", g) for g in OPENED] for d in src)
            t = p.bb.ins[-1]
            c = q.defs.get(t.ops[0][1]) if t.op == "br" and t.ops and t.ops[0][0] == "v" else None
            if one and named and c is not None and c.op == "icmp" and any(z in (("c", 0), ("null",)) for z in c.ops) and stems(q, c.ops[0], s) and any(x.name not in body for x in p.bb.succs):
                ok = True
        if not ok:
            return None
        end = start + adv * (PATH - 1)
        best = max(best or 0, end)
    return best


def stems(q, o, s):
    """o is the byte s points at."""
    d = q.defs.get(o[1]) if o[0] == "v" else None
    while d is not None and d.op in ("sext", "zext", "trunc"):
        d = q.defs.get(d.ops[0][1])
    return d is not None and d.op == "load" and d.ops[0] == ("v", s.res)


def steps_from(q, o, p, body, exact=False, depth=0):
    """Bytes from p (a phi or an operand) to o at most (exact: on every way)."""
    if depth > 30:
        return None
    goal = ("v", p.res) if hasattr(p, "res") else p
    if o == goal:
        return 0
    d = q.defs.get(o[1]) if o[0] == "v" else None
    if d is None:
        return None
    if d.op == "gep" and all(x[0] == "c" for x in d.ops[1:]):
        k = steps_from(q, d.ops[0], p, body, exact, depth + 1)
        t = q.m.norm(d.x)
        n = d.ops[-1][1]
        return None if k is None or n < 0 and exact else k + n
    if d.op in ("phi", "select") and d.bb.name != (p.bb.name if hasattr(p, "bb") else None):
        ks = [steps_from(q, x, p, body, exact, depth + 1) for x in (d.ops if d.op == "phi" else d.ops[1:])]
        if None in ks or exact and len(set(ks)) > 1:
            return None
        return max(ks)
    return None


def analyse(cs, f, shapes, caps):
    q = Text(cs, f, shapes, caps)
    A = ai.Analysis(cs.m, f, q, max_visits=8000)
    steps = forward(q)
    place = {}
    gep = A.gep

    def seen(st, I):
        if A.reporting and I.res in q.web:
            base = st.env.get(q.web[I.res][1])
            r = None
            if base is not None:
                r = apart(A, st, gep(st, I), base)
            h = r if r is not None and r < 1 << 20 else None
            place[I.res] = h if I.res not in place else None if h is None or place[I.res] is None else max(h, place[I.res])
        return gep(st, I)
    A.gep = seen
    A.run()
    walks = {}
    for root, sites in q.stores.items():
        far = 0
        for I in steps.get(root, ()):
            k = I.ops[-1][1] if I.ops[-1][0] == "c" else None
            if k is not None and k <= 0:
                continue
            h = place.get(I.res)
            far = None if far is None or h is None else max(far, h)
        top = -1
        if far is None and root[1] not in q.pidx:
            e = ratio(q, f, root)
            if e is not None:
                far = e
        for s, here in sites.items():
            I = f.bmap[s[0]].ins[s[1]]
            if here is None and far is not None:
                # not past where its pointer got
                here = far
            top = None if top is None or here is None else max(top, here)
        walks[root] = (top, len(sites))
    return q, walks


_g = None


def _one(name):
    cs, shapes, caps = _g
    try:
        q, walks = analyse(cs, cs.names[name], shapes, caps)
        return name, (q.found, q.own_cap, q.undecided, q.unbounded, {k: v for k, v in walks.items()}), None
    except AnalysisBroken as e:
        return name, None, repr(e)


def check_M01(m, R):
    global _g
    cs, last = T.infer(m)
    shapes = Shapes(m)
    live = reachable(m)
    cs.forward = forwarders(m)
    names = sorted(n for n in last if n in live)
    caps = {}
    res = {}
    todo = names
    for rnd in range(6):
        _g = (cs, shapes, caps)
        with mp.Pool(8) as p:
            for name, r, err in p.map(_one, todo, 1):
                if r is None:
                    raise AnalysisBroken("%s: %s" % (name, err))
                res[name] = r
        new = {}
        for name in names:
            f = cs.names[name]
            c = dict(res[name][1])
            for root, (top, k) in res[name][4].items():
                i = next((i for i, (r, t) in enumerate(f.params) if r == root[1]), None)
                if i is not None and top is not None and top >= 0:
                    c[i] = max(c.get(i, 0), top + 1)
            if c:
                new[name] = c
        if new == caps:
            break
        todo = [n for n in names if any(I.op == "call" and new.get(m.callee_name(I)) != caps.get(m.callee_name(I)) for I in cs.names[n].instrs())]
        caps = new
    # ------------------------------------------------------------ what came out
    rooms = 0
    for name in names:
        f = cs.names[name]
        found, own, und, unb, walks = res[name]
        for (rule, b, k, _), (ok, good, bad, key) in sorted(found.items(), key=repr):
            w = fn_where(m, f, f.bmap[b].ins[k])
            R.check(ok, rule, w, "%s: %s" % (w, good), bad, key)
        for (i, b, k, n) in sorted(unb):
            R.bad("parameter", fn_where(m, f, f.bmap[b].ins[k]), "%s writes any number of bytes into the buffer %s was given" % (n, name), "%s parameter %d" % (name, i))
        for (b, k), n in sorted(und.items()):
            R.note("not decided: %s at %s (a block whose size is kept in a structure)" % (n, fn_where(m, f, f.bmap[b].ins[k])))
        for root, (top, k) in sorted(walks.items()):
            i = next((i for i, (r, t) in enumerate(f.params) if r == root[1]), None)
            w = fn_where(m, f)
            if i is None:
                t = T.table_name(m, f, root).split(".")[0]
                n = next(I for I in f.instrs() if I.res == root[1])
                n = m.norm(n.x if hasattr(n.x, "k") else n.ty).n
                R.check(top is not None and top < n, "walk", w, "%s: a pointer that steps through %s[%d] writes at %s at most" % (w, t, n, top),
                        "a pointer that steps through %s[%d] can write at %s" % (t, n, "any place" if top is None else top), "%s walk %s" % (name, t))
            elif top is not None:
                R.ok("parameter", "%s: at most %d bytes are written into parameter %d" % (w, top + 1, i))
            elif in_place(m, f, root):
                R.note("%s rewrites the text it gets in place, as far as its terminator" % w)
            elif counted(m, f):
                R.note("not decided: %s writes as many bytes as its caller says" % w)
            else:
                R.bad("parameter", w, "%s writes through a parameter with nothing to stop it" % name, "%s parameter %d" % (name, i))
    R.note("%d functions that main reaches; buffers filled by: %s" % (len(names), ", ".join("%s (%d bytes)" % (n, c) for n, d in sorted(caps.items()) for c in d.values())))
    R.need("copy", 40)
    R.need("heap", 8)
    R.need("walk", 1)
    R.need("parameter", 1)


def in_place(m, f, root):
    """Its loops end at the terminator of the same text: a byte at or after the place is compared with nothing."""
    web = {root}
    again = True
    while again:
        again = False
        for I in f.instrs():
            if I.res is not None and ("v", I.res) not in web and I.op in ("phi", "gep") and any(o in web for o in I.ops[:1 if I.op == "gep" else None]):
                if I.op == "gep" and I.ops[-1][0] == "c" and I.ops[-1][1] < 0:
                    continue
                web.add(("v", I.res))
                again = True
    for I in f.instrs():
        if I.op == "load" and I.ops[0] in web:
            for J in f.instrs():
                if J.op == "icmp" and ("c", 0) in J.ops:
                    o = next((o for o in J.ops if o[0] == "v"), None)
                    d = f.defs.get(o[1]) if o else None
                    while d is not None and d.op in ("sext", "zext"):
                        d = f.defs.get(d.ops[0][1])
                    if d is I:
                        return True
    return False


def counted(m, f):
    return any(t.k == "i" and t.n in (32, 64) for r, t in f.params)


CHECKS = {"M01": (check_M01, "proof", ["a file that opens has a name of fewer than %d bytes, and fewer than half of them backslashes" % PATH,
                                       "no text reaches 2^31 bytes", "the text a structure holds is not replaced between being measured and being copied (its own function does not)",
                                       "structures are only accessed with their own type"])}
