"""M03: what a lookup that can fail gives is tested before it is used."""
import ai
from ai import C
from ir import AnalysisBroken
from util import P, fn_where
from rules_init import Shapes

USED = ((4096, (1 << 47) - 1),)  # a pointer to something
ZERO = ((0, 0),)
# library functions that give null when there is nothing to give
FAIL = {"fopen", "fopen64", "fdopen", "tmpfile", "popen", "strchr", "strrchr", "strstr", "strpbrk", "memchr", "strcasestr", "strtok", "strtok_r", "getenv", "getcwd",
        "fgets", "bsearch", "opendir", "readdir", "setlocale", "localtime", "gmtime"}
# library functions that accept null
# globals that stand for "nothing yet"
CELLS = {"last_label", "last_define"}
# access and stat answer EFAULT
TAKES = {"access", "stat", "__gmpz_export", "__gmpz_import", "free", "realloc", "_ZdlPv", "_ZdlPvm", "printf", "getcwd", "time", "fflush", "setbuf", "strtok", "atexit"}
TAKES_AT = {"strtol": (1,), "strtoll": (1,), "strtoul": (1,), "__isoc23_strtol": (1,), "__isoc23_strtoll": (1,), "__isoc23_strtoul": (1,), "fprintf": tuple(range(1, 20)),
            "sprintf": tuple(range(2, 20)), "snprintf": tuple(range(2, 20)), "setvbuf": (1,), "snprintf0": (0,)}


class Null(ai.Rule):
    retsplit = True

    def __init__(self, m, f, shapes, F, null=(), split=True):
        self.null, self.required, self.split = null, set(), split
        self.stuck = F["stuck"]
        self.m, self.f, self.shapes, self.F = m, f, shapes, F
        self.probs, self.n, self.maynull, self.nullargs = [], 0, False, set()
        self.fields, self.cells, self.needs, self.reset = set(), set(), set(), set()
        self.ptrs = [i for i, (r, t) in enumerate(f.params) if t.k == "ptr"]
        self.nullable = F["nullable"].get(f.name, frozenset())
        self.who, self.gets, self.blocks = {}, set(), {f.blocks[0].name}
        self.homes = {}

    def init(self, A, st):
        for i in self.ptrs:
            if i not in self.nullable:
                A.constrain(st, P(i), USED)
            elif i in self.null:
                self.who[P(i)] = "parameter %d" % i
                A.constrain(st, P(i), ZERO)
            else:
                A.constrain(st, P(i), USED)
        self.webs = webs(self.f) if self.split else frozenset()
        st.ts = frozenset()

    def key(self, A, st):
        return st.ts

    def edge(self, A, st, src, dst):
        self.blocks.add(dst)
        # a local in memory that may be null here may be null after the join
        for key, (v, size) in st.mem.items():
            if key[0][0] == "al" and size == 8 and v[0] in ("x", "c") and self.maybe(A, st, v):
                self.homes.setdefault((dst, ("m",) + key), "null" if v[0] == "c" else self.label(v))
        for I in self.f.bmap[dst].ins:
            if I.op != "phi":
                break
            if I.ty.k == "ptr":
                v = st.env.get(I.res)
                if I.res in self.webs and v is not None:
                    s = (v,) if v[0] == "c" else A.iset(st, v)
                    z = v == C(0) if v[0] == "c" else (True if s == ZERO else None if ai.iinter(s, ZERO) else False)
                    st.ts = frozenset(x for x in st.ts if x[0] != I.res) | {(I.res, z)}
                for o, b in zip(I.ops, I.x):
                    if b == src and o == ("null",):
                        self.who.setdefault(("x", ("phi", dst, I.res), 64), "null")
                if v is not None and v[0] == "x" and self.maybe(A, st, v):
                    for b in self.f.blocks:
                        self.who.setdefault(("x", ("phi", b.name, I.res), 64), self.label(v))
        return True

    def known(self, e):
        """Where a value that may be null comes from; None: nothing says that it may."""
        if e in self.who:
            return self.who[e]
        if e[0] == "x" and e[1][0] in ("phi", "memphi") and isinstance(e[1][2], tuple):
            a = e[1][2][1]
            if a[0] == "al":
                return self.homes.get((e[1][1], e[1][2]))
        return None

    def maybe(self, A, st, v):
        """May be null."""
        if v[0] in ("g", "al"):
            return False
        if v[0] == "c":
            return v[1] == 0
        b, o = ai.split(v)
        if b[0] in ("g", "al"):
            return False
        if o and (b[0] != "x" or not ai.iinter(A.iset(st, b), ZERO)):
            return False
        if b[0] == "op" or b[0] == "+":
            xs = [x for x in [b] + list(ai.subexprs(b)) if x[0] == "x" and ai.width(x) == 64 and ai.iinter(A.iset(st, x), ZERO) and x in self.who]
            return bool(xs)
        return bool(ai.iinter(A.iset(st, b if o else v), ZERO)) and self.known(b) is not None

    def use(self, A, st, I, v, what):
        b = ai.split(v)[0]
        if A.reporting:
            self.n += 1
            if self.maybe(A, st, v):
                i = next((i for i in self.null if self.label(b) == "parameter %d" % i), None)
                if i is not None:
                    self.required.add((i, tuple((j, A.iset(st, P(j, t.n))) for j, (r, t) in enumerate(self.f.params) if t.k == "i")))
                else:
                    self.probs.append((I, what, self.label(b)))
        for e in {b, v}:
            if e[0] in ("x", "+"):
                A.constrain(st, e, USED)

    def label(self, b):
        for x in [b] + list(ai.subexprs(b)):
            if self.known(x):
                return self.known(x)
            if x[0] == "x" and x[1][0] == "call":
                return "the result of %s" % x[1][3]
            if x[0] == "x" and x[1][0] == "param":
                return "parameter %d" % x[1][1]
        return "a pointer"

    def load(self, A, st, I, addr):
        self.use(A, st, I, addr, "is read through")
        if I.ty.k != "ptr":
            return None
        e = A.load_expr(st, addr, 8, 64)
        if e[0] not in ("x",):
            return None
        k = self.shapes.reg.get((self.f.name, I.ops[0][1])) if I.ops[0][0] == "v" else None
        b, o = ai.split(addr)
        if k is not None and k[:2] in self.F["fields"]:
            self.who[e] = "%s+%d" % (k[0], k[1])
        elif b[0] == "g" and o == 0 and b[1] in self.F["cells"]:
            self.who[e] = b[1]
        if k is not None and k[:2] in self.stuck and e in self.who:
            # a field that is null only until it is first set stays set
            for x in list(st.cons):
                if x[0] == "x" and x[1][0] == "ld" and x[1][1] == addr and x != e and not ai.iinter(A.iset(st, x), ZERO):
                    A.constrain(st, e, USED)
                    break
        return e

    def store(self, A, st, I, addr, v):
        self.use(A, st, I, addr, "is written through")
        if I.ops[0][0] in ("v", "null") and I.ty.k == "ptr" or I.ops[0][0] == "null":
            if self.maybe(A, st, v):
                k = self.shapes.reg.get((self.f.name, I.ops[1][1])) if I.ops[1][0] == "v" else None
                b, o = ai.split(addr)
                if k is not None:
                    self.fields.add(k[:2])
                    if not self.fresh(I.ops[1]):
                        self.reset.add(k[:2])
                elif b[0] == "g" and b[1] in CELLS:
                    self.cells.add(b[1])

    def call(self, A, st, I, n, args):
        """A local that is null and is handed out to be set may still be null afterwards."""
        g = self.m.fn(n, False) if n else None
        left = []
        if g is not None and g.blocks and g in self.m.own:
            for i, a in enumerate(args):
                b, o = ai.split(a)
                if b[0] == "al" and i < len(g.params) and not sets(g, g.params[i][0]):
                    d = self.f.defs.get(b[1]) if len(b) > 1 else None
                    v = st.mem.get((b, o), (None, 0))
                    if v[0] is not None and v[1] == 8 and self.maybe(A, st, v[0]):
                        left.append((a, n))
        r = self.call_(A, st, I, n, args)
        for a, n in left:
            for s2, v2 in r or [(st, None)]:
                e = A.load_expr(s2, a, 8, 64)
                if e[0] == "x" and e not in self.who:
                    self.who[e] = "what %s leaves" % n
        return r

    def call_(self, A, st, I, n, args):
        m = self.m
        g = m.fn(n, False) if n else None
        own = g is not None and g.blocks and g in m.own
        if own:
            nul = self.F["nullable"].get(g.name, frozenset())
            for i, a in enumerate(args):
                if i < len(g.params) and g.params[i][1].k == "ptr" and i not in nul:
                    if i in self.F["idle"][g.name]:
                        if self.maybe(A, st, a):
                            self.gets.add((g.name, i))
                        continue
                    self.use(A, st, I, a, "is handed to %s, which uses it" % n)
                elif i < len(g.params) and i in nul:
                    for k, cond in self.F["when"].get(g.name, ()):
                        if k == i and self.maybe(A, st, a) and all(ai.iinter((((args[j][1],) * 2),) if args[j][0] == "c" else A.iset(st, args[j]), S) for j, S in cond):
                            s2 = st.copy()
                            for j, S in cond:
                                if args[j][0] != "c":
                                    A.constrain(s2, args[j], S)
                            self.use(A, s2, I, a, "is handed to %s, which uses it" % n)
        elif n and n not in TAKES and not n.startswith("__gmp") and not n.startswith("llvm.") and g is None or n in ("llvm.memcpy.p0.p0.i64", "llvm.memset.p0.i64", "llvm.memmove.p0.p0.i64"):
            for i, a in enumerate(args):
                if i in TAKES_AT.get(n, ()):
                    continue
                o = I.ops[i] if i < len(I.ops) else None
                if self.isptr(o):
                    if n in ("snprintf", "vsnprintf", "fwrite") or n.startswith("llvm.mem") and args[2][0] != "c":
                        if ai.iinter(A.iset(st, args[1] if n in ("snprintf", "vsnprintf") else args[2]), ZERO) and a == C(0):
                            continue
                    self.use(A, st, I, a, "is handed to %s" % n)
        if I.res is None or I.ty.k != "ptr":
            return None
        if own and self.first(n, I):
            A.default_call(st, I, n, args)
            A.constrain(st, A.callleaf(st, I, n), USED)
            return [(st, A.callleaf(st, I, n))]
        fails = self.F["fails"].get(g.name) if own else (frozenset() if n in FAIL else None)
        r = A.default_call(st, I, n, args)
        leaf = A.callleaf(st, I, n)
        if own and fails is None and self.F["nullargs"].get(g.name):
            for i in self.F["nullargs"][g.name]:
                if i < len(args) and self.maybe(A, st, args[i]):
                    fails = self.label(ai.split(args[i])[0])
        if fails is not None:
            self.who[leaf] = fails if fails and isinstance(fails, str) and fails.startswith("param") else "the result of %s" % n
        return [(st, leaf)]

    def first(self, n, I):
        """A literal name is entered into the tables this function has just made: it cannot clash with anything."""
        if n != "add_define":
            return False
        f, m = self.f, self.m
        d = f.defs.get(I.ops[0][1]) if I.ops[0][0] == "v" else None
        if d is None or d.op != "call" or m.callee_name(d) not in ("strdup", "_strdup"):
            return False
        s = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
        if s is not None and s.op == "load" and s.ops[0][0] == "v" and (self.shapes.reg.get((f.name, s.ops[0][1])) or ("", 1))[:2] == ("struct.define", 0):
            return True  # the name of a define that exists
        if m.cstring(d.ops[0]) is None:
            return False
        return any(J.op == "store" and J.ops[1] == ("g", m.resolve_sym("label_table")) and J.ops[0][0] == "v" and f.defs[J.ops[0][1]].op == "call" for J in f.instrs())

    def fresh(self, o):
        """A field of an object this function has just made."""
        d = self.f.defs.get(o[1]) if o[0] == "v" else None
        while d is not None and d.op in ("gep", "bitcast"):
            d = self.f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
        return d is not None and d.op == "call" and self.m.callee_name(d) in ("malloc", "calloc", "_Znwm")

    def isptr(self, o):
        if o is None or o[0] in ("null",):
            return o is not None
        if o[0] != "v":
            return False
        d = self.f.defs.get(o[1])
        if d is not None:
            return d.op in ("alloca", "gep") or d.ty is not None and d.ty.k == "ptr"
        return any(r == o[1] and t.k == "ptr" for r, t in self.f.params)

    def ret(self, A, st, I, v):
        if not A.reporting or v is None or self.f.ret.k != "ptr":
            return
        if self.maybe(A, st, v):
            z = [i for i in self.ptrs if A.iset(st, P(i)) == ZERO]
            if z or v[0] == "x" and v[1][0] == "param":
                self.nullargs.add(z[0] if z else v[1][1])
            else:
                self.maynull = True


def sets(g, r):
    """The function writes through the parameter on every path to a return."""
    hit = {I.bb.name for I in g.instrs() if I.op == "store" and I.ops[1] == ("v", r)}
    seen, work = set(), [g.blocks[0].name]
    while work:
        n = work.pop()
        if n in seen or n in hit:
            continue
        seen.add(n)
        if any(I.op == "ret" for I in g.bmap[n].ins):
            return False
        work += [s.name for s in g.bmap[n].succs]
    return True


def webs(f):
    """Pointers that are null on some way in."""
    ph = [I for I in f.instrs() if I.op == "phi" and I.ty.k == "ptr"]
    out = {I.res for I in ph if ("null",) in I.ops}
    grow = True
    while grow:
        grow = False
        for I in ph:
            if I.res not in out and any(o[0] == "v" and o[1] in out for o in I.ops):
                out.add(I.res)
                grow = True
    return frozenset(out) if len(out) <= 8 else frozenset()


def reachable(m):
    """Functions main can get to, by name (a function whose address is taken counts as called there)."""
    seen, work = set(), [f for f in m.own if f.name == "main"]
    if not work:
        raise AnalysisBroken("main not found")
    for g in m.globals.values():
        work += [m.funcs[o[1]] for o in refs(g.get("init")) if o[1] in m.funcs]
    while work:
        f = work.pop()
        if f.name in seen:
            continue
        seen.add(f.name)
        for I in f.instrs():
            for o in list(I.ops or ()) + [I.x if I.op == "call" else None]:
                if isinstance(o, tuple) and len(o) > 1 and o[0] == "g":
                    g = m.funcs.get(m.resolve_sym(o[1]))
                    if g is not None and g.blocks:
                        work += [h for h in m.byname.get(g.name, [g])]
    return seen


def refs(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "g":
            yield v
        else:
            for x in v:
                yield from refs(x)
    elif isinstance(v, list):
        for x in v:
            yield from refs(x)


def tested(m, f):
    """Parameters that are compared with null, and those that are only kept or passed back."""
    out, idle = set(), set()
    for i, (r, t) in enumerate(f.params):
        if t.k != "ptr":
            continue
        regs, work = {r}, [r]
        while work:
            x = work.pop()
            for I in f.instrs():
                if I.op in ("phi", "select", "bitcast") and I.res not in regs and ("v", x) in [o for o in I.ops if isinstance(o, tuple)]:
                    regs.add(I.res)
                    work.append(I.res)
        # a parameter whose address is taken lives in a local
        homes = {I.ops[1][1] for I in f.instrs() if I.op == "store" and I.ops[0] == ("v", r) and I.ops[1][0] == "v"}
        for I in f.instrs():
            if I.op == "load" and I.ops[0][0] == "v" and I.ops[0][1] in homes:
                regs.add(I.res)
        used = False
        for I in f.instrs():
            if I.op == "icmp" and ("null",) in I.ops and any(o[0] == "v" and o[1] in regs for o in I.ops):
                out.add(i)
            if I.op in ("load", "gep", "call", "store") and any(isinstance(o, tuple) and o[0] == "v" and o[1] in regs and o[1] not in homes
                                                                for o in (I.ops[1:] if I.op == "store" else I.ops)):
                used = True
        if not used:
            idle.add(i)
    return frozenset(out), frozenset(idle - out)


_g = None


def _one(i):
    m, shapes, F = _g
    f = m.own[i]
    q = None
    import itertools
    nul = sorted(F["nullable"][f.name])[:3]
    try:
        for k in range(len(nul) + 1):
            for c in itertools.combinations(nul, k):
                old, q = q, Null(m, f, shapes, F, c)
                ai.Analysis(m, f, q, max_visits=8000).run()
                if old is not None:
                    q.probs = old.probs + [x for x in q.probs if x not in old.probs]
                    q.n += old.n
                    q.maynull |= old.maynull
                    for x in ("nullargs", "fields", "cells", "gets", "required", "reset", "blocks"):
                        getattr(q, x).update(getattr(old, x))
    except AnalysisBroken as e:
        return i, None, str(e)
    return i, ([(I.bb.name, I.idx, w, s) for I, w, s in q.probs], q.n, q.maynull, frozenset(q.nullargs), q.fields, q.cells, q.gets, frozenset(q.required), q.reset, q.blocks), None


def infer(m, verbose=False):
    import multiprocessing as mp
    global _g
    shapes = Shapes(m)
    live = reachable(m)
    own = [i for i, f in enumerate(m.own) if f.blocks and f.name in live]
    F = {"stuck": {("struct.define", 24)}, "when": {}, "fields": set(), "cells": set(), "fails": {}, "nullargs": {}, "nullable": {m.own[i].name: tested(m, m.own[i])[0] for i in own},
         "idle": {m.own[i].name: tested(m, m.own[i])[1] for i in own}}
    calls = {i: {m.callee_name(I) for I in m.own[i].instrs() if I.op == "call"} for i in own}
    todo, last, rounds = list(own), {}, 0
    while todo:
        rounds += 1
        if rounds > 30:
            raise AnalysisBroken("summaries do not settle")
        _g = (m, shapes, F)
        with mp.Pool(8) as p:
            res = p.map(_one, todo, 1)
        changed, world = set(), False
        for i, r, err in res:
            if r is None:
                raise AnalysisBroken("%s: %s" % (m.own[i].name, err))
            last[i] = r
            n = m.own[i].name
            if r[2] and n not in F["fails"]:
                F["fails"][n] = frozenset()
                changed.add(n)
            if r[3] - F["nullargs"].get(n, frozenset()):
                F["nullargs"][n] = F["nullargs"].get(n, frozenset()) | r[3]
                changed.add(n)
            for g, k in r[6]:
                if k not in F["nullable"][g]:
                    F["nullable"][g] = F["nullable"][g] | {k}
                    world = True
            if r[7] - F["when"].get(n, frozenset()):
                F["when"][n] = F["when"].get(n, frozenset()) | r[7]
                changed.add(n)
            if r[8] & F["stuck"]:
                F["stuck"] -= r[8]
                world = True
            if r[4] - F["fields"] or r[5] - F["cells"]:
                F["fields"] |= r[4]
                F["cells"] |= r[5]
                world = True
        todo = own if world else [i for i in own if calls[i] & changed]
        if verbose:
            print(rounds, len(todo), flush=True)
    return shapes, F, last


def check_M03(m, R):
    shapes, F, last = infer(m)
    for i in sorted(last):
        f = m.own[i]
        seen = set()
        for b, k, what, who in last[i][0]:
            if (what, who) in seen:
                continue
            seen.add((what, who))
            R.bad("untested", fn_where(m, f, f.bmap[b].ins[k]), "%s can be null and %s" % (who, what), "%s %s %s" % (f.name, who, what))
        if last[i][1] and not last[i][0]:
            R.ok("tested", "%s: %d uses of pointers" % (fn_where(m, f), last[i][1]))
    reached = sum(len(r[9]) for r in last.values())
    total = sum(len(m.own[i].blocks) for i in last)
    R.count("blocks reached", reached)
    if reached < 0.95 * total:
        raise AnalysisBroken("only %d of %d blocks are reached" % (reached, total))
    R.count("functions that can give null", len(F["fails"]))
    R.note("can give null: " + ", ".join(sorted(F["fails"])))
    R.note("fields that can be null: " + ", ".join("%s+%d" % x for x in sorted(F["fields"])))
    R.note("globals that can be null: " + ", ".join(sorted(F["cells"])))
    R.need("tested", 60)


CHECKS = {"M03": (check_M03, "proof", ["memory suffices", "pointers that are nowhere set to null are not null"])}
