"""M05: released memory is never used again."""
import ai
import core
from ai import C
from ir import AnalysisBroken
from rules_null import reachable
from util import P, fn_where

FREE = {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv"}
# looks at its argument's value only
VALUE = {"llvm.dbg.value", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0"}
ZERO = ((0, 0),)


def liveness(f):
    """Registers live at the start of each block (phi operands count at the end of their block)."""
    use, deff, phis = {}, {}, {}
    for b in f.blocks:
        u, d = set(), set()
        for I in b.ins:
            if I.op != "phi":
                for o in I.ops:
                    if isinstance(o, tuple) and o and o[0] == "v" and o[1] not in d:
                        u.add(o[1])
            else:
                for o, p in zip(I.ops, I.x):
                    if o[0] == "v":
                        phis.setdefault(p, set()).add(o[1])
            if I.res is not None:
                d.add(I.res)
        use[b.name], deff[b.name] = u, d
    live = {b.name: set() for b in f.blocks}
    again = True
    while again:
        again = False
        for b in reversed(f.blocks):
            out = set(phis.get(b.name, ()))
            for s in b.succs:
                out |= live[s.name]
            # what a phi further down takes over is used at the end of its predecessor
            n = use[b.name] | (out - deff[b.name])
            if n != live[b.name]:
                live[b.name] = n
                again = True
    return live


class Release(ai.Rule):
    retsplit = True

    def __init__(self, m, f, S):
        self.m, self.f, self.S = m, f, S
        self.live = liveness(f)
        self.probs, self.n = {}, 0
        self.frees, self.keeps = set(), set()
        self.ptrs = {P(i): i for i, (r, t) in enumerate(f.params) if t.k == "ptr"}
        self.sites = set()

    def init(self, A, st):
        st.ts = frozenset()      # ("gone", value) ("cell", address) ("held", value)

    def key(self, A, st):
        return st.ts

    # ---------------------------------------------------------------- state
    def gone(self, st, v):
        return ("gone", v) in st.ts

    def base(self, v):
        return ai.split(v)[0]

    def root(self, v):
        """The block an address lies in."""
        for _ in range(20):
            b, k = ai.split(v)
            if b[0] == "op" and b[1] == "add":
                b = b[3]
            if b == v:
                return b
            v = b
        return v

    def bad(self, A, I, what, key):
        if A.reporting:
            self.probs.setdefault((I.bb.name, I.idx, what), key)

    def use(self, A, st, I, v, what):
        if A.reporting:
            self.n += 1
        b = self.root(v)
        if self.gone(st, b):
            self.bad(A, I, "%s is %s after it was released" % (self.show(b), what), "%s %s" % (self.f.name, self.show(b)))
            st.ts = st.ts - {("gone", b)}

    def show(self, b):
        if b[0] == "x" and b[1][0] == "param":
            return "parameter %d" % b[1][1]
        if b[0] == "x" and b[1][0] == "call":
            return "what %s gave" % b[1][3]
        if b[0] == "x" and b[1][0] == "ld":
            a = b[1][1]
            if a[0] == "g":
                return self.gname(a[1])
            p, k = ai.split(a)
            return "a field (+%d) of %s" % (k, self.show(self.root(p))) if p != b else "a field"
        if b[0] == "x" and b[1][0] == "phi":
            n = b[1][2]
            return (self.m.local_name(self.f, n) or n) if isinstance(n, str) else "a local"
        return "a pointer"

    def gname(self, g):
        return self.m.globals[g]["name"].split("E")[-1].lstrip("_0123456789L") if g in self.m.globals else g

    def release(self, A, st, I, v, how):
        """v (a value) is released here."""
        if v == C(0) or v[0] == "undef":
            return
        if v[0] in ("g", "al") or v[0] == "+" and self.base(v)[0] == "x" and self.base(v)[1][0] in ("call", "param") and how == "free":
            if not (v[0] == "+" and self.base(v)[1][0] == "param"):
                self.bad(A, I, "%s releases %s, which was not allocated" % (how, "the inside of a block" if v[0] == "+" else "a variable or constant"), "%s not allocated" % self.f.name)
            return
        if v[0] == "x" and A.iset(st, v) == ZERO:
            return
        if A.reporting:
            self.sites.add((I.bb.name, I.idx))
        once = self.once(A, I, v)
        if once and ("once", v, once) in st.ts:
            return                                     # a loop counter has this value in one round only
        if self.gone(st, v):
            self.bad(A, I, "%s is released twice" % self.show(v), "%s %s twice" % (self.f.name, self.show(v)))
            return
        if ("held", v) in st.ts:
            self.bad(A, I, "%s is released although it was put into an object that lives on" % self.show(v), "%s %s held" % (self.f.name, self.show(v)))
        if v in self.ptrs and A.reporting:
            self.frees.add(self.ptrs[v])
        new = {("gone", v)} | ({("once", v, once)} if once else set())
        # places that still hold it; those inside the block go with it
        if v[0] == "x" and v[1][0] == "ld":
            a = v[1][1]
            if A.load_expr(st, a, 8, 64) == v and self.root(a)[0] != "al" and not self.gone(st, self.root(a)):
                new.add(("cell", a))
        for (b, o), (x, size) in st.mem.items():
            if x == v and size == 8:
                a = ai.add(64, b, o)
                if self.root(a)[0] != "al" and not self.gone(st, self.root(a)):
                    new.add(("cell", a))
        st.ts = frozenset(x for x in st.ts if not (x[0] == "cell" and self.root(x[1]) == v)) | new

    def once(self, A, I, v):
        """The loop counter that equals something the loop does not change wherever this block runs:
        the block runs in one round only, so what it releases was not released in another."""
        f = self.f
        for h, body in A.loops.items():
            if I.bb.name not in body or ai.leaf_blocks(v) & body:
                continue
            for b in body:
                t = f.bmap[b].ins[-1]
                ss = f.bmap[b].succs
                if t.op != "br" or len(ss) != 2 or not t.ops or t.ops[0][0] != "v":
                    continue
                d = f.defs.get(t.ops[0][1])
                if d is None or d.op != "icmp" or d.x not in ("eq", "ne"):
                    continue
                to = ss[0 if d.x == "eq" else 1]
                if sum(1 for x in f.blocks if to in x.succs) != 1 or not (to.name == I.bb.name or dominates(f, to.name, I.bb.name)):
                    continue
                for x, y in (d.ops, d.ops[::-1]):
                    if x[0] == "v" and A.counts(h, ("r", x[1])) and (y[0] in ("c", "g") or y[0] == "v" and (y[1] not in f.defs or f.defs[y[1]].bb.name not in body)):
                        return h, x[1], I.bb.name
        return None

    # ---------------------------------------------------------------- hooks
    def carry(self, st, dst):
        """What a merge takes over that is released, and what is not."""
        add, drop = set(), set()
        for I in self.f.bmap[dst].ins:
            if I.op != "phi":
                break
            if I.ty.k == "ptr":
                v = st.env.get(I.res)
                (add if v is not None and ("gone", v) in st.ts else drop).add(("gone", ("x", ("phi", dst, I.res), 64)))
        for (a, o), (x, size) in st.mem.items():
            if size == 8 and (a[0] in ("g", "al")):
                (add if ("gone", x) in st.ts else drop).add(("gone", ("x", ("phi", dst, ("m", a, o)), 64)))
        return add, drop

    def edge(self, A, st, src, dst):
        if not st.ts:
            return True
        add, drop = (set(), set()) if (src, dst) in A.back else self.carry(st, dst)
        # what nothing names any more
        named = set()
        for r in self.live[dst]:
            v = st.env.get(r)
            if v is not None:
                named.add(self.root(v))
        for I in self.f.bmap[dst].ins:
            if I.op != "phi":
                break
            v = st.env.get(I.res)
            if v is not None:
                named.add(self.root(v))
            named.add(("x", ("phi", dst, I.res), 64))
        for (a, o), (x, size) in st.mem.items():
            if size == 8:
                named.add(self.root(x))
                named.add(("x", ("phi", dst, ("m", a, o)), 64))
        st.ts = frozenset(x for x in (st.ts - drop) | add if x[0] in ("cell", "once") or x[1] in named or x[1] in self.ptrs)
        return True

    def back(self, A, st, src, dst):
        if st.ts:
            add, drop = self.carry(st, dst)
            # what the finished round named is gone with it
            body = A.loops.get(dst, {dst})
            for x in st.ts:
                if x[0] == "cell" and self.root(x[1])[0] == "x" and self.root(x[1])[1][0] in ("ld", "call", "phi") and ai.leaf_blocks(self.root(x[1])) & body and not self.gone(st, self.root(x[1])):
                    I = self.f.bmap[src].ins[-1]
                    self.probs.setdefault((src, I.idx, "field +%d of %s still holds what was released when the next round begins" % (ai.split(x[1])[1], self.show(self.root(x[1])))),
                                          "%s %s round" % (self.f.name, self.show(self.root(x[1]))))
            st.ts = frozenset(x for x in st.ts - drop if x[0] == "once" or not ai.leaf_blocks(x[1]) & body and (x[0] != "cell" or x[1][0] == "g" or ai.split(x[1])[0][0] == "x" and ai.split(x[1])[0] in self.ptrs
                                                                                         and not self.steps(A, dst))) | add

    def steps(self, A, h):
        """The loop walks along pointers."""
        return any(I.op == "phi" and I.ty.k == "ptr" for I in self.f.bmap[h].ins)

    def load(self, A, st, I, addr):
        self.use(A, st, I, addr, "read")
        return None

    def store(self, A, st, I, addr, v):
        self.use(A, st, I, addr, "written")
        if I.ty is not None and I.ty.k == "ptr":
            if ("cell", addr) in st.ts:
                st.ts = st.ts - {("cell", addr)}
            if self.gone(st, v) and self.root(addr)[0] != "al":
                self.bad(A, I, "%s is stored after it was released" % self.show(v), "%s %s stored" % (self.f.name, self.show(v)))
            r = self.root(addr)
            if v[0] == "x" and v[1][0] in ("call", "param", "phi") and r[0] == "x" and r[1][0] == "call" and r[1][3] in ("malloc", "calloc") and r != v:
                st.ts = st.ts | {("held", v)}
                if v in self.ptrs and A.reporting:
                    self.keeps.add(self.ptrs[v])

    def call(self, A, st, I, n, args):
        n = n or ""
        if n in VALUE or n.startswith("llvm.dbg"):
            return None
        leaf = A.callleaf(st, I, n) if I.res is not None else None
        if leaf is not None:
            # a new value of this name
            st.ts = frozenset(x for x in st.ts if x[1] != leaf and not ai_mentions(x[1], leaf))
        if n in FREE:
            self.release(A, st, I, args[0], "free")
            return None
        if n == "realloc":
            s2 = st.copy()
            A.default_call(st, I, n, args)
            A.default_call(s2, I, n, args)
            if leaf is None:
                return [(st, None)]
            self.release(A, st, I, args[0], "realloc")
            A.constrain(st, leaf, ((4096, (1 << 47) - 1),))
            A.constrain(s2, leaf, ZERO)
            return [(st, leaf), (s2, leaf)]
        fr, kp = self.S["frees"].get(n, ()), self.S["keeps"].get(n, ())
        for i, a in enumerate(args):
            if i < len(I.tys) and I.tys[i].k == "ptr" and i not in fr:
                self.use(A, st, I, a, "handed to %s" % n)
        held = set()
        for i in fr:
            if i < len(args) and i not in kp:
                self.release(A, st, I, args[i], n)
            elif i < len(args) and args[i][0] == "x":
                # either kept or released: not ours any more
                if self.gone(st, args[i]):
                    self.bad(A, I, "%s is handed to %s after it was released" % (self.show(args[i]), n), "%s %s" % (self.f.name, self.show(args[i])))
                held.add(args[i])
                if args[i] in self.ptrs and A.reporting:
                    self.frees.add(self.ptrs[args[i]])
        for i in kp:
            if i < len(args) and args[i][0] == "x" and args[i][1][0] in ("call", "param", "phi"):
                held.add(args[i])
                if args[i] in self.ptrs and A.reporting:
                    self.keeps.add(self.ptrs[args[i]])
        # globals the callee sets
        w = self.S["sets"].get(n, ())
        if w:
            st.ts = frozenset(x for x in st.ts if not (x[0] == "cell" and x[1][0] == "g" and x[1][1] in w))
        A.default_call(st, I, n, args)
        if held:
            st.ts = st.ts | {("held", v) for v in held}
        return [(st, leaf)]

    def ret(self, A, st, I, v):
        if v is not None and self.gone(st, v) and A.iset(st, v) != ZERO:
            self.bad(A, I, "%s is returned after it was released" % self.show(v), "%s returns" % self.f.name)
        if self.f.name in self.S["last"]:
            return
        for x in st.ts:
            if x[0] == "cell":
                a = x[1]
                r = self.root(a)
                if self.gone(st, r) or r[0] == "al":
                    continue
                where = self.gname(a[1]) if a[0] == "g" else "field +%d of %s" % (ai.split(a)[1], self.show(r))
                self.bad(A, I, "%s still holds what was released" % where, "%s %s" % (self.f.name, where))


def ai_mentions(e, leaf):
    return any(x == leaf for x in ai.subexprs(e))


def dominates(f, a, b):
    """Every way from the entry to b passes a."""
    seen, todo = {a}, [f.blocks[0]]
    while todo:
        x = todo.pop()
        if x.name in seen:
            continue
        if x.name == b:
            return False
        seen.add(x.name)
        todo += x.succs
    return True


def global_writes(m):
    out = {}
    for f in m.own:
        w = set()
        for I in f.instrs():
            if I.op == "store" and I.ops[1][0] == "g":
                w.add(I.ops[1][1])
        out[f.name] = w
    return out


def byname(m, names):
    """Summaries by the name callee_name gives."""
    out = {}
    for f in m.own:
        if f.name in names and names[f.name]:
            out[f.name] = names[f.name]
    return out


_g = None


def analyse(m, f, S):
    q = Release(m, f, S)
    A = ai.Analysis(m, f, q, max_visits=12000)
    A.run()
    return q


def _run(x):
    m, S = _g
    try:
        q = analyse(m, x, S)
        return x.name, (q.frees, q.keeps, q.probs, q.n, q.sites), None
    except AnalysisBroken as e:
        return x.name, None, repr(e)


def infer(m):
    global _g
    import multiprocessing as mp
    live = reachable(m)
    fs = [f for f in m.own if f.blocks and f.name in live]
    S = {"frees": {}, "keeps": {}, "sets": byname(m, global_writes(m)), "last": {"main"}}
    res = {}
    todo = fs
    for rnd in range(8):
        _g = (m, S)
        names = [f.name for f in todo]
        with mp.Pool(8) as p:
            for n, r, err in p.imap_unordered(_runname, names):
                if r is None:
                    raise AnalysisBroken("%s: %s" % (n, err))
                res[n] = r
        fr = {n: frozenset(r[0]) for n, r in res.items() if r[0]}
        kp = {n: frozenset(r[1]) for n, r in res.items() if r[1]}
        ch = {n for n in set(fr) | set(S["frees"]) if fr.get(n) != S["frees"].get(n)} | {n for n in set(kp) | set(S["keeps"]) if kp.get(n) != S["keeps"].get(n)}
        if not ch:
            break
        S = dict(S, frees=fr, keeps=kp)
        todo = [f for f in fs if any(I.op == "call" and m.callee_name(I) in ch for I in f.instrs())]
    return res, S, fs


def _runname(n):
    m, S = _g
    return _run(next(f for f in m.own if f.name == n))


def check_M05(m, R):
    res, S, fs = infer(m)
    uses = rel = 0
    for f in fs:
        fr, kp, probs, n, sites = res[f.name]
        uses += n
        rel += len(sites)
        R.count("functions", 1)
        for (b, k, what), key in sorted(probs.items()):
            R.bad("release", fn_where(m, f, f.bmap[b].ins[k]), what, key)
        if not probs and (sites or n):
            R.ok("release", "%s: %d release sites; %d uses, none of something released" % (f.name, len(sites), n))
    for n, ps in sorted(S["frees"].items()):
        R.note("%s releases its argument %s" % (n, ", ".join(str(x + 1) for x in sorted(ps))))
    for n, ps in sorted(S["keeps"].items()):
        R.note("%s keeps its argument %s" % (n, ", ".join(str(x + 1) for x in sorted(ps))))
    R.count("release sites", rel)
    R.count("uses of pointers", uses)
    # enough of the program must have been seen for the silence to mean something
    R.need("release", 60)
    if rel < 60 or uses < 1500 or len(S["frees"]) < 5:
        raise AnalysisBroken("only %d release sites, %d uses, %d releasing functions were found" % (rel, uses, len(S["frees"])))


CHECKS = {"M05": (check_M05, "proof", ["library functions release only what free and realloc are given", "values loaded from two places are different values unless the analysis knows better"])}
