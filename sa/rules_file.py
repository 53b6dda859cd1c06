"""O05, Z05: the life of every file the assembler opens."""
import ai
from ai import C
from ir import AnalysisBroken
from util import fn_where, callers
from rules_out import cstr_of

OPEN = ("fopen", "fopen64", "fdopen", "tmpfile", "popen")
FILEARG = {"fclose": 0, "fputc": 1, "putc": 1, "_IO_putc": 1, "fputs": 1, "fwrite": 3, "fprintf": 0, "vfprintf": 0, "fputs_unlocked": 1, "fwrite_unlocked": 3,
           "fread": 3, "fgetc": 0, "getc": 0, "_IO_getc": 0, "fgets": 2, "ungetc": 1, "fseek": 0, "ftell": 0, "rewind": 0, "ferror": 0, "feof": 0, "fflush": 0,
           "clearerr": 0, "setvbuf": 0, "setbuf": 0, "fileno": 0, "fscanf": 0, "__isoc99_fscanf": 0, "fseeko": 0, "ftello": 0, "pclose": 0}
WRITES = ("fputc", "putc", "_IO_putc", "fputs", "fwrite", "fprintf", "vfprintf")
CLOSE = ("fclose", "pclose")
TELL = ("SetLastSPASMError", "show_error", "show_fatal_error")
PRINT = ("printf", "puts", "putchar", "perror")


def derived(f, reg):
    """Registers that can hold the value of reg."""
    out, work = {reg}, [reg]
    while work:
        r = work.pop()
        for I in f.instrs():
            if I.res is not None and I.res not in out and I.op in ("phi", "select", "bitcast", "freeze") and ("v", r) in [o for o in I.ops if isinstance(o, tuple)]:
                out.add(I.res)
                work.append(I.res)
    return out


class Uses:
    """What own functions do with a file they are given."""

    def __init__(self, m):
        self.m, self.memo = m, {}

    def of(self, f, i):
        """set of 'close', 'write', 'read', 'keep' for parameter i, through calls."""
        k = (f.name, i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        out = set()
        regs = derived(f, f.params[i][0])
        for I in f.instrs():
            if I.op == "store" and I.ops[0][0] == "v" and I.ops[0][1] in regs:
                out.add("keep")
            if I.op == "ret" and I.ops and I.ops[0][0] == "v" and I.ops[0][1] in regs:
                out.add("keep")
            if I.op != "call":
                continue
            n = self.m.callee_name(I)
            for j, o in enumerate(I.ops):
                if not (isinstance(o, tuple) and o[0] == "v" and o[1] in regs):
                    continue
                if n in CLOSE:
                    out.add("close")
                elif n in WRITES:
                    out.add("write")
                elif n in FILEARG:
                    out.add("read")
                else:
                    g = self.m.fn(n, False) if n else None
                    if g is not None and g.blocks and j < len(g.params):
                        out |= self.of(g, j)
                    elif n is None:
                        out.add("keep")
        self.memo[k] = out
        return out


class Life(ai.Rule):
    """ts: ((site, status), ...).  Status of a site: 'open', 'closed', 'none' (opening failed, not told yet), 'told' (failed and told),
    'said' (failed and printed), with for streams that are written: dirty (something was written whose success is not known),
    bad (an operation failed and nothing was told yet)."""

    def __init__(self, m, f, uses, openers):
        self.m, self.f, self.uses, self.openers = m, f, uses, openers
        self.probs, self.sites, self.n, self.returns_fail, self.written = [], {}, 0, set(), set()

    def init(self, A, st):
        st.ts = ()

    def note(self, A, rule, I, text, key):
        if A.reporting:
            self.probs.append((rule, I, text, key))

    def get(self, st, site):
        return dict(st.ts).get(site)

    def put(self, st, site, status):
        d = dict(st.ts)
        d[site] = status
        st.ts = tuple(sorted(d.items()))

    def site_of(self, e):
        if e[0] == "x" and e[1][0] == "call" and e[1][3] in OPEN:
            return (e[1][1], e[1][2])
        return None

    def writes(self, A, st, mode):
        t = cstr_of(self.m, mode)
        if t is not None:
            return any(c in t for c in "wa+")
        S = A.iset(st, A.load_expr(st, mode, 1, 8))
        return not (len(S) == 1 and S[0] == (ord("r"), ord("r")))

    def call(self, A, st, I, n, args):
        if n in OPEN or n in self.openers:
            site = (I.bb.name, I.idx)
            if A.reporting:
                self.sites[site] = I
            wr = n in OPEN and (len(args) < 2 or self.writes(A, st, args[1]))
            if A.reporting and wr:
                self.written.add(site)
            old = self.get(st, site)
            if old is not None and old[0] == "open" and n in OPEN:
                self.note(A, "closed", I, "a file is opened again without having been closed", "leak again")
            A.default_call(st, I, n, args)
            leaf = st.env[I.res]
            out = []
            s = st.copy()
            self.put(s, site, ("none", wr, False, False))
            s.env[I.res] = C(0)
            out.append((s, C(0)))
            s = st
            if A.constrain(s, leaf, ((1, (1 << 63) - 1),)):
                self.put(s, site, ("open" if n in OPEN else "got", wr, False, False))
                out.append((s, leaf))
            return out
        if n in TELL:
            st.ts = tuple((k, ("told",) + v[1:] if v[0] in ("none", "said") else v[:3] + ("told",) if v[3] else v) for k, v in st.ts)
            return None
        if n in PRINT or n in ("fprintf", "fputs") and args and any(a[0] == "x" and a[1][0] == "ld" and any(s[0] == "g" and s[1] in ("stderr", "stdout") for s in ai.subexprs(a[1][1])) for a in args):
            st.ts = tuple((k, ("said",) + v[1:] if v[0] == "none" else v[:3] + ("said",) if v[3] is True else v) for k, v in st.ts)
            return None
        if n in FILEARG:
            k = FILEARG[n]
            a = args[k] if k < len(args) else None
            if a == C(0):
                self.note(A, "tested", I, "%s is given the result of an open that failed" % n, "null " + n)
                return []
        for k, a in enumerate(args):
            site = self.site_of(a)
            s = self.get(st, site) if site is not None else None
            if s is None:
                continue
            what = None
            if n in FILEARG:
                what = {"close"} if n in CLOSE else {"write"} if n in WRITES else {"read"}
            else:
                g = self.m.fn(n, False) if n else None
                what = self.uses.of(g, k) if g is not None and g.blocks and k < len(g.params) else set()
            if A.reporting:
                self.n += 1
            if s[0] == "closed" and what:
                self.note(A, "closed", I, "a file is used after it was closed (%s)" % n, "used " + str(n))
                return []
            if "keep" in what:
                self.put(st, site, ("away",) + s[1:])
                return None
            if n not in FILEARG:
                if "close" in what:
                    self.note(A, "closed", I, "%s closes the file it is given" % n, "close " + n)
                if "write" in what and s[1]:
                    self.put(st, site, s[:2] + (True,) + s[3:])
                return None
            return self.op(A, st, I, n, args, site, s)
        return None

    def op(self, A, st, I, n, args, site, s):
        wr = s[1]
        A.default_call(st, I, n, args)
        leaf = st.env.get(I.res) if I.res is not None else None
        tested = I.res is not None and any(("v", I.res) in [o for o in J.ops if isinstance(o, tuple)] for J in self.f.instrs())
        if n in CLOSE:
            if not wr or not tested:
                self.put(st, site, ("closed", wr, s[2] or wr, s[3]))
                return [(st, leaf)]
            b = st.copy()
            self.put(b, site, ("closed", wr, s[2], s[3] or True))
            self.put(st, site, ("closed", wr, s[2], s[3]))
            return [(x, leaf) for x, S in ((b, ((-1, -1),)), (st, ((0, 0),))) if A.constrain(x, leaf, S)]
        if not wr:
            return [(st, leaf)]
        if n == "ferror":
            if not tested:
                return [(st, leaf)]
            out = []
            b = st.copy()
            if s[2]:
                self.put(b, site, s[:2] + (False, s[3] or True))
                if A.constrain(b, leaf, ((1, 0x7FFFFFFF),)):
                    out.append((b, leaf))
            self.put(st, site, s[:2] + (False,) + s[3:])
            if A.constrain(st, leaf, ((0, 0),)):
                out.append((st, leaf))
            return out
        if n in WRITES or n == "fflush":
            if not tested or n == "fwrite" and not (args[1] == C(1)):
                if n != "fflush":
                    self.put(st, site, s[:2] + (True,) + s[3:])
                return [(st, leaf)]
            good, bad = st, st.copy()
            self.put(bad, site, s[:3] + (s[3] or True,))
            if n == "fwrite":
                e, neg = ai.cmpexpr("eq", 64, leaf, args[2])
                out = []
                for x, t in ((good, True), (bad, False)):
                    for y in A.assume(x, e, t != neg):
                        l, ln = ai.cmpexpr("ult", 64, leaf, args[2])
                        out += [(z, leaf) for z in A.assume(y, l, (not t) != ln)]
            else:
                pos = ((0, 0x7FFFFFFF),)
                out = [(x, leaf) for x, S in ((good, pos), (bad, ((-(1 << 31), -1),))) if A.constrain(x, leaf, S)]
            return out
        return [(st, leaf)]

    def store(self, A, st, I, addr, v):
        site = self.site_of(v)
        if site is not None and self.get(st, site) is not None and addr[0] != "al":
            self.put(st, site, ("away",) + self.get(st, site)[1:])

    def ret(self, A, st, I, v):
        if not A.reporting:
            return
        fails = v is not None and (v == C(0) and self.f.ret.k == "ptr" or v[0] == "c" and v[1] != 0 and self.f.ret.k == "i")
        for site, s in st.ts:
            J = self.sites.get(site) or self.f.bmap[site[0]].ins[site[1]]
            if v is not None and self.site_of(v) == site:
                continue
            if s[0] == "open":
                self.probs.append(("closed", J, "a file can be left open", "open"))
            if s[0] == "none":
                if v == C(0) and self.f.ret.k == "ptr":
                    self.returns_fail.add(site)
                else:
                    self.probs.append(("told", J, "that a file cannot be opened is not reported", "silent"))
            if s[0] == "said" and not fails:
                self.probs.append(("told", J, "that a file cannot be opened does not show in the result", "printed"))
            if s[0] == "closed" and s[1]:
                if s[2] and not s[3]:
                    self.probs.append(("written", J, "whether everything reached the file is not looked at", "unchecked"))
                if s[3] is True or s[3] == "said" and not fails:
                    self.probs.append(("written", J, "that writing failed is not reported", "write silent"))


def life(m):
    r = getattr(m, "_life", None)
    if r is not None:
        return r
    uses = Uses(m)
    openers, done, out = set(), {}, []
    todo = [f for f in m.own if any(I.op == "call" and m.callee_name(I) in OPEN for I in f.instrs())]
    while todo:
        f = todo.pop(0)
        q = Life(m, f, uses, openers)
        q.A = ai.Analysis(m, f, q, max_visits=6000)
        q.A.run()
        done[f.name] = q
        if q.returns_fail and f.name not in openers:
            openers.add(f.name)
            todo += [g for g in {c.name: c for c, I in callers(m, f.name)}.values() if g not in todo]
    m._life = (uses, openers, done)
    return m._life


RULES = {"O05": ("tested", "closed", "told"), "Z05": ("written",)}


def check(pid, m, R):
    uses, openers, done = life(m)
    for name in sorted(done):
        q = done[name]
        seen = set()
        for rule, I, text, key in q.probs:
            k = (rule, key, I.bb.name, I.idx)
            if rule in RULES[pid] and k not in seen:
                seen.add(k)
                R.bad(rule, fn_where(m, q.f, I), text, "%s %s" % (name, key))
        for site, I in sorted(q.sites.items()):
            for rule in RULES[pid]:
                if rule == "written" and site not in q.written:
                    continue
                if not any(p[0] == rule for p in q.probs):
                    R.ok(rule, "%s: the result of %s" % (fn_where(m, q.f, I), m.callee_name(I)))
    for rule in RULES[pid]:
        R.need(rule, 3)


CHECKS = {
    "O05": (lambda m, R: check("O05", m, R), "proof", ["the C library's streams are used through the functions named in the rule"]),
    "Z05": (lambda m, R: check("Z05", m, R), "proof", ["ferror and fclose report every failed write of a stream"]),
}
