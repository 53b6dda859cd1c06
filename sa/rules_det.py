"""O06: what is written depends on the input only: no clock, random number, environment, address or unset byte reaches a file."""
from ir import AnalysisBroken
from util import fn_where

# library functions whose results differ from run to run
SOURCES = {"time", "clock", "gettimeofday", "clock_gettime", "ftime", "_ftime", "times", "getrusage", "localtime", "localtime_r", "gmtime", "gmtime_r", "ctime", "ctime_r",
           "asctime", "strftime", "mktime", "random", "rand_r", "drand48", "lrand48", "mrand48", "arc4random", "getrandom", "getentropy", "getpid", "getppid", "gettid",
           "pthread_self", "getuid", "geteuid", "getgid", "getlogin", "gethostname", "gethostid", "uname", "sysconf", "getenv", "secure_getenv", "tmpnam", "tempnam",
           "mkstemp", "mkdtemp", "mktemp", "tmpfile", "readdir", "scandir", "stat", "fstat", "lstat", "now", "ttyname", "isatty", "mallinfo", "sbrk", "__rdtsc",
           "llvm.readcyclecounter", "llvm.frameaddress.p0", "llvm.returnaddress", "llvm.stacksave"}
# deterministic as long as they are not seeded from outside
SEEDED = {"rand": "srand", "random": "srandom", "drand48": "srand48", "lrand48": "srand48", "mrand48": "srand48"}
SCREEN = {"printf", "puts", "putchar", "vprintf", "_IO_putc", "fflush"}
FILES = {"fputc": (0,), "putc": (0,), "_IO_putc": (0,), "fputs": (0,), "fwrite": (0, 1, 2), "fprintf": None, "vfprintf": None, "fputs_unlocked": (0,), "fwrite_unlocked": (0, 1, 2),
         "write": (1, 2), "exit": (0,), "_exit": (0,), "fopen": (0,), "fopen64": (0,)}
COPY = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "strncat", "sprintf", "snprintf", "vsnprintf", "memset", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64",
        "llvm.memset.p0.i64", "fread", "stpcpy"}
PURE = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "isdigit", "isalpha", "isalnum", "isspace", "toupper", "tolower", "abs", "strtol", "atoi", "free",
        "difftime", "localtime", "gmtime", "ctime", "asctime"}


class Taint:
    """Flow-insensitive: registers, locals, globals, parameters and results that carry a marked value."""

    def __init__(self, m, ptr=False):
        self.m, self.ptr = m, ptr
        self.regs, self.cells, self.globals, self.rets = set(), set(), set(), set()
        self.mem = set()           # (function, register): pointers to memory that holds marked values
        self.heap = []             # marked values that leave for memory not followed
        self.sites = {}
        self.own = {f.name: f for f in m.own}
        self.changed = True

    def root(self, f, o, deep=0):
        """The local, global or parameter an address comes from."""
        if o[0] == "g":
            return o
        if o[0] != "v" or deep > 30:
            return None
        I = f.defs.get(o[1])
        if I is None:
            return ("p", f.name, o[1])
        if I.op == "alloca":
            return ("al", f.name, o[1])
        if I.op in ("gep", "bitcast", "freeze"):
            return self.root(f, I.ops[0], deep + 1)
        return None

    def add(self, s, x):
        if x not in s:
            s.add(x)
            self.changed = True

    def is_(self, f, o):
        return isinstance(o, tuple) and o[0] == "v" and (f.name, o[1]) in self.regs

    def mark(self, f, r):
        self.add(self.regs, (f.name, r))

    def run(self):
        rounds = 0
        while self.changed:
            rounds += 1
            if rounds > 200:
                raise AnalysisBroken("taint does not settle")
            self.changed = False
            for f in self.m.own:
                for I in f.instrs():
                    self.step(f, I)

    def step(self, f, I):
        m = self.m
        t = [o for o in I.ops if self.is_(f, o)] if I.ops else []
        if I.op == "store":
            if self.is_(f, I.ops[0]):
                r = self.root(f, I.ops[1])
                if r is not None and r[0] in ("al", "g", "p"):
                    self.add(self.cells, r)
            return
        if I.op == "load":
            r = self.root(f, I.ops[0])
            if r in self.cells and r is not None:
                self.mark(f, I.res)
            elif not self.ptr and self.is_(f, I.ops[0]):
                self.mark(f, I.res)
            return
        if I.op == "call":
            n = m.callee_name(I)
            g = self.own.get(n)
            if g is not None:
                for (r, ty), o in zip(g.params, I.ops):
                    if self.is_(f, o):
                        self.mark(g, r)
                    p = self.root(f, o) if isinstance(o, tuple) else None
                    if p in self.cells and p is not None and ty.k == "ptr":
                        self.add(self.cells, ("p", g.name, r))
                    if p is not None and ("p", g.name, r) in self.cells and p[0] != "g":
                        self.add(self.cells, p)
                if I.res is not None and n in self.rets:
                    self.mark(f, I.res)
                return
            if t and I.res is not None and n not in ("free",) and (not self.ptr or I.ty.k == "ptr" and n not in ("strdup", "strndup", "realloc", "fopen", "fopen64")):
                self.mark(f, I.res)
            if n in COPY and I.ops:
                srcs = list(I.ops[1:])
                hot = any(self.is_(f, o) or self.root(f, o) in self.cells and self.root(f, o) is not None for o in srcs if isinstance(o, tuple))
                if hot:
                    r = self.root(f, I.ops[0])
                    if r is not None:
                        self.add(self.cells, r)
            return
        if I.op == "ret":
            if t:
                self.add(self.rets, f.name)
            return
        if t and I.res is not None and (not self.ptr or I.ty.k == "ptr" or I.op == "gep"):
            self.mark(f, I.res)


def postdoms(f):
    names = [b.name for b in f.blocks]
    succ = {b.name: [s.name for s in b.succs] for b in f.blocks}
    pd = {n: set(names) for n in names}
    for n in names:
        if not succ[n]:
            pd[n] = {n}
    ch = True
    while ch:
        ch = False
        for n in reversed(names):
            if succ[n]:
                new = {n} | set.intersection(*[pd[s] for s in succ[n]])
                if new != pd[n]:
                    pd[n], ch = new, True
    return succ, pd


def governed(f, b):
    """Blocks that run or not as the branch at the end of b decides."""
    succ, pd = postdoms(f)
    stop = pd[b] - {b}
    out, work = set(), list(succ[b])
    while work:
        n = work.pop()
        if n in out or n in stop:
            continue
        out.add(n)
        work += succ[n]
    return out


def differences(f, r):
    """All uses of an address as a number are differences and comparisons."""
    bad = []
    for J in f.instrs():
        if J.ops and ("v", r) in [o for o in J.ops if isinstance(o, tuple)]:
            if J.op == "icmp":
                continue
            if J.op == "sub" and all(o[0] == "v" and f.defs.get(o[1]) is not None and f.defs[o[1]].op == "ptrtoint" for o in J.ops):
                continue
            bad.append(J)
    return not bad


def check_O06(m, R):
    seeds = [(f, I) for f in m.own for I in f.instrs() if I.op == "call" and m.callee_name(I) in SEEDED.values()]
    unseeded = {n for n in SEEDED if not any(m.callee_name(I) == SEEDED[n] and not (I.ops and I.ops[0][0] == "c") for f, I in seeds)}
    T = Taint(m)
    nsrc = 0
    for f in m.own:
        for I in f.instrs():
            if I.op == "call":
                n = m.callee_name(I)
                if n in SEEDED and n in unseeded:
                    R.ok("source", "%s: %s is never seeded from outside: the same sequence in every run" % (fn_where(m, f, I), n))
                    continue
                if n in SOURCES or n in SEEDED:
                    nsrc += 1
                    if I.res is not None:
                        T.mark(f, I.res)
                    for o in I.ops:
                        r = T.root(f, o) if isinstance(o, tuple) and o[0] in ("v", "g") else None
                        if r is not None:
                            T.add(T.cells, r)
                        elif isinstance(o, tuple) and o[0] == "v" and n not in PURE:
                            pass
            elif I.op == "ptrtoint" and not differences(f, I.res):
                T.mark(f, I.res)
    R.count("sources", nsrc)
    T.run()
    seen = 0
    for f in m.own:
        for I in f.instrs():
            marked = [k for k, o in enumerate(I.ops or ()) if T.is_(f, o) or isinstance(o, tuple) and o[0] in ("v", "g") and I.op == "call"
                      and T.root(f, o) in T.cells and T.root(f, o) is not None]
            if not marked:
                continue
            seen += 1
            if I.op == "call":
                n = m.callee_name(I)
                if n in FILES and (FILES[n] is None and set(marked) - {0} or FILES[n] is not None and set(marked) & set(FILES[n])):
                    R.bad("reaches", fn_where(m, f, I), "a value that differs from run to run is given to %s" % n, "%s %s" % (f.name, n))
                    continue
            if I.op == "store" and marked == [0] and T.root(f, I.ops[1]) is None:
                R.bad("reaches", fn_where(m, f, I), "a value that differs from run to run is stored in memory that outlives the function", "%s store" % f.name)
                continue
            if I.op in ("br", "switch"):
                bad = None
                for b in sorted(governed(f, I.bb.name)):
                    for J in f.bmap[b].ins:
                        if J.op == "store":
                            r = T.root(f, J.ops[1])
                            if r is None or r[0] != "al":
                                bad = bad or J
                        if J.op == "call":
                            n = m.callee_name(J)
                            if n not in SCREEN and n not in PURE and not (n or "").startswith("llvm.lifetime"):
                                bad = bad or J
                        if J.op == "ret" and f.ret.k != "void":
                            bad = bad or J
                if bad is not None:
                    R.bad("decides", fn_where(m, f, I), "a value that differs from run to run decides whether %s" % fn_where(m, f, bad), "%s branch" % f.name)
                    continue
            if I.op == "ret" and f.name == "main":
                R.bad("reaches", fn_where(m, f, I), "the exit status differs from run to run", "main status")
                continue
            R.ok("flow", "%s: %s of a value that differs from run to run stays on the screen" % (fn_where(m, f, I), I.op))
    # addresses in texts and orders
    n = 0
    for f in m.own:
        for I in f.instrs():
            if I.op != "call":
                continue
            c = m.callee_name(I)
            if c in ("fprintf", "sprintf", "snprintf", "vsnprintf", "vfprintf", "SetLastSPASMError", "show_error"):
                for o in I.ops:
                    s = m.cstring(o) if isinstance(o, tuple) and o[0] == "g" else None
                    if s is not None:
                        n += 1
                        R.check(b"%p" not in s, "address", fn_where(m, f, I), "no address in the text", "an address is written", "%s %%p" % f.name)
    bad = sorted(x for x in m.funcs if "St4lessIP" in x or "St4hashIP" in x)
    R.check(not bad, "address", "program", "no container ordered by address", "a container is ordered by address: %s" % ", ".join(bad)[:120], "ordered by address")
    # what files are written from starts out as zeros
    blocks(m, R)
    short(m, R)
    R.need("zeroed", 2)
    R.need("short", 3)
    R.need("source", 1)


def blocks(m, R):
    """Blocks of memory whose bytes are written to files."""
    for f in m.own:
        for I in f.instrs():
            if I.op != "call" or m.callee_name(I) not in ("malloc", "calloc", "realloc", "_Znam", "_Znwm"):
                continue
            T = Taint(m, ptr=True)
            T.mark(f, I.res)
            T.run()
            hit = None
            for g in m.own:
                bytes_ = {J.res for J in g.instrs() if J.op == "load" and T.is_(g, J.ops[0]) and J.ty.k == "i" and J.ty.n == 8}
                cells = set()
                grow = bool(bytes_)
                while grow:
                    grow = False
                    for J in g.instrs():
                        if J.op == "store" and J.ops[0][0] == "v" and J.ops[0][1] in bytes_:
                            r = T.root(g, J.ops[1])
                            if r is not None and r[0] == "al" and r not in cells:
                                cells.add(r)
                                grow = True
                        if J.op == "load" and J.res not in bytes_ and T.root(g, J.ops[0]) in cells:
                            bytes_.add(J.res)
                            grow = True
                        if J.res is not None and J.res not in bytes_ and J.op in ("zext", "sext", "trunc", "phi", "select", "and", "or", "add", "lshr", "ashr", "gep", "load") and any(
                                isinstance(o, tuple) and o[0] == "v" and o[1] in bytes_ for o in J.ops):
                            bytes_.add(J.res)
                            grow = True
                for J in g.instrs():
                    if J.op == "call" and m.callee_name(J) in FILES:
                        n = m.callee_name(J)
                        if n in ("fopen", "exit", "fopen64", "_exit"):
                            continue
                        for k, o in enumerate(J.ops):
                            if isinstance(o, tuple) and o[0] == "v" and (o[1] in bytes_ or T.root(g, o) in cells or k == 0 and n == "fwrite" and T.is_(g, o) or k == 1 and n == "write" and T.is_(g, o)):
                                hit = hit or (g, J)
            if hit is None:
                continue
            c = m.callee_name(I)
            where = fn_where(m, f, I)
            if c == "calloc":
                R.ok("zeroed", "%s: the block written by %s is allocated zeroed" % (where, fn_where(m, *hit)))
                continue
            ok = any(J.op == "call" and m.callee_name(J) in ("llvm.memset.p0.i64", "memset") and T.is_(f, J.ops[0]) and same(f, J.ops[2], I.ops[-1])
                     and (J.bb.name == I.bb.name and J.idx > I.idx or m_dominates(f, I.bb.name, J.bb.name)) for J in f.instrs())
            R.check(ok, "zeroed", where, "the block is cleared as a whole", "the block written by %s is not cleared: bytes nothing sets differ from run to run" % fn_where(m, *hit),
                    "%s block" % f.name)


def short(m, R):
    """A file that ends early leaves no stale bytes behind: the count read is looked at, or the block was cleared."""
    for f in m.own:
        for I in f.instrs():
            if I.op != "call" or m.callee_name(I) not in ("fread", "fread_unlocked"):
                continue
            where = fn_where(m, f, I)
            seen, work, tested = set(), [I.res], False
            while work:
                r = work.pop()
                if r is None or r in seen:
                    continue
                seen.add(r)
                for J in f.instrs():
                    if not any(o == ("v", r) for o in J.ops or ()):
                        continue
                    if J.op in ("icmp", "switch", "ret"):
                        tested = True
                    elif J.op == "store" and J.ops[0] == ("v", r):
                        root = J.ops[1]
                        work += [K.res for K in f.instrs() if K.op == "load" and K.ops[0] == root]
                    elif J.res is not None and J.op != "load":
                        work.append(J.res)
            if tested:
                R.ok("short", "%s: what was read is counted" % where)
                continue
            R.check(cleared(m, f, I.ops[0]), "short", where, "the block read into was cleared before", "a short file leaves bytes nothing has set", "%s fread" % f.name)


def cleared(m, f, o, deep=0):
    I = f.defs.get(o[1]) if o[0] == "v" else None
    if I is None or deep > 20:
        return False
    if I.op == "call":
        return m.callee_name(I) == "calloc"
    if I.op in ("gep", "bitcast"):
        return cleared(m, f, I.ops[0], deep + 1)
    if I.op in ("phi", "select"):
        src = [x for x in I.ops if isinstance(x, tuple) and x[0] == "v"]
        return bool(src) and all(x == ("v", I.res) or cleared(m, f, x, deep + 1) for x in src)
    if I.op == "load":
        st = [J for J in f.instrs() if J.op == "store" and J.ops[1] == I.ops[0]]
        return bool(st) and all(J.ops[0][0] == "null" or cleared(m, f, J.ops[0], deep + 1) for J in st)
    return False


def same(f, a, b):
    if a == b:
        return True
    A, B = (f.defs.get(x[1]) if x[0] == "v" else None for x in (a, b))
    return A is not None and B is not None and A.op == B.op and len(A.ops) == len(B.ops) and (A.op != "load" or True) and A.op in ("load", "add", "mul", "zext", "sext", "trunc") \
        and all(isinstance(x, tuple) and isinstance(y, tuple) and same(f, x, y) for x, y in zip(A.ops, B.ops))


def m_dominates(f, a, b):
    """Every path from the entry to b passes a (b is reached right after a in practice)."""
    seen, work = set(), [f.blocks[0].name]
    if f.blocks[0].name == a:
        return True
    succ = {x.name: [s.name for s in x.succs] for x in f.blocks}
    while work:
        n = work.pop()
        if n in seen or n == a:
            continue
        seen.add(n)
        work += succ[n]
    return b not in seen


CHECKS = {"O06": (check_O06, "proof", ["library functions outside the list of sources are deterministic", "the same command line, files and working directory"])}
