"""O: what is written to the output files."""
import ai
import bits
import core
from ai import C
from util import G, P, fn_where
from rules_ctl import codes
from rules_expr import const_at

MAXIMAGE = 8000000



def lf(n):
    return (n & 0xFFFFFFFF, frozenset())


def lrange(A, st, f):
    """(lo, hi) of a linear form mod 2^32, or None."""
    c, t = f
    if c >= 1 << 31:
        c -= 1 << 32
    lo = hi = c
    for b, k in t:
        leaf = ai.lleaf(b)
        if leaf is None:
            return None
        S = A.iset(st, leaf)
        if not S:
            return None
        if k >= 1 << 31:
            k -= 1 << 32
        a, z = S[0][0] * k, S[-1][1] * k
        lo, hi = lo + min(a, z), hi + max(a, z)
    return lo, hi


def subst(f, leaf, e, n=32):
    """Linear form f with a leaf replaced by another form."""
    c, t = f
    for b, k in t:
        if ai.lleaf(b) == leaf:
            return ai.ladd(ai.ladd(f, ai.lform(leaf, n), -k, n), reduced(e, n), k, n)
    return f


class Counted(ai.Rule):
    """A loop whose counter starts at most at its bound, goes up by one per round and leaves when it has reached the
    bound leaves with the counter equal to the bound."""

    def loops_of(self, A, src, dst):
        return [h for h, body in A.loops.items() if src in body and dst not in body]

    def steps_by_one(self, A, h, I):
        ini = []
        for o, b in zip(I.ops, I.x):
            if b in A.loops[h]:
                d = A.fn.defs.get(o[1]) if o[0] == "v" else None
                if d is None or d.op not in ("add", "gep") or sorted(d.ops, key=str) != sorted([("v", I.res), ("c", 1)], key=str):
                    return None
            else:
                ini.append(o)
        return ini

    def starts_below(self, A, st, ini, off, B):
        """The counter's first value plus off is at most B."""
        for o in ini:
            if o[0] == "c":
                lo = A.iset(st, B)
                if not lo or o[1] + off > lo[0][0]:
                    return False
                continue
            r = lrange(A, st, A.lfold(st, ai.ladd(ai.ladd(ai.lform(B), ai.lform(A.val(st, o)), -1), lf(off), -1)))
            if r is None or r[0] < 0 or r[1] >= 1 << 31:
                return False
        return True

    def edge(self, A, st, src, dst):
        # a value known in full gives the parameter it is computed from
        T = A.fn.bmap[src].ins[-1]
        if T.op == "br" and T.ops and T.ops[0][0] == "v":
            d = A.fn.defs.get(T.ops[0][1])
            if d is not None and d.op == "icmp":
                for o in d.ops:
                    e = A.val(st, o)
                    S = A.iset(st, e)
                    if e[0] == "op" and S and len(S) == 1 and S[0][0] == S[0][1]:
                        c, t = value_form(A, st, e, False)
                        if len(t) == 1:
                            (b, k), = t
                            leaf = ai.lleaf(b)
                            if k == 1 and leaf is not None and leaf[1][0] == "param":
                                v = S[0][0] - c
                                if not A.constrain(st, leaf, ((v, v),)):
                                    return False
        for h in self.loops_of(A, src, dst):
            for I in A.fn.bmap[h].ins:
                if I.op != "phi":
                    break
                if I.ty.k not in ("i", "ptr") or I.res not in st.env:
                    continue
                ini = self.steps_by_one(A, h, I)
                L = st.env[I.res]
                for e in list(st.cons):
                    if e[0] != "cmp" or e[1] not in ("slt", "ult", "sge", "uge", "sgt", "ugt", "sle", "ule", "eq", "ne"):
                        continue
                    off = None
                    for a, b in ((e[3], e[4]), (e[4], e[3])):
                        d = ai.ladd(ai.lform(a), ai.lform(L), -1)
                        if a[0] != "c" and not d[1] and (a == L or d[0] in (1, 0xFFFFFFFF)):
                            off, X, B = d[0] - (1 << 32 if d[0] >> 31 else 0), a, b
                            break
                    if off is None or L[0] == "c" or ai.leaf_blocks(B) & A.loops[h] or B[0] == "c" and off == 0 and L == X:
                        continue
                    w = ai.width(L)
                    if e[1] in ("eq", "ne"):
                        if (e[1] == "eq") != (st.cons[e] == ((1, 1),)) or st.cons[e] not in (((0, 0),), ((1, 1),)):
                            continue
                    elif ini is None:
                        continue
                    lt = 0 if e[1] in ("eq", "ne") else A.decide(st, ("cmp", "slt", w, X, B)) if "s" == e[1][0] else A.decide(st, ("cmp", "ult", w, X, B))
                    if lt is None or lt:
                        continue
                    if e[1] not in ("eq", "ne") and not self.starts_below(A, st, ini, off, B):
                        continue
                    end = ai.ladd(value_form(A, st, B), lf(off), -1)
                    for g, f in list(st.gh.items()):
                        if f is not None:
                            st.gh[g] = subst(f, L, end, A.gmod(g))
                    for r, e2 in list(st.env.items()):
                        if e2 in (L, X):
                            st.env[r] = ai.add(w, B, -off) if e2 == L else B
                    for k2, (e2, sz) in list(st.mem.items()):
                        if e2 in (L, X):
                            st.mem[k2] = (ai.add(w, B, -off) if e2 == L else B, sz)
                    break
        return True


class Stream(Counted):
    """The bytes a function writes to its file: where each of them stands, and their sum from a given place on."""
    gmods = {"sum": 16}

    def __init__(self, m, f, pin=None, fileparam=None, sumfrom=1 << 30, rng=None, modeval=None):
        self.m, self.f, self.pin, self.sumfrom, self.rng, self.modeval = m, f, pin or {}, sumfrom, rng or {}, modeval
        self.fileparam = fileparam
        self.limit = ()
        self.recs, self.ends, self.other, self.vague, self.bulk = [], [], [], [], []

    def init(self, A, st):
        st.ts = False       # whether the limit was reported
        st.gh = {"pos": ai.L0, "sum": ai.L0}
        for i, v in self.pin.items():
            st.env[self.f.params[i][0]] = C(v)
        for i, S in self.rng.items():
            A.constrain(st, P(i, 32), S)

    def load(self, A, st, I, addr):
        if addr == G("mode") and self.modeval is not None:
            return C(self.modeval)
        if addr[0] == "g":
            v = const_at(self.m, addr[1], addr[2], self.m.size(I.ty))
            if v is not None and v[0] == "c":
                return C(v[1])
        return None

    def is_file(self, A, st, e):
        return e == P(self.fileparam)

    def put(self, A, st, I, v):
        v8 = zext8(v)
        pos = A.ghost_value(st, "pos")
        r = lrange(A, st, pos) if pos is not None else None
        if pos is None or r is None:
            if A.reporting:
                self.vague.append((I, "the place of this byte in the file is not determined"))
        if A.reporting:
            self.recs.append((pos, r, v, I, st.copy(), A))
        if r is not None and r[0] >= self.sumfrom:
            A.ghost_add(st, "sum", v8)
        elif r is not None and r[1] >= self.sumfrom and A.reporting:
            self.vague.append((I, "it is not determined whether this byte belongs to the data section"))
        A.ghost_add(st, "pos", C(1))
        return v8

    def call(self, A, st, I, n, args):
        if n in ("SetLastSPASMWarning", "SetLastSPASMError") and args[0] in self.limit:
            st.ts = True
        if n == "strlen":
            # the same text has the same length
            e = ("x", ("strlen", args[0], A.load_expr(st, ai.add(64, args[0], 1 << 40), 1, 8)[1][3]), 64)
            A.constrain(st, e, ((0, (1 << 31) - 1),))
            return [(st, e)]
        if n in ("fputc", "putc", "_IO_putc", "fputc_unlocked", "putc_unlocked") and self.is_file(A, st, args[1]):
            v8 = self.put(A, st, I, args[0])
            if I.res is not None:
                return [(st, v8)]
            return [(st, None)]
        if n == "fwrite" and self.is_file(A, st, args[3]):
            k = args[1], args[2]
            if args[1] == C(1):
                n = args[2]
            elif args[2] == C(1):
                n = args[1]
            else:
                n = None
            if n is not None and n[0] == "c" and 0 <= n[1] <= 64:
                for i in range(n[1]):
                    a = ai.add(64, args[0], i)
                    v = None
                    if a[0] == "g":
                        c = const_at(self.m, a[1], a[2], 1)
                        v = C(c[1]) if c is not None and c[0] == "c" else None
                    if v is None:
                        v = A.load_expr(st, a, 1, 8)
                    self.put(A, st, I, v)
                return [(st, C(n[1]))]
            if A.reporting:
                (self.other if n is None else self.bulk).append(("fwrite", I, args, A.ghost_value(st, "pos"), st.copy(), A))
            if n is not None:
                A.ghost_add(st, "pos", n)
            else:
                st.gh["pos"] = None
            st.gh["sum"] = None
            return None
        if n == "sprintf" and len(args) == 3 and cstr_of(self.m, args[1]) in ("%02X", "%02x", "%.2X"):
            x = args[2]
            A.default_call(st, I, n, args)
            for k in (0, 1):
                A.store_expr(st, ai.add(64, args[0], k), 1, ("x", ("hex", x, k), 8), (I.bb.name, I.idx))
            return [(st, st.env.get(I.res) if I.res else None)]
        if any(self.is_file(A, st, a) for a in args):
            if A.reporting:
                self.other.append((n, I, args, A.ghost_value(st, "pos"), st.copy(), A))
        return None

    def ret(self, A, st, I, v):
        if A.reporting:
            self.ends.append((A.ghost_value(st, "pos"), A.ghost_value(st, "sum"), I, st.copy()))


def zext8(v):
    w = ai.width(v) if v[0] != "c" else 32
    return ai.cast("zext", 32, ai.cast("trunc", 8, v, w) if w > 8 else v, 8)


def cstr_of(m, a):
    b, o = ai.split(a)
    if b[0] != "g":
        return None
    r = ""
    while True:
        c = const_at(m, b[1], o + len(r), 1)
        if c is None or c[0] != "c":
            break
        if c[1] == 0:
            return r
        r += chr(c[1] & 0xFF)
    s = m.cstring(("g", b[1]))
    return s[o:].decode("latin-1") if s is not None else None


def reduced(f, n):
    m = (1 << n) - 1
    d = {}
    for b, k in f[1]:
        d[b[:n]] = (d.get(b[:n], 0) + k) & m
    return f[0] & m, frozenset((b, k) for b, k in d.items() if k)


def folded(A, st, f):
    return A.lfold(st, f)


def value_form(A, st, e, fold=True):
    """Linear form of e; halving an even number halves its form."""
    e = A.fold(st, e) if fold else e
    if e[0] == "op" and e[1] in ("ashr", "lshr", "sdiv", "udiv") and e[4][0] == "c":
        k = 1 << e[4][1] if e[1] in ("ashr", "lshr") else e[4][1]
        f = value_form(A, st, e[3], fold)
        r = lrange(A, st, f)
        if r is not None and 0 <= r[0] and r[1] < 1 << 31 and k > 0:
            c, t = f
            if c % k == 0 and all(q < 1 << 31 and q % k == 0 for b, q in t):
                return c // k, frozenset((b, q // k) for b, q in t)
    return folded(A, st, ai.lform(e)) if fold else ai.lform(e)


def word_is(A, st, lo, hi, want, n=16):
    """The bytes lo, hi are the low and the next byte of a number equal to want modulo 2^16."""
    bl, bh = bits.mk(lo, 32)[:8], bits.mk(hi, 32)[:8]
    want = reduced(want, 16)
    if not want[1]:
        return bl == bits.mk(C(want[0]), 32)[:8] and bh == bits.mk(C(want[0] >> 8), 32)[:8]
    cand = [hi] + list(ai.subexprs(hi))
    for X in cand:
        if X[0] == "c" or ai.width(X) not in (32, 64):
            continue
        b = bits.mk(X, 32)
        if b[:8] == bl and b[8:16] == bh and reduced(value_form(A, st, X), 16) == want:
            return True
    return False


# extension -> (signature, first byte of the data section (None: computed), layout)
PROGRAMS = {
    "73P": (0, b"**TI73**\x1a\x0a\x00", 0x0B, "plain"), "82P": (1, b"**TI82**\x1a\x0a\x00", 0x0B, "plain"),
    "83P": (2, b"**TI83**\x1a\x0a\x00", 0x0B, "plain"), "8XP": (3, b"**TI83F*\x1a\x0a\x00", 0x0D, "plus"),
    "8XV": (4, b"**TI83F*\x1a\x0a\x00", 0x0D, "plus"), "85P": (5, b"**TI85**\x1a\x0c\x00", None, "named"),
    "86P": (6, b"**TI86**\x1a\x0a\x00", 0x0C, "padded"), "85S": (7, b"**TI85**\x1a\x0c\x00", None, "named"),
    "86S": (8, b"**TI86**\x1a\x0a\x00", 0x0C, "padded"),
}
TYPES = {"73P": 6, "82P": 6, "83P": 6, "8XP": 6, "8XV": 0x15, "85P": 0x12, "86P": 0x12, "85S": 0x0C, "86S": 0x0C}
BEFORE = {"82P": (0xD5, 0x00, 0x11), "86P": (0x8E, 0x28)}
TRAILER = {"83P": b"?\xd4?0000?\xd4"}
FIRST = 55      # where the data section begins


def program(m, k, ez=0):
    f = m.fn("makeprgm")
    q = Stream(m, f, pin={4: k}, fileparam=2, sumfrom=FIRST, rng={1: ((0, MAXIMAGE),)})
    q.limit = tuple(C(v) for v, n in codes(m).items() if n == "SPASM_WARN_SIGNER_FILE_SIZE_64KB")
    q.A = ai.Analysis(m, f, q, max_visits=4000)
    q.A.run()
    return f, q


def at(q, form):
    return [r for r in q.recs if r[0] == form]


def program_file(m, R, ext):
    k, sig, first, layout = PROGRAMS[ext]
    f, q = program(m, k)
    w0 = fn_where(m, f)
    for I, text in q.vague[:2]:
        R.bad("length", fn_where(m, f, I), "%s: %s" % (ext, text), ext + " place")
    if not q.ends or any(p is None for p, s, I, st in q.ends):
        R.bad("length", w0, "%s: the length of the file is not determined" % ext, ext + " end")
        return
    for end, total, I, st in q.ends:
        A = q.A
        # the data section: everything but header and checksum
        want = ai.ladd(end, lf(FIRST + 2), -1)
        word(R, q, "length", ext, "data section length", lf(FIRST - 2), want)
        for a in at(q, lf(FIRST - 2)):
            r = lrange(a[5], a[4], want)
            S = [bits.range_of(a[5], a[4], X) for X in list(ai.subexprs(a[2])) if X[0] != "c" and ai.width(X) == 32
                 and reduced(value_form(a[5], a[4], X), 16) == reduced(want, 16)]
            R.check(a[4].ts or any(s and s[-1][1] <= 0xFFFF for s in S), "length", fn_where(m, f, a[3]),
                    "%s: a data section over 65535 bytes is reported" % ext, "%s: a data section over 65535 bytes is not reported" % ext, ext + " limit")
        # the variable: behind its second length
        if layout == "named":
            nl = at(q, lf(FIRST + 5))
            name = value_form(A, nl[0][4], nl[0][2]) if nl else lf(0)
            r = lrange(A, nl[0][4], name) if nl else None
            R.check(bool(nl) and r is not None and 0 <= r[0] and r[1] <= 8, "length", w0, "%s: the name has at most eight characters" % ext,
                    "%s: the stored length of the name can exceed eight" % ext, ext + " name")
            second = ai.ladd(lf(FIRST + 6), name)
        else:
            second = lf(FIRST + {"plain": 13, "plus": 15, "padded": 14}[layout])
        data = ai.ladd(second, lf(2))
        size = ai.ladd(ai.ladd(end, lf(2), -1), data, -1)
        word(R, q, "length", ext, "variable length", lf(FIRST + 2), size)
        word(R, q, "length", ext, "repeated variable length", second, size)
        word(R, q, "length", ext, "payload length", data, ai.ladd(size, lf(2), -1))
        if first is not None:
            word(R, q, "length", ext, "header length", lf(FIRST), lf(first))
        # the checksum
        if total is None:
            R.bad("checksum", fn_where(m, f, I), "%s: the sum of the bytes written is not kept" % ext, ext + " sum")
            continue
        lo, hi = [[r for r in at(q, ai.ladd(end, lf(k), -1)) if r[4].ts == st.ts] for k in (2, 1)]
        ok = len(lo) == 1 and len(hi) == 1
        R.check(ok, "checksum", fn_where(m, f, I), "%s: two bytes follow the data section" % ext, "%s: the file does not end with one 16-bit number" % ext, ext + " two")
        if ok:
            sm = total
            # the sum includes the checksum's own bytes: take them out again
            sm = ai.ladd(ai.ladd(sm, ai.lform(zext8(lo[0][2]), 16), -1, 16), ai.lform(zext8(hi[0][2]), 16), -1, 16)
            R.check(word_is(A, lo[0][4], lo[0][2], hi[0][2], A.lfold(lo[0][4], sm, 16)), "checksum", fn_where(m, f, lo[0][3]),
                    "%s: the checksum is the sum of the data section's bytes" % ext, "%s: the checksum is not the sum of the data section's bytes" % ext, ext + " checksum")
        body(m, R, f, q, ext, ai.ladd(data, lf(2)), end)


def check_O02(m, R):
    core.parallel(R, sorted(PROGRAMS), lambda r, ext: program_file(m, r, ext))
    R.need("length", 40)
    R.need("checksum", 18)
    R.need("payload", 40)


def word(R, q, rule, ext, what, pos, want):
    lo, hi = at(q, pos), at(q, ai.ladd(pos, lf(1)))
    m, f = q.m, q.f
    if not lo or not hi:
        R.bad(rule, fn_where(m, f), "%s: nothing is written where the %s belongs" % (ext, what), ext + " " + what)
        return
    for a in lo:
        for b in hi:
            ok = word_is(a[5], a[4], a[2], b[2], want)
            R.check(ok, rule, fn_where(m, f, a[3]), "%s: the %s is what is written" % (ext, what),
                    "%s: the %s is not the number of bytes written" % (ext, what), ext + " " + what)


def reach(f, I, J):
    """Instruction J can run after I."""
    if I.bb.name == J.bb.name and J.idx > I.idx:
        return True
    seen, todo = set(), [x.name for x in I.bb.succs]
    while todo:
        b = todo.pop()
        if b == J.bb.name:
            return True
        if b not in seen:
            seen.add(b)
            todo += [x.name for x in f.bmap[b].succs]
    return False


def image_byte(v, image):
    """v is a byte of the image: linear form of its index, and which hexadecimal digit of it (or None)."""
    digit = None
    while v[0] == "cast":
        v = v[3]
    if v[0] == "x" and v[1][0] == "hex":
        digit, v = v[1][2], v[1][1]
        while v[0] == "cast":
            v = v[3]
    if v[0] != "x" or v[1][0] != "ld" or v[1][2] != 1 or image not in [v[1][1]] + list(ai.subexprs(v[1][1])):
        return None
    return ai.ladd(ai.lform(v[1][1]), ai.lform(image), -1), digit


def body(m, R, f, q, ext, data, end):
    """Behind the payload length: what the model wants in front, the image byte for byte, the trailer, the checksum."""
    image, n = P(0), ai.lform(P(1, 32))
    pre, post = BEFORE.get(ext, ()), TRAILER.get(ext, b"")
    hexa = ext == "83P"
    start = ai.ladd(data, lf(len(pre)))
    stop = ai.ladd(start, n, 2 if hexa else 1)
    tail = ai.ladd(stop, lf(len(post)))
    w = fn_where(m, f)
    R.check(ai.ladd(tail, lf(2)) == end, "payload", w, "%s: the payload is as long as the image" % ext, "%s: the payload is not as long as the image" % ext, ext + " count")
    marks = [r for r in at(q, ai.ladd(data, lf(1), -1))]
    for r in q.recs:
        if not marks or not any(reach(f, k[3], r[3]) for k in marks) or r[0] is None:
            continue
        w = fn_where(m, f, r[3])
        got = image_byte(r[2], image)
        if got is not None:
            idx, digit = got
            want = ai.ladd(ai.ladd(start, folded(r[5], r[4], idx), 2 if digit is not None else 1), lf(digit or 0))
            R.check(r[0] == want and (digit is not None) == hexa, "payload", w, "%s: every byte of the image is at its place" % ext,
                    "%s: a byte of the image is not at its place" % ext, ext + " image")
            continue
        ok = False
        for k, c in enumerate(pre):
            ok = ok or r[0] == ai.ladd(data, lf(k)) and bits.mk(r[2], 8) == bits.mk(C(c), 8)
        d = ai.ladd(r[0], stop, -1)
        g = lrange(r[5], r[4], d)
        if post and g is not None and 0 <= g[0] and g[1] < len(post):
            ok = ok or trailer_byte(m, f, r, d, post)
        ok = ok or r[0] in (tail, ai.ladd(tail, lf(1)))
        R.check(ok, "payload", w, "%s: what surrounds the image is as the model wants it" % ext, "%s: a byte that is neither image, prefix, trailer nor checksum is written" % ext,
                ext + " other %s" % ai.lshow(d)[:20])


def trailer_byte(m, f, r, d, post):
    v = r[2]
    while v[0] == "cast":
        v = v[3]
    if v[0] == "c":
        return not d[1] and post[d[0]] == v[1] & 0xFF
    if v[0] != "x" or v[1][0] != "ld":
        return False
    for I in f.instrs():
        if I.op == "call" and (m.callee_name(I) or "").startswith("llvm.memcpy") and I.ops[1][0] == "g":
            t = bytes((const_at(m, I.ops[1][1], k, 1) or ("c", 0))[1] & 0xFF for k in range(len(post)))
            dst = r[5].val(r[4], I.ops[0])
            if t == post and ai.ladd(ai.lform(v[1][1]), ai.lform(dst), -1) == d:
                return True
    a = v[1][1]
    g = [e for e in [a] + list(ai.subexprs(a)) if e[0] == "g"]
    for e in g:
        t = bytes((const_at(m, e[1], k, 1) or ("c", 0))[1] & 0xFF for k in range(len(post)))
        if t == post and ai.ladd(ai.lform(a), ai.lform(e), -1) == d:
            return True
    return False


class Ext(Stream):
    """write_file for one output extension (None: the name has none)."""

    def __init__(self, m, f, ext, **k):
        super().__init__(m, f, **k)
        self.ext, self.cmps, self.closed, self.opened = ext, [], [], []
        self.unknown = tuple(C(v) for v, n in codes(m).items() if n == "SPASM_WARN_UNKNOWN_EXTENSION")

    def init(self, A, st):
        super().init(A, st)
        st.ts = (None, None, False, False)  # the last loop left at a dot; the writer that was called; names compared; warned
        self.lens = {}
        self.counters = []
        for h, body in A.loops.items():
            if any(I.op == "call" and self.m.callee_name(I) in COMPARE for b in body for I in self.f.bmap[b].ins):
                self.counters += [I.res for I in self.f.bmap[h].ins if I.op == "phi"]
        self.steps = []

    def key(self, A, st):
        k = [st.env.get(r) for r in self.counters]
        return st.ts, tuple(e[1:] if e is not None and e[0] in ("c", "g") else None for e in k)

    def is_file(self, A, st, e):
        return e[0] == "x" and e[1][0] == "call" and e[1][3] in ("fopen", "fopen64")

    def dots(self, A, st):
        """Places known to hold a dot."""
        return [e[1][1] for e, S in st.cons.items() if e[0] == "x" and e[1][0] == "ld" and e[1][2] == 1 and S == ((46, 46),)]

    def edge(self, A, st, src, dst):
        if self.loops_of(A, src, dst):
            st.ts = (bool(self.dots(A, st)),) + st.ts[1:]
        return super().edge(A, st, src, dst)

    def back(self, A, st, src, dst):
        if A.reporting and dst not in [A.fn.defs[r].bb.name for r in self.counters]:
            # the way back over the name goes on only where there is no dot
            for I in self.f.bmap[dst].ins:
                if I.op == "phi" and I.res in st.env:
                    L = st.env[I.res]
                    self.steps.append((L, any(has(d, L) for d in self.dots(A, st)), I))

    def load(self, A, st, I, addr):
        if I.ty.k == "i" and self.m.size(I.ty) == 1:
            # the byte after the last one of a string
            f = A.lfold(st, ai.lform(addr))
            for L, a in self.lens.items():
                if f == A.lfold(st, ai.ladd(ai.lform(a), ai.lform(L))):
                    return C(0)
        return super().load(A, st, I, addr)

    def call(self, A, st, I, n, args):
        m = self.m
        if n == "strlen":
            r = super().call(A, st, I, n, args)
            self.lens[r[0][1]] = args[0]
            return r
        if n in ("SetLastSPASMWarning", "SetLastSPASMError") and args[0] in self.unknown:
            st.ts = st.ts[:3] + (True,)
            return None
        if n in COMPARE:
            s = [cstr_of(m, a) for a in args[:2]]
            if (s[0] is None) == (s[1] is None):
                return None
            text, other = (s[0], args[1]) if s[0] is not None else (s[1], args[0])
            if A.reporting:
                self.cmps.append((other, I, st.ts, st.copy(), A))
            if self.ext is None:
                return []
            st.ts = st.ts[:2] + (True, st.ts[3])
            eq = text == self.ext if n in ("strcmp", "strncmp") else text.lower() == self.ext.lower()
            A.default_call(st, I, n, args)
            return [(st, C(0) if eq else C(1))]
        if n in ("fopen", "fopen64"):
            if A.reporting:
                self.opened.append((args, I))
            return None
        if n == "fclose" and self.is_file(A, st, args[0]):
            if A.reporting:
                if st.ts[2] or self.ext is None:
                    self.closed.append((st.ts[1], I, st.ts[3], A.ghost_value(st, "pos")))
            return None
        if n not in WRITERS and n not in PASSIVE and any(self.is_file(A, st, a) for a in args):
            A.default_call(st, I, n, args)
            st.ts = (st.ts[0], (n,) + tuple(a for a in args), st.ts[2], st.ts[3])
            if A.reporting:
                self.other.append((n, I, args, None, st.copy(), A))
            return [(st, st.env.get(I.res) if I.res else None)]
        return super().call(A, st, I, n, args)


def has(e, L):
    return e == L or L in list(ai.subexprs(e))


COMPARE = ("strcasecmp", "_stricmp", "stricmp", "strcmp", "strcmpi", "strncasecmp", "strncmp")
PASSIVE = ("ferror", "feof", "fflush", "clearerr", "setvbuf", "setbuf", "fileno", "ftell", "fsync")
WRITERS = ("fputc", "putc", "_IO_putc", "fwrite", "fprintf", "fputs")


def raw_copy(q, R, rule, what, key, image):
    """Everything the function writes is the image, byte for byte."""
    m, f = q.m, q.f
    bad = None
    for r in q.recs:
        got = image_byte(r[2], image)
        if got is None or got[1] is not None or r[0] is None or folded(r[5], r[4], got[0]) != r[0]:
            bad = r
    for n, I, args, pos, st, A in q.bulk:
        if args[0] != image or pos != ai.L0:
            bad = (None, None, None, I)
    R.check(bool(q.recs or q.bulk) and bad is None, rule, fn_where(m, f, bad[3] if bad else None), "%s: the bytes of the image in order" % what,
            "%s: something else than the bytes of the image in order is written" % what, key)


ODD = ("XYZ", "8X", "8XPP", "BI", "")


def check_O01(m, R):
    exts = sorted(PROGRAMS) + ["8XK", "ROM", "HEX", "BIN"]
    core.parallel(R, [("any", e) for e in exts] + [("odd", e) for e in ODD] + [("none", None)],
                  lambda r, j: {"any": one_ext, "odd": one_ext, "none": one_ext}[j[0]](m, r, j[1]))
    R.need("dispatch", 150)


def writers(m, ext):
    f = m.fn("write_file")
    q = Ext(m, f, ext, rng={1: ((0, MAXIMAGE),)})
    q.A = ai.Analysis(m, f, q, max_visits=4000)
    q.A.run()
    return f, q


def pins(args):
    return {i: a[1] for i, a in enumerate(args) if a[0] == "c"}


def one_ext(m, R, ext):
    for e in ([ext, ext.lower(), ext.capitalize()] if ext else [ext]):
        show = "." + e if e else "a name without extension" if e is None else "an empty extension"
        f, q = writers(m, e)
        w = fn_where(m, f)
        for other, I, ts, st, A in q.cmps:
            ok = any(ai.ladd(ai.lform(d), lf(1)) == ai.lform(other) for d in q.dots(A, st)) or strrchr_tail(A, f, m, other)
            R.check(ok, "dispatch", fn_where(m, f, I), "the extension is what follows a dot", "what is compared with the known extensions is not what follows the last dot", "after dot")
        for L, dot, I in q.steps:
            if not any(has(other, L) for other, *_ in q.cmps):
                continue
            R.check(not dot, "dispatch", fn_where(m, f, I), "the search for the dot ends at the dot", "the search for the dot goes on past a dot", "last dot")
        R.check(bool(q.closed), "dispatch", w, show + ": the file is written and closed", show + ": no file is written", "written %s" % e)
        raw = e is None or e.upper() not in PROGRAMS and e.upper() not in ("8XK", "ROM", "HEX")
        odd = e is not None and e.upper() not in PROGRAMS and e.upper() not in ("8XK", "ROM", "HEX", "BIN")
        for t, I, warned, pos in q.closed:
            R.check(warned == odd, "dispatch", fn_where(m, f, I), "%s: %s" % (show, "a warning" if odd else "no warning"),
                    "%s: %s" % (show, "is not warned about" if odd else "is warned about as unknown"), "warn %s" % e)
            if raw:
                R.check(pos == ai.lform(P(1, 32)), "dispatch", fn_where(m, f, I), "%s: as long as the image" % show, "%s: the file is not as long as the image" % show, "length %s" % e)
            if raw:
                R.check(t is None, "dispatch", fn_where(m, f, I), "%s: the plain image" % show, "%s is not written as the plain image but by %s" % (show, t and t[0]), "plain %s" % e)
            else:
                R.check(t is not None and bool(m.fn(t[0], False)), "dispatch", fn_where(m, f, I), "%s: its container is written" % show, "%s: no container is written" % show, "container %s" % e)
        if raw:
            raw_copy(q, R, "dispatch", show, "raw %s" % e, P(0))
            continue
        for t in {t[0] for t in q.closed if t[0]}:
            g = m.fn(t[0], False)
            k, size = [i for i, a in enumerate(t[1:]) if a == P(0)], [i for i, a in enumerate(t[1:]) if a == P(1, 32)]
            R.check(len(k) == 1 and len(size) == 1, "dispatch", w, "%s: %s gets the image and its length" % (show, t[0]), "%s: %s does not get the whole image" % (show, t[0]), "image %s" % e)
            fl = [i for i, a in enumerate(t[1:]) if a[0] == "x" and a[1][0] == "call" and a[1][3] in ("fopen", "fopen64")]
            got = kind(m, g, pins(t[1:]), fl[0] if fl else None, k[0] if k else None, size[0] if size else None)
            want = e.upper() if e.upper() not in PROGRAMS else PROGRAMS[e.upper()][1]
            if e.upper() in PROGRAMS:
                R.check(got is not None and got[0] == "program" and got[1] == want and got[2] == TYPES[e.upper()], "dispatch", w, "%s: a file of that model and type" % show,
                        "%s is written as %s" % (show, got), "kind %s" % e)
            else:
                R.check(got is not None and got[0] == want, "dispatch", w, "%s: its container" % show, "%s is written as %s" % (show, got), "kind %s" % e)


def strrchr_tail(A, f, m, e):
    b = e
    if e[0] == "+" and e[3] == 1:
        b = e[2]
        if b[0] == "x" and b[1][0] == "call" and b[1][3] in ("strrchr", "rindex"):
            return True
    return False


def kind(m, g, pin, fl, image, size):
    """What a function writes: ('program', signature, type), '8XK', 'ROM', 'HEX', 'BIN' or None."""
    if g is None or fl is None:
        return None
    k = g.name, str(pin), fl, image, size
    if k not in KIND:
        KIND[k] = kind_of(m, g, pin, fl, image, size)
    return KIND[k]


KIND = {}


def kind_of(m, g, pin, fl, image, size):
    q = Stream(m, g, pin=pin, fileparam=fl, rng={size: ((0, MAXIMAGE),)} if size is not None else {}, sumfrom=FIRST)
    q.A = ai.Analysis(m, g, q, max_visits=4000)
    q.A.run()
    head = first_bytes(m, q, 11)
    other = [(n, I, args, pos, st, A) for n, I, args, pos, st, A in q.other]
    if head is not None and head.startswith(b"**TIFL**"):
        if other and all(is_hex_writer(m, m.fn(n, False)) for n, *_ in other if m.fn(n, False) is not None):
            return ("8XK",)
        return None
    if head is not None and head.startswith(b"**TI"):
        ty = {r[2] for r in at(q, lf(FIRST + 4))}
        ty = {t[1] for t in ty if t[0] == "c"} if all(t[0] == "c" for t in ty) and len(ty) == 1 else {None}
        return ("program", head, ty.pop())
    if any(args[0] != P(image) or pos != ai.L0 for n, I, args, pos, st, A in q.bulk):
        return None
    if not q.recs and other:
        n, I, args, pos, st, A = other[0]
        h = m.fn(n, False)
        if n == "fprintf" and is_hex_writer(m, g):
            return ("HEX",)
        if h is not None and is_hex_writer(m, h) and len(other) == 1:
            return ("HEX",) if P(image) in args and P(size, 32) in args else None
        return None
    # image bytes first, the rest is filling
    fill = set()
    for r in q.recs:
        got = image_byte(r[2], P(image)) if image is not None else None
        if got is not None and got[1] is None and r[0] is not None and folded(r[5], r[4], got[0]) == r[0]:
            continue
        if r[1] is None or r[1][1] >= 512 * 1024:
            return None         # filled beyond the size of the memory
        fill.add(bits.value(bits.mk(r[2], 8), lambda e: None) if r[2][0] == "c" else None)
    if fill == {0xFF} and all(s is not None for s in fill):
        ends = [lrange(q.A, st, p) for p, s, I, st in q.ends if p is not None]
        if ends and all(e is not None and e[0] >= 512 * 1024 for e in ends) and len(ends) == len(q.ends):
            return ("ROM",)
        return None
    return ("BIN",) if (q.recs or q.bulk) and not fill else None


def first_bytes(m, q, n):
    """The constant bytes at the beginning of the file."""
    out = []
    for k in range(n):
        v = None
        for r in q.recs:
            if r[0] is None or r[1] is None or not r[1][0] <= k <= r[1][1]:
                continue
            if r[0] == lf(k) and r[2][0] == "c":
                v = r[2][1] & 0xFF
            else:
                # a loop over a table: the place is the table's index plus something
                e = r[2]
                while e[0] == "cast":
                    e = e[3]
                if e[0] == "x" and e[1][0] == "ld":
                    a = e[1][1]
                    for g in [x for x in [a] + list(ai.subexprs(a)) if x[0] == "g"]:
                        d = ai.ladd(ai.ladd(ai.lform(a), ai.lform(("g", g[1], 0)), -1), r[0], -1)
                        if not d[1]:
                            off = k + (d[0] if d[0] < 1 << 31 else d[0] - (1 << 32))
                            c = table_byte(m, g[1], off)
                            if c is not None:
                                v = c & 0xFF
            if v is not None:
                break
        if v is None:
            return None
        out.append(v)
    return bytes(out)


def table_byte(m, g, off):
    """The byte a global starts out with."""
    c = const_at(m, g, off, 1)
    if c is not None and c[0] == "c":
        return c[1]
    G = m.globals.get(g)
    if G is None or G["init"] is None:
        return None
    keep = G["const"]
    try:
        G["const"] = True
        c = const_at(m, g, off, 1)
    finally:
        G["const"] = keep
    return c[1] if c is not None and c[0] == "c" else None


def is_hex_writer(m, f):
    """The function prints records that begin with a colon."""
    if f is None:
        return False
    fm = [cstr_of(m, ("g", I.ops[1][1], 0)) for I in f.instrs() if I.op == "call" and m.callee_name(I) == "fprintf" and I.ops[1][0] == "g"]
    return bool(fm) and all(x is not None and x.startswith(":") for x in fm)


class Named(Stream):
    """Where the name in a program file comes from."""

    def __init__(self, m, f, **k):
        super().__init__(m, f, **k)
        self.dups, self.made, self.filters, self.bounds = [], [], [], []

    def init(self, A, st):
        super().init(A, st)
        st.ts = None        # how the last loop over pointers ended: at a separator, at the start

    def edge(self, A, st, src, dst):
        for h, body in A.loops.items():
            if src not in body and dst != h:
                continue
            for I in self.f.bmap[h].ins:
                if I.op == "phi" and I.ty.k == "ptr" and dst == h:
                    st.ts = None
                elif I.op == "phi" and I.ty.k == "ptr" and I.res in st.env:
                    st.ts = (st.env[I.res], self.why(A, st, st.env[I.res]))
        for h in self.loops_of(A, src, dst):
            for I in self.f.bmap[h].ins:
                if I.op != "phi" or I.res not in st.env:
                    continue
                L = st.env[I.res]
                for e, S in st.cons.items():
                    if e[0] == "cmp" and L in (e[3], e[4]):
                        self.bounds.append((h, e[4] if e[3] == L else e[3], st.copy()))
        return super().edge(A, st, src, dst)

    def key(self, A, st):
        return st.ts and st.ts[1]

    def why(self, A, st, L):
        if A.decide(st, ("cmp", "ule", 64, L, P(3))) or A.decide(st, ("cmp", "eq", 64, L, P(3))) or A.decide(st, ("cmp", "ugt", 64, L, P(3))) == 0 \
                or A.decide(st, ("cmp", "ult", 64, P(3), L)) == 0:
            return "start"
        for e in list(st.cons):
            for x in [e] + list(ai.subexprs(e)):
                if x[0] == "x" and x[1][0] == "ld" and x[1][2] == 1 and ai.lform(x[1][1]) == ai.ladd(ai.lform(L), lf(1), -1):
                    S = A.iset(st, e)
                    if S and all(a == b and a in (47, 92) for a, b in S):
                        return "separator"
        return "elsewhere"

    def call(self, A, st, I, n, args):
        if n in ("strdup", "_strdup", "__strdup"):
            A.default_call(st, I, n, args)
            if A.reporting:
                self.dups.append((st.env[I.res], args[0], st.ts, I, st.copy(), A))
            return [(st, st.env[I.res])]
        if n in ("snprintf", "sprintf") and A.reporting:
            k = 2 if n == "snprintf" else 1
            self.made.append((args[0], cstr_of(self.m, args[k]) if args[k][0] == "g" else None, args[k + 1:], st.ts, I, st.copy(), A))
        if self.m.fn(n, False) is not None and A.reporting:
            self.filters.append((n, tuple(args), I))
        return super().call(A, st, I, n, args)


def stored_name(m, R, ext):
    k, sig, first, layout = PROGRAMS[ext]
    f = m.fn("makeprgm")
    q = Named(m, f, pin={4: k}, fileparam=2, sumfrom=FIRST, rng={1: ((0, MAXIMAGE),)})
    q.A = ai.Analysis(m, f, q, max_visits=4000)
    q.A.run()
    A = q.A
    w0 = fn_where(m, f)
    N = FIRST + (5 if layout in ("plain", "plus") else 6)
    src, loops = set(), set()
    field = [r for r in q.recs if r[0] is not None and r[1] is not None and N <= r[1][0] and r[1][1] <= N + 7]
    if layout == "named":
        field = [r for r in field if name_load(r, N) is not None]
    for r in field:
        b = name_load(r, N)
        w = fn_where(m, f, r[3])
        if b is not None:
            src.add(b)
            loops |= {h for h, body in A.loops.items() if r[3].bb.name in body}
            continue
        R.check(layout != "named" and r[2] == C(0), "field", w, "%s: the field is filled with zeros" % ext, "%s: the name field holds something that is neither the name in order nor a zero" % ext, ext + " zeros")
    R.check(bool(src), "field", w0, "%s: the name is stored" % ext, "%s: the name is not stored in its field" % ext, ext + " stored")
    # how many of its characters: all, at most eight
    seen = False
    for h, B, st in q.bounds:
        if h not in loops or B[0] == "c":
            continue
        seen = True
        ok = {count_source(m, f, A, st, v) for v in phi_sources(f, A, st, B)}
        S = A.iset(st, B)
        R.check(ok == {"length", 8} and S and S[-1][1] <= 8, "field", w0, "%s: eight characters, or all if there are fewer" % ext,
                "%s: not all of the first eight characters of the name are stored" % ext, ext + " count")
    R.check(seen, "field", w0, "%s: the characters are counted" % ext, "%s: the number of characters stored is not determined" % ext, ext + " counted")
    # what the name is
    for h, body in A.loops.items():
        for I in f.bmap[h].ins:
            if I.op == "phi" and I.ty.k == "ptr" and any(a[0] == "x" and a[1][0] == "phi" and a[1][2] == I.res for a in [x[1] for x in q.dups] + [y for x in q.made for y in x[2]]):
                d = [f.defs.get(o[1]) for o, p in zip(I.ops, I.x) if p in body and o[0] == "v"]
                R.check(all(g is not None and g.op == "gep" and g.ops[0] == ("v", I.res) and g.ops[-1] == ("c", -1) for g in d), "name", fn_where(m, f, I),
                        "%s: the path is searched from its end" % ext, "%s: the path is not searched from its end" % ext, ext + " back")
    for b in src:
        d = [x for x in q.dups if x[0] == b]
        R.check(bool(d), "name", w0, "%s: the name is a copy" % ext, "%s: it is not determined where the name comes from" % ext, ext + " source")
        for leaf, arg, ts, I, st, A2 in d:
            mk = [x for x in q.made if x[0] == arg]
            w = fn_where(m, f, I)
            if mk:
                ok = all(x[1] == "\xdc%s" and len(x[2]) == 1 for x in mk)
                R.check(ok == (ext == "82P") and ok, "name", w, "%s: the name behind the token of the model" % ext, "%s: the name is not made as this model wants it" % ext, ext + " prefix")
                args = [(x[2][0], x[3], x[5], x[6]) for x in mk if x[2]]
            else:
                R.check(ext != "82P", "name", w, "%s: the plain name" % ext, "%s: the token in front of the name is missing" % ext, ext + " prefix")
                args = [(arg, ts, st, A2)]
            for a, t, st2, A3 in args:
                ok = t is not None and t[0] == a and t[1] in ("start", "separator") or strrchr_tail(A3, f, m, a)
                R.check(ok, "name", w, "%s: the name is what follows the last separator" % ext, "%s: the name stored is not the part of the path behind the last separator" % ext, ext + " base")
        fl = [(n, args, I) for n, args, I in q.filters if args and args[0] == b]
        if ext in CAPITAL:
            R.check(bool(fl), "capital", w0, "%s: the name is made capital" % ext, "%s: the name is not made capital" % ext, ext + " capital")
            for n, args, I in fl:
                capital(m, R, m.fn(n), pins(args), ext, "first" if ext == "8XV" else "all")


CAPITAL = ("73P", "83P", "8XP", "8XV")


def name_load(r, N):
    """The string a byte of the name field is read from, if it is read from the right place of it."""
    v = r[2]
    while v[0] == "cast":
        v = v[3]
    if v[0] == "x" and v[1][0] == "ld" and v[1][2] == 1:
        f = ai.ladd(folded(r[5], r[4], ai.lform(v[1][1])), ai.ladd(r[0], lf(N), -1), -1)
        if f[0] == 0 and len(f[1]) == 1:
            (b, k), = f[1]
            leaf = ai.lleaf(b)
            if k == 1 and leaf is not None and leaf[1][0] == "call":
                return leaf
    return None


def phi_sources(f, A, st, B, seen=None):
    """The values a value can be, followed through joins and selections."""
    seen = set() if seen is None else seen
    if B in seen:
        return []
    seen.add(B)
    while B[0] == "cast":
        B = B[3]
    if B[0] == "x" and B[1][0] == "phi":
        d = f.defs.get(B[1][2])
        out = []
        for o in (d.ops if d is not None and d.op == "phi" else []):
            out += op_sources(f, o, seen)
        return out or [("?",)]
    if B[0] == "x" and B[1][0] == "sel":
        return [("?",)]
    return [("e", B)]


def op_sources(f, o, seen):
    if o in seen:
        return []
    seen.add(o)
    if o[0] == "c":
        return [o]
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None:
        return [("?",)]
    if d.op == "phi":
        return [x for p in d.ops for x in op_sources(f, p, seen)]
    if d.op == "select":
        return [x for p in d.ops[1:] for x in op_sources(f, p, seen)]
    if d.op in ("trunc", "sext", "zext"):
        return op_sources(f, d.ops[0], seen)
    return [("i", d)]


def count_source(m, f, A, st, v):
    if v[0] == "c":
        return v[1]
    if v[0] == "i" and v[1].op == "call" and m.callee_name(v[1]) == "strlen":
        return "length"
    if v[0] == "e":
        e = v[1]
        if e[0] == "x" and e[1][0] == "strlen":
            return "length"
    return "?"


class Walk(ai.Rule):
    """A function that goes over the characters of its first argument."""

    def __init__(self, m, f, pin):
        self.m, self.f, self.pin, self.rounds, self.exits = m, f, pin, [], []

    def init(self, A, st):
        for i, v in self.pin.items():
            st.env[self.f.params[i][0]] = C(v)
        st.ts = False       # not the first character any more
        self.heads = [(h, I.res) for h in A.loops for I in self.f.bmap[h].ins if I.op == "phi" and I.ty.k == "ptr"]

    def load(self, A, st, I, addr):
        # what was read stays known for as long as nothing is stored over it
        if I.ty.k == "i" and self.m.size(I.ty) == 1:
            e = A.load_expr(st, addr, 1, 8)
            st.mem[ai.split(addr)] = (e, 1)
            return e
        return None

    def call(self, A, st, I, n, args):
        # the name is a fresh copy: who is not given it cannot change it
        keep = {k: v for k, v in st.mem.items() if v[1] == 1 and k[0][0] not in ("g", "al")}
        if any(has(a, k[0]) for a in args for k in keep):
            return None
        A.default_call(st, I, n, args)
        st.mem.update(keep)
        return [(st, st.env.get(I.res) if I.res else None)]

    def char(self, A, st, c):
        e = A.load_expr(st, c, 1, 8)
        return A.iset(st, e)

    def back(self, A, st, src, dst):
        # the head's own value of the cursor
        for h, r in self.heads:
            if h == dst and r in st.env:
                c = st.env[r]
                d = self.f.defs[r]
                nxt = [o for o, b in zip(d.ops, d.x) if b == src]
                n = A.val(st, nxt[0]) if nxt else None
                if A.reporting:
                    self.rounds.append((st.ts, self.char(A, st, c), n is not None and ai.ladd(ai.lform(n), ai.lform(c), -1) == lf(1), st.copy()))
        st.ts = True

    def edge(self, A, st, src, dst):
        for h, r in self.heads:
            if src in A.loops[h] and dst not in A.loops[h] and r in st.env:
                self.exits.append(self.char(A, st, st.env[r]))
        return True

    def key(self, A, st):
        return st.ts


def capital(m, R, g, pin, ext, which):
    q = Walk(m, g, {i: v for i, v in pin.items()})
    q.A = ai.Analysis(m, g, q, max_visits=2000)
    q.A.run()
    w = fn_where(m, g)
    R.check(bool(q.rounds), "capital", w, "%s: the characters of the name are gone over" % ext, "%s: %s does not go over the characters of the name" % (ext, g.name), ext + " rounds")
    for later, S, step, st in q.rounds:
        lower = ai.iinter(S, ((97, 122),)) if S else True
        if which == "all" or not later:
            R.check(not lower, "capital", w, "%s: no small letter stays" % ext, "%s: a small letter stays in the name" % ext, ext + " small")
        R.check(step, "capital", w, "%s: one character after the other" % ext, "%s: characters of the name are skipped" % ext, ext + " step")
    R.check(bool(q.exits) and all(S == ((0, 0),) for S in q.exits), "capital", w, "%s: up to the end of the name" % ext, "%s: the end of the name is not reached" % ext, ext + " whole")


def check_O08(m, R):
    core.parallel(R, sorted(PROGRAMS), lambda r, ext: stored_name(m, r, ext))
    R.need("field", 25)
    R.need("name", 20)
    R.need("capital", 16)


CHECKS = {
    "O08": (check_O08, "proof", ["strdup, strlen and snprintf behave as documented; a name is shorter than 255 characters", "fputc writes the low byte of its argument"]),
    "O01": (check_O01, "proof", ["strlen, strcasecmp and the stdio writers behave as documented", "an image has at most %d bytes (O04)" % MAXIMAGE]),
    "O02": (check_O02, "proof", ["an image has at most %d bytes (O04)" % MAXIMAGE, "fputc writes the low byte of its argument and returns it (a failing write is not considered)"]),
}
