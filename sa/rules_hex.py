"""O03, O09: Intel HEX records and the application container."""
import re
import ai
import bits
import core
from ai import C
from util import G, P, fn_where, callers
from rules_expr import const_at
from rules_out import Counted, MAXIMAGE, cstr_of, has, lf, lrange, zext8, is_hex_writer, table_byte

DIGITS = b"0123456789ABCDEF"
PAGE, LINE = 16384, 32


def tokens(fmt):
    """A record's format as ('lit', byte) and ('num', width) and ('str',) fields, or None."""
    if not fmt.startswith(":"):
        return None
    out, s = [], fmt[1:]
    if s.endswith("\r\n"):
        s = s[:-2]
    elif s.endswith("\n") or s.endswith("\r"):
        return None
    while s:
        m = re.match(r"%(?:0|\.)(2|4)X", s)
        if m:
            out.append(("num", int(m.group(1))))
        elif s.startswith("%s"):
            m = re.match("%s", s)
            out.append(("str",))
        else:
            m = re.match(r"[0-9A-F]{2}", s)
            if not m:
                return None
            out.append(("lit", int(m.group(0), 16)))
        s = s[m.end():]
    return out


class Hex(Counted):
    """One record after the other: what was read of the image, how much of it is in the line, its sum."""
    gmods = {"sum": 8, "par": 1}
    nested = True

    def __init__(self, m, f, fileparam, image, size, base):
        self.m, self.f, self.fileparam, self.image, self.size, self.base = m, f, fileparam, image, size, base
        self.probs, self.data, self.pages, self.ends, self.eofs, self.bufs, self.reads = [], [], [], [], [], set(), 0

    def init(self, A, st):
        # byte whose digits are due, whether a byte is left, after the last record, how far the page is
        st.ts = (None, None, False, "none")
        z = (0, frozenset())
        st.gh = {g: z for g in ("pos", "dig", "diff", "par", "sum", "exp", "rec", "rel", "page")}
        A.constrain(st, P(self.size, 32), ((0, MAXIMAGE + 256),))
        if self.base is not None:
            A.constrain(st, P(self.base, 32), ((0x4000, 0x4000),))
        self.tables = set()
        for I in self.f.instrs():
            if I.op == "call" and (self.m.callee_name(I) or "").startswith("llvm.memcpy") and I.ops[0][0] == "v" and I.ops[1][0] == "g":
                if bytes((const_at(self.m, I.ops[1][1], k, 1) or ("c", 0))[1] & 0xFF for k in range(16)) == DIGITS:
                    self.tables.add(("al", I.ops[0][1], 0))
        for g in self.m.globals:
            if self.m.globals[g]["const"] and cstr_of(self.m, ("g", g, 0)) == DIGITS.decode():
                self.tables.add(("g", g, 0))

    def key(self, A, st):
        return st.ts[1:]

    def bad(self, A, I, rule, text, key):
        if A.reporting:
            self.probs.append((rule, I, text, key))

    def left(self, A, st):
        """Whether a byte of the image is left: True, False or None."""
        pos = A.ghost_value(st, "pos")
        for e, S in st.cons.items():
            if e[0] == "cmp" and S in (((0, 0),), ((1, 1),)) and e[1] in ("slt", "ult", "sge", "uge", "ne", "eq", "sgt", "ugt", "sle", "ule"):
                op, t = e[1], S == ((1, 1),)
                d = A.lfold(st, ai.ladd(ai.lform(e[3]), ai.lform(e[4]), -1))
                if pos is None:
                    continue
                over = ai.ladd(pos, A.lfold(st, ai.lform(P(self.size, 32))), -1)
                under = ai.ladd(lf(0), over, -1)
                if op in ("eq", "ne"):
                    if over[1] and d in (over, under):
                        return t != (op == "eq")
                    continue
                # x < 0
                x = {"lt": d, "le": ai.ladd(d, lf(1), -1), "gt": ai.ladd(lf(0), d, -1), "ge": ai.ladd(ai.ladd(lf(0), d, -1), lf(1), -1)}[op[1:]]
                if over[1] and x == over:
                    return t
                if over[1] and x == ai.ladd(under, lf(1), -1):
                    return not t
        if pos is not None and not pos[1]:
            S = A.iset(st, P(self.size, 32))
            if S and S[-1][1] <= pos[0]:
                return False
            if S and S[0][0] > pos[0]:
                return True
        return None

    def edge(self, A, st, src, dst):
        if super().edge(A, st, src, dst) is False:
            return False
        l = self.left(A, st)
        if l is not None:
            if st.ts[1] is not None and st.ts[1] != l:
                return False
            st.ts = st.ts[:1] + (l,) + st.ts[2:]
        if dst in A.loops and st.ts[1]:
            st.ts = st.ts[:1] + (None,) + st.ts[2:]
        if st.ts[3] == "open":
            rec = A.ghost_value(st, "rec")
            r = lrange(A, st, rec) if rec is not None else None
            if r is not None and tuple(r) == (PAGE // LINE, PAGE // LINE):
                st.ts = st.ts[:3] + ("none",)
        return True

    def load(self, A, st, I, addr):
        if I.ty.k != "i" or self.m.size(I.ty) != 1:
            return None
        if has(addr, P(self.image)):
            e = A.load_expr(st, addr, 1, 8)
            idx = A.lfold(st, ai.ladd(ai.lform(addr), ai.lform(P(self.image)), -1))
            self.reads += bool(A.reporting)
            if idx != A.ghost_value(st, "pos"):
                self.bad(A, I, "covered", "a byte is read that is not the next one of the image", "next")
            if self.left(A, st) is not True and st.ts[1] is not True:
                self.bad(A, I, "covered", "a byte is read behind the end of the image", "end")
            if st.ts[0] is not None:
                self.bad(A, I, "digits", "a byte of the image is not written in full", "full")
            st.ts = (e, None) + st.ts[2:]
            A.ghost_add(st, "pos", C(1))
            A.ghost_add(st, "diff", C(2))
            A.ghost_add(st, "sum", e)
            return e
        for T in self.tables:
            if not has(addr, T):
                continue
            d = ai.ladd(ai.lform(addr), ai.lform(T), -1)
            if d[0] == 0 and len(d[1]) == 1:
                (b, k), = d[1]
                if k == 1:
                    return ("x", ("nib", b), 8)
        return None

    def store(self, A, st, I, addr, v):
        if v[0] == "x" and v[1][0] == "nib":
            dig, par = A.ghost_value(st, "dig"), A.ghost_value(st, "par")
            base = [a for a in [addr] + list(ai.subexprs(addr)) if a[0] == "al" and a[2] == 0]
            at = [a for a in base if dig is not None and A.lfold(st, ai.ladd(ai.lform(addr), ai.lform(a), -1)) == dig]
            if not at:
                self.bad(A, I, "digits", "a digit is not stored behind the one before it", "place")
            self.bufs |= set(at)
            byte = st.ts[0]
            if byte is None or par is None or par[1]:
                self.bad(A, I, "digits", "a digit is stored that belongs to no byte of the image", "whose")
            else:
                b = bits.mk(byte, 8)
                high = v[1][1] == b[4:8] + (0,) * (len(v[1][1]) - 4)
                low = v[1][1] == b[0:4] + (0,) * (len(v[1][1]) - 4)
                if not (low if par[0] else high):
                    self.bad(A, I, "digits", "the digits of a byte are not its high and then its low half", "which")
                if par[0]:
                    st.ts = (None,) + st.ts[1:]
            for g in ("dig", "par"):
                A.ghost_add(st, g, C(1))
            A.ghost_add(st, "diff", C(-1))
        return None

    def call(self, A, st, I, n, args):
        if not any(a == P(self.fileparam) for a in args):
            return None
        if n != "fprintf":
            self.bad(A, I, "form", "something is written that is not a record (%s)" % n, "other " + n)
            return None
        if st.ts[2]:
            self.bad(A, I, "ended", "something is written behind the end-of-file record", "behind")
        fmt = cstr_of(self.m, args[1])
        T = tokens(fmt) if fmt is not None else None
        if T is None or len(T) < 4:
            self.bad(A, I, "form", "%r is not the form of a record" % fmt, "form %s" % fmt)
            return None
        vals = [A.fold(st, v) for v in args[2:]]
        # the bytes of the record: (linear form mod 256)
        fields, total, isdata, count, address, buf, page = [], (0, frozenset()), False, None, None, None, None
        for k, t in enumerate(T):
            if t[0] == "lit":
                fields.append(C(t[1]))
                total = ai.ladd(total, lf(t[1]), n=8)
                continue
            if not vals:
                self.bad(A, I, "form", "a field of the record has no value", "value")
                return None
            v = vals.pop(0)
            if t[0] == "str":
                isdata, buf = True, v
                total = ai.ladd(total, A.ghost_value(st, "sum") or (1, frozenset()), n=8)
                if A.ghost_value(st, "sum") is None:
                    self.bad(A, I, "sum", "the sum of the bytes in the record is not kept", "kept")
                fields.append(None)
                continue
            total = ai.ladd(total, bits.linkey(v, 8), n=8)
            if t[1] == 4:
                b = bits.mk(v, 32)[8:16]
                total = ai.ladd(total, (0, frozenset([(b, 1)])) if not all(x in (0, 1) for x in b) else (sum(x << i for i, x in enumerate(b)), frozenset()), n=8)
                fields.append(v)
            fields.append(v)
            if t[1] == 2:
                S = A.iset(st, ai.cast("zext", 32, v, ai.width(v)) if v[0] != "c" and ai.width(v) < 32 else v)
                if (not S or S[0][0] < 0 or S[-1][1] > 255) and not (isdata or k == 0):
                    self.bad(A, I, "form", "a field of two digits can need more", "two digits")
        f8 = A.lfold(st, total, 8)
        what = "data" if isdata else "end" if len(T) == 5 and T[3] == ("lit", 1) else "page"
        if f8 != (0, frozenset()):
            self.bad(A, I, "sum", "the bytes of a %s record do not add up to zero" % what, "sum " + what)
        if what == "end":
            if [t for t in T] != [("lit", x) for x in (0, 0, 0, 1, 0xFF)]:
                self.bad(A, I, "form", "the end-of-file record is not :00000001FF", "eof")
            if self.left(A, st) is not False and st.ts[1] is not False:
                self.bad(A, I, "ended", "the end-of-file record can be written while bytes of the image are left", "early")
            if A.reporting:
                self.eofs.append(I)
            st.ts = st.ts[:2] + (True, "none")
        elif what == "page":
            if T != [("lit", 2), ("lit", 0), ("lit", 0), ("lit", 2), ("num", 4), ("num", 2)]:
                self.bad(A, I, "form", "%r is not a page record" % fmt, "page form")
                return None
            if A.reporting:
                self.pages.append(I)
            if A.lfold(st, ai.lform(args[2])) != A.ghost_value(st, "page"):
                self.bad(A, I, "covered", "the pages are not numbered one after the other", "page number")
            if st.ts[3] == "open":
                self.bad(A, I, "covered", "a page can begin before the one before it is full", "full page")
            st.gh["rec"], st.gh["exp"] = lf(0), ai.lform(P(self.base, 32)) if self.base is not None else lf(0x4000)
            st.gh["rel"] = st.gh["exp"]
            A.ghost_add(st, "page", C(1))
            st.ts = st.ts[:3] + ("open",)
        else:
            self.record(A, st, I, T, args, buf)
        return None

    def record(self, A, st, I, T, args, buf):
        if T != [("num", 2), ("num", 4), ("lit", 0), ("str",), ("num", 2)]:
            self.bad(A, I, "form", "not a data record", "data form")
            return
        dig, diff, par = (A.ghost_value(st, g) for g in ("dig", "diff", "par"))
        if A.reporting:
            self.data.append(I)
        if dig is None or diff != lf(0) or par is None or par[1] or par[0] or st.ts[0] is not None:
            self.bad(A, I, "digits", "not every byte read is in the record with two digits", "pairs")
            return
        # the count
        cnt = ai.ladd(A.lfold(st, ai.lform(args[2])), A.lfold(st, ai.lform(args[2])))
        if cnt != dig and not self.halves(A, st, args[2], dig):
            self.bad(A, I, "count", "the byte count of a data record is not the number of bytes in it", "count")
        r = lrange(A, st, dig)
        vals = [x for x in range(max(r[0], 0), min(r[1], 600) + 1) if x % 2 == 0] if r is not None and r[1] < 600 else None
        if vals is None or not vals or vals[-1] > 510:
            self.bad(A, I, "count", "a data record can hold more bytes than its count can say", "max")
        elif st.ts[1] is not False and vals != [2 * LINE]:
            self.bad(A, I, "covered", "a data record can be short although bytes are left", "short")
        # the text
        if buf not in self.bufs:
            self.bad(A, I, "digits", "what is printed is not the digits that were stored", "buffer")
        elif not any(e == C(0) and A.lfold(st, ai.ladd(ai.lform(ai.add(64, k[0], k[1])), ai.lform(buf), -1)) == dig for k, (e, sz) in st.mem.items() if sz == 1 and has(k[0], buf)
                     or k[0] == buf and sz == 1):
            self.bad(A, I, "digits", "the digits of a record are not terminated where they end", "terminated")
        # the address
        exp, rec, rel = (A.ghost_value(st, g) for g in ("exp", "rec", "rel"))
        if exp is None or A.lfold(st, ai.lform(args[3])) != exp:
            self.bad(A, I, "address", "the address of a data record is not that of its first byte", "address")
        base = ai.lform(P(self.base, 32)) if self.base is not None else lf(0x4000)
        if rel is None or rel != A.lfold(st, base):
            self.bad(A, I, "address", "the address of a record does not follow from its number in the page", "line")
        rr = lrange(A, st, rec) if rec is not None else None
        if rr is None or rr[0] < 0 or rr[1] >= PAGE // LINE:
            self.bad(A, I, "covered", "a page can hold more than %d records" % (PAGE // LINE), "page size")
        if st.ts[3] == "none":
            self.bad(A, I, "covered", "a data record can come before any page record", "no page")
        for g, v in (("exp", LINE), ("rel", LINE), ("rec", 1)):
            A.ghost_add(st, g, C(v))
        A.ghost_add(st, "rel", C(-LINE))
        for g in ("dig", "diff", "par", "sum"):
            st.gh[g] = (0, frozenset())

    def halves(self, A, st, e, dig):
        """e is half of the even number dig."""
        if e[0] == "op" and e[1] in ("lshr", "ashr") and e[4] == C(1) or e[0] == "op" and e[1] in ("udiv", "sdiv") and e[4] == C(2):
            return A.lfold(st, ai.lform(e[3])) == dig
        return False

    def ret(self, A, st, I, v):
        if not A.reporting:
            return
        self.ends.append(I)
        if not st.ts[2]:
            self.bad(A, I, "ended", "the file can end without an end-of-file record", "no eof")


def hex_writer(m):
    """Functions that print records: lines that begin with a colon."""
    return [f for f in m.own if is_hex_writer(m, f)]


def check_O03(m, R):
    fs = hex_writer(m)
    if len(fs) != 1:
        raise core_broken("functions that write Intel HEX: %d" % len(fs))
    f = fs[0]
    fl = im = sz = ba = None
    use = [(c, I) for c, I in callers(m, f.name)]
    R.check(bool(use), "used", fn_where(m, f), "Intel HEX is written somewhere", "Intel HEX is written nowhere", "used")
    ptr = [i for i, p in enumerate(f.params) if p[1].k == "ptr"]
    ints = [i for i, p in enumerate(f.params) if p[1].k == "i"]
    for I in f.instrs():
        if I.op == "call" and m.callee_name(I) == "fprintf" and I.ops[0][0] == "v":
            fl = next((i for i in ptr if ("v", f.params[i][0]) == I.ops[0]), fl)
    im = next((i for i in ptr if i != fl), None)
    consts = {i: {I.ops[i] for c, I in use} for i in ints}
    ba = next((i for i in ints if all(o[0] == "c" for o in consts[i])), None)
    sz = next((i for i in ints if i != ba), None)
    if None in (fl, im, sz):
        raise core_broken("the parameters of %s" % f.name)
    if ba is not None:
        for c, I in use:
            R.check(I.ops[ba] == ("c", 0x4000), "address", fn_where(m, c, I), "the pages are at 4000", "the pages are placed at another address than 4000", "base " + c.name)
    q = Hex(m, f, fl, im, sz, ba)
    q.A = ai.Analysis(m, f, q, max_visits=4000)
    q.A.run()
    w = fn_where(m, f)
    seen = set()
    for rule, I, text, key in q.probs:
        if key not in seen:
            seen.add(key)
            R.bad(rule, fn_where(m, f, I), text, key)
    for what, n, k in (("data records", len(q.data), "data"), ("page records", len(q.pages), "pages"), ("end-of-file records", len(q.eofs), "eof"), ("ways out", len(q.ends), "ends"), ("bytes read", q.reads, "reads")):
        R.check(n > 0, "form", w, "%s are analysed" % what, "there are no %s" % what, "no " + k)
    for rule, text, n in (("covered", "the next byte of the image, which exists, is what is read", q.reads), ("digits", "the two digits of each byte go behind each other", 2 * len(q.bufs)),
                          ("count", "the count is that of the bytes", len(q.data)), ("sum", "the bytes add up to zero", len(q.data) + len(q.pages) + len(q.eofs)),
                          ("address", "the address follows", len(q.data)), ("ended", "one end-of-file record, last", len(q.ends)), ("form", "a well-formed record", len(q.data) + len(q.pages) + len(q.eofs))):
        if not any(p[0] == rule for p in q.probs):
            for i in range(n):
                R.ok(rule, "%s: %s" % (w, text))
    R.need("covered", 1)
    R.need("sum", 3)


def core_broken(t):
    import ir
    return ir.AnalysisBroken(t)


CHECKS = {
    "O03": (check_O03, "proof", ["fprintf prints %02X and %04X of an unsigned number in at least two and four capital digits", "an image has at most %d bytes (O04)" % MAXIMAGE]),
}
