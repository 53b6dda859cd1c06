"""O07: the symbol file."""
import ai
from ai import C
from util import G, P, fn_where
from rules_out import cstr_of

LINE = "%s = $%.4X\n"


def field(e):
    """(base, [offsets]) of a value that is read through a chain of pointers."""
    offs = []
    while e[0] == "x" and e[1][0] == "ld":
        b, o = ai.split(e[1][1])
        offs.append(o)
        e = b
    return e, offs[::-1]


class Enum(ai.Rule):
    """hash_enum: the callback is called once with every entry."""

    def __init__(self, f):
        self.f, self.probs, self.calls, self.ends = f, [], 0, 0

    def init(self, A, st):
        st.ts = (None, "none")      # the iterator, where it is

    def bad(self, A, text):
        if A.reporting:
            self.probs.append(text)

    def deref(self, e):
        return e[0] == "x" and e[1][0] == "call" and e[1][3] in ("operator->", "operator*")

    def call(self, A, st, I, n, args):
        if n is None:
            # the callback
            e, offs = field(args[0])
            if A.reporting:
                self.calls += 1
            if not (self.deref(e) and offs == [8] and self.at == e and args[1] == P(2)):
                self.bad(A, "the callback is not given the entry the iteration is at")
            if st.ts[1] != "at":
                self.bad(A, "an entry can be handed out twice, or after the last one")
            A.default_call(st, I, n, args)
            st.ts = (st.ts[0], "done")
            return [(st, None)]
        if n in ("begin", "cbegin"):
            A.default_call(st, I, n, args)
            st.ts = (None, "at" if args[0] == P(0) else "elsewhere")
            return [(st, st.env.get(I.res) if I.res else None)]
        if n in ("operator->", "operator*"):
            A.default_call(st, I, n, args)
            self.at = st.env[I.res]
            return [(st, st.env[I.res])]
        if n == "operator++":
            if st.ts[1] != "done":
                self.bad(A, "an entry can be passed over")
            A.default_call(st, I, n, args)
            st.ts = (None, "at")
            return [(st, st.env.get(I.res) if I.res else None)]
        if n in ("operator!=", "operator=="):
            A.default_call(st, I, n, args)
            s = st.copy()
            s.ts = (None, "end" if st.ts[1] == "at" else st.ts[1])
            ne = n == "operator!="
            return [(st, C(1 if ne else 0)), (s, C(0 if ne else 1))]
        if n not in ("end", "cend") and not (n or "").startswith("llvm."):
            self.bad(A, "the iteration is not simply from the first entry to the last (%s)" % n)
        return None

    def ret(self, A, st, I, v):
        if A.reporting:
            self.ends += 1
            if st.ts[1] != "end":
                self.probs.append("the iteration can stop before the last entry")


class Insert(ai.Rule):
    def __init__(self, data, nxt):
        self.data, self.nxt, self.outs = data, nxt, []

    def init(self, A, st):
        st.ts = (False, False, False)       # data, successor, hung

    def store(self, A, st, I, addr, v):
        b, o = ai.split(addr)
        new = lambda e: e[0] == "x" and e[1][0] == "call" and e[1][3] == "malloc"
        if new(b) and o == self.data:
            st.ts = (v == P(1),) + st.ts[1:]
        elif new(b) and o == self.nxt:
            st.ts = st.ts[:1] + (field(v) == (P(0), [self.nxt]),) + st.ts[2:]
        elif b == P(0) and o == self.nxt:
            st.ts = st.ts[:2] + (new(v),)
        elif addr[0] != "al":
            st.ts = (False, False, False)

    def ret(self, A, st, I, v):
        if A.reporting:
            self.outs.append(all(st.ts))


class Entry(ai.Rule):
    """A callback of the enumeration: puts one entry with the record's name and value into the list."""

    def __init__(self, m, f, rec, lab, nxt):
        self.m, self.f, self.rec, self.lab, self.nxt, self.probs, self.ins, self.ends = m, f, rec, lab, nxt, [], 0, []

    def init(self, A, st):
        st.ts = (0, None)       # entries made, where the value of the contents is
        A.constrain(st, P(0), ((1, (1 << 63) - 1),))
        A.constrain(st, P(1), ((1, (1 << 63) - 1),))

    def bad(self, A, I, text, key):
        if A.reporting:
            self.probs.append((I, text, key))

    def call(self, A, st, I, n, args):
        if n == "parse_num" and "contents" in self.rec:
            A.default_call(st, I, n, args)
            s = st.copy()
            out = [(s, C(0))]
            leaf = ("x", ("numval",), 32)
            if field(args[0]) == (P(0), [self.rec["contents"][0]]) and args[1][0] == "al":
                st.mem[ai.split(args[1])] = (leaf, 4)
                st.ts = (st.ts[0], args[1])
                out.append((st, C(1)))
            return out
        if n == "list_insert":
            if A.reporting:
                self.ins += 1
            v = args[1]
            name = A.load_expr(st, ai.add(64, v, self.lab["name"][0]), 8, 64)
            val = A.load_expr(st, ai.add(64, v, self.lab["value"][0]), 4, 32)
            if name[0] == "x" and name[1][0] == "call" and name[1][3] in ("strdup", "__strdup"):
                name = self.dup.get(name, name)
            if field(name) != (P(0), [self.rec["name"][0]]):
                self.bad(A, I, "an entry does not carry the name of the symbol", "name")
            want = field(val) == (P(0), [self.rec["value"][0]]) if "value" in self.rec else val == ("x", ("numval",), 32)
            if not want:
                self.bad(A, I, "an entry does not carry the value of the symbol", "value")
            S = A.iset(st, args[0])
            if not S or S[0][0] <= 0 <= S[-1][1] and any(a <= 0 <= b for a, b in S):
                self.bad(A, I, "an entry can be lost: there may be nothing to hang it to", "lost")
            b, o = field(args[0])
            if args[0] != P(1) and not self.inlist(A, args[0], st):
                self.bad(A, I, "an entry is not hung into the list", "elsewhere")
            A.default_call(st, I, n, args)
            st.ts = (st.ts[0] + 1,) + st.ts[1:]
            return [(st, st.env.get(I.res) if I.res else None)]
        if (n or "").startswith("llvm.memcpy") and args[1] == P(0):
            # a copy of the whole record
            src = {k: A.load_expr(st, ai.add(64, P(0), o[0]), w // 8, w) for k, o, w in (("name", self.rec["name"], 64),) + ((("value", self.rec["value"], 32),) if "value" in self.rec else ())}
            A.default_call(st, I, n, args)
            for k, v in src.items():
                st.mem[ai.split(ai.add(64, args[0], self.lab[k][0]))] = (v, 8 if k == "name" else 4)
            return [(st, None)]
        if n in ("strdup", "__strdup"):
            A.default_call(st, I, n, args)
            self.dup = getattr(self, "dup", {})
            self.dup[st.env[I.res]] = args[0]
            return [(st, st.env[I.res])]
        return None

    def inlist(self, A, e, st):
        """The node comes from the list: every source of the cursor is the list or a successor in it."""
        seen, work = set(), [o for o in [None] if False]
        regs = [r for r, x in st.env.items() if x == e]
        for r in regs:
            if self.chain(r, set()):
                return True
        return False

    def chain(self, r, seen):
        if r in seen:
            return True
        seen.add(r)
        if r == self.f.params[1][0]:
            return True
        d = self.f.defs.get(r)
        if d is None:
            return False
        if d.op == "phi":
            return all(o[0] == "v" and self.chain(o[1], seen) for o in d.ops)
        if d.op == "load":
            a = d.ops[0]
            g = self.f.defs.get(a[1]) if a[0] == "v" else None
            if g is not None and g.op == "gep" and g.ops[0][0] == "v":
                return self.chain(g.ops[0][1], seen)
            return a[0] == "v" and self.chain(a[1], seen)
        if d.op in ("bitcast", "freeze"):
            return self.chain(d.ops[0][1], seen)
        return False

    def ret(self, A, st, I, v):
        if A.reporting:
            self.ends.append((I, st.ts, dict(st.cons), st))


class Write(ai.Rule):
    """write_labels: every entry is listed, and every entry of the list written."""

    def __init__(self, m, f, data, nxt, lab):
        self.m, self.f, self.data, self.nxt, self.lab = m, f, data, nxt, lab
        self.enums, self.probs, self.rounds, self.lines, self.ends = [], [], [], 0, []

    def init(self, A, st):
        st.ts = (False, 0, (), None, False)     # opened, lines in this round, what was enumerated, list, all written
        self.cursor = {}
        for h in A.loops:
            for I in self.f.bmap[h].ins:
                if I.op == "phi" and I.ty.k == "ptr":
                    self.cursor[h] = I.res

    def bad(self, A, I, text, key):
        if A.reporting:
            self.probs.append((I, text, key))

    def call(self, A, st, I, n, args):
        if n == "fopen":
            A.default_call(st, I, n, args)
            s = st.copy()
            st.ts = (True,) + st.ts[1:]
            return [(s, C(0))] + ([(st, st.env[I.res])] if A.constrain(st, st.env[I.res], ((1, (1 << 63) - 1),)) else [])
        if n == "hash_enum":
            t, cb = args[0], args[1]
            e, offs = field(t)
            name = e[1] if e[0] == "g" and offs == [0] else None
            fn = cb[1] if cb[0] in ("g", "f") else None
            if A.reporting:
                self.enums.append((I, name, fn, args[2], st.ts))
            A.default_call(st, I, n, args)
            st.ts = st.ts[:2] + (st.ts[2] + ((name, fn, args[2]),),) + st.ts[3:]
            return [(st, None)]
        if n in ("fprintf", "fputs", "fputc", "fwrite") and st.ts[0]:
            if n != "fprintf" or cstr_of(self.m, args[1]) != LINE:
                self.bad(A, I, "a line of the symbol file does not have the form NAME = $VALUE", "form")
                return None
            if A.reporting:
                self.lines += 1
            nb, no = field(args[2])
            vb, vo = field(args[3])
            ok = no == [self.data, self.lab["name"][0]] and vo == [self.data, self.lab["value"][0]] and nb == vb
            node = [st.env.get(r) for h, r in self.cursor.items() if I.bb.name in A.loops[h] or I.bb.name == h]
            if not ok or nb not in node:
                self.bad(A, I, "a line does not carry the name and the value of the entry it is for", "line")
            A.default_call(st, I, n, args)
            st.ts = st.ts[:1] + (min(st.ts[1] + 1, 2),) + st.ts[2:]
            return [(st, None)]
        return None

    def edge(self, A, st, src, dst):
        for h, r in self.cursor.items():
            body = A.loops[h]
            if dst == h and src not in body:
                # into the loop: from the first entry of the list
                d = self.f.defs[r]
                o = [o for o, b in zip(d.ops, d.x) if b == src]
                e = A.val(st, o[0]) if o else None
                lists = {x[2] for x in st.ts[2]}
                if len(lists) == 1 and e is not None and st.ts[0]:
                    l = next(iter(lists))
                    at = e[0] == "x" and e[1][0] == "ld" and e[1][1] == ai.add(64, l, self.nxt)
                    st.ts = st.ts[:1] + (0,) + st.ts[2:3] + ("walk" if at else st.ts[3],) + st.ts[4:]
            elif src in body and dst not in body and dst != h and st.ts[3] == "walk":
                c = st.env.get(r)
                S = A.iset(st, c) if c is not None else None
                st.ts = st.ts[:3] + ("end" if S == ((0, 0),) and st.ts[1] == 0 else "early", st.ts[4])
        return True

    def back(self, A, st, src, dst):
        r = self.cursor.get(dst)
        if r is None or st.ts[3] != "walk":
            return
        d = self.f.defs[r]
        o = [o for o, b in zip(d.ops, d.x) if b == src]
        n, c = (A.val(st, o[0]) if o else None), self.prev(A, st, r)
        if A.reporting:
            d = field(n) if n is not None else None
            self.rounds.append((st.ts[1], d is not None and d[1] == [self.nxt], src))
        st.ts = st.ts[:1] + (0,) + st.ts[2:]

    def prev(self, A, st, r):
        return st.env.get(r)

    def ret(self, A, st, I, v):
        if A.reporting:
            self.ends.append((I, st.ts))


def check_O07(m, R):
    L = m.struct_fields("list_t")
    lab, dfn = m.struct_fields("label"), m.struct_fields("define")
    data, nxt = L["data"][0], L["next"][0]
    f = m.fn("hash_enum")
    q = Enum(f)
    ai.Analysis(m, f, q, max_visits=2000).run()
    w = fn_where(m, f)
    R.check(q.calls > 0 and q.ends > 0, "every", w, "hash_enum hands out entries", "hash_enum hands out nothing", "enum nothing")
    for t in sorted(set(q.probs)):
        R.bad("every", w, t, "enum " + t)
    f = m.fn("list_insert")
    q = Insert(data, nxt)
    ai.Analysis(m, f, q).run()
    R.check(bool(q.outs) and all(q.outs), "listed", fn_where(m, f), "list_insert puts the entry behind the given one and loses nothing",
            "list_insert does not put the entry behind the given one, or loses what followed", "list_insert")
    f = m.fn("write_labels")
    q = Write(m, f, data, nxt, lab)
    q.A = ai.Analysis(m, f, q, max_visits=3000)
    q.A.run()
    w = fn_where(m, f)
    for I, text, key in q.probs:
        R.bad("line", fn_where(m, f, I), text, key)
    R.check(q.lines > 0, "line", w, "lines are written", "no line is written", "no line")
    R.check(bool(q.rounds) and all(k == 1 and n for k, n, s in q.rounds), "line", w, "every entry of the list gets one line, then comes the next entry",
            "an entry of the list gets no line, or more than one, or the walk skips entries", "rounds")
    # what symbols are looked up in
    g = m.fn("search_labels")
    table = set()
    for I in g.instrs():
        if I.op == "call" and m.callee_name(I) == "hash_lookup" and I.ops[0][0] == "v":
            d = g.defs.get(I.ops[0][1])
            if d is not None and d.op == "load" and d.ops[0][0] == "g":
                table.add(d.ops[0][1])
    R.check(len(table) == 1, "every", fn_where(m, g), "symbols are looked up in one table", "symbols are looked up in %d tables" % len(table), "tables")
    cbs = set()
    opened = [(I, ts) for I, ts in q.ends if ts[0]]
    R.check(bool(opened), "every", w, "the file can be opened", "the file is never opened", "opened")
    for I, ts in opened:
        labs = [x for x in ts[2] if x[0] in table]
        R.check(len(labs) == 1, "every", fn_where(m, f, I), "the table of symbols is enumerated once", "the table of symbols is enumerated %d times" % len(labs), "once")
        R.check(ts[3] == "end", "every", fn_where(m, f, I), "the whole list is written", "the list of symbols is not written to its end", "end")
        R.check(len({x[2] for x in ts[2]}) <= 1, "every", fn_where(m, f, I), "everything goes into one list", "symbols go into a list that is not written", "one list")
        for x in ts[2]:
            cbs.add((x[1], "label" if x[0] in table else "define"))
    for fn, kind in sorted(cbs, key=str):
        g = next((x for x in m.own if x.sym == fn), None)
        if g is None:
            R.bad("listed", w, "the table is enumerated with an unknown function", "callback %s" % kind)
            continue
        rec = lab if kind == "label" else dfn
        r = Entry(m, g, rec, lab, nxt)
        ai.Analysis(m, g, r, max_visits=2000).run()
        seen = set()
        for I, text, key in r.probs:
            if key not in seen:
                seen.add(key)
                R.bad("listed", fn_where(m, g, I), text, "%s %s" % (fn, key))
        R.check(r.ins > 0, "listed", fn_where(m, g), "%s makes entries" % fn, "%s makes no entries" % fn, fn + " none")
        for I, ts, cons, st in r.ends:
            if kind == "label":
                R.check(ts[0] == 1, "listed", fn_where(m, g, I), "one entry for the symbol", "%d entries are made for a symbol" % ts[0], fn + " count")
            else:
                R.check(ts[0] == (1 if ts[1] is not None else 0), "listed", fn_where(m, g, I), "one entry for a definition that is a number",
                        "%d entries for a definition that is%s a number" % (ts[0], "" if ts[1] is not None else " not"), fn + " count")
    R.need("every", 5)
    R.need("listed", 4)
    R.need("line", 2)


CHECKS = {
    "O07": (check_O07, "proof", ["std::map iterates over each of its elements once (C++ library)", "malloc does not fail"]),
}
