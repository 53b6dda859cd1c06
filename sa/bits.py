"""Bit-level normal form of expressions: two expressions with the same normal form denote the same low n bits."""
import ai


def mk(e, n, rng=None, memo=None):
    """Low n bits of e, least significant first.  rng(e) -> interval set or None (facts of the current state)."""
    memo = {} if memo is None else memo
    k = (e, n)
    r = memo.get(k)
    if r is None:
        r = memo[k] = _mk(e, n, rng, memo)
        if rng is not None and e[0] != "c":
            S = rng(e)
            if S and S[0][0] >= 0:
                hi = S[-1][1].bit_length()
                if hi < n:
                    r = memo[k] = r[:hi] + (0,) * (n - hi)
    return r


def _const(v, n):
    return tuple((v >> i) & 1 for i in range(n))


def _neg(b):
    if b in (0, 1):
        return 1 - b
    if b[0] == "not":
        return b[1]
    return ("not", b)


def _bop(op, x, y):
    if op == "and":
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1 or x == y:
            return x
    elif op == "or":
        if x == 1 or y == 1:
            return 1
        if x == 0:
            return y
        if y == 0 or x == y:
            return x
    else:
        if x == y:
            return 0
        if x == 0:
            return y
        if y == 0:
            return x
        if x == 1:
            return _neg(y)
        if y == 1:
            return _neg(x)
    a, b = sorted((x, y), key=repr)
    return (op, a, b)


def lin(e, n, rng, memo, scale=1, acc=None):
    """e mod 2^n as {bits: coefficient} + constant."""
    if acc is None:
        acc = [0, {}]
    m = (1 << n) - 1
    k = e[0]
    if k == "c":
        acc[0] = (acc[0] + scale * e[1]) & m
    elif k == "+":
        lin(e[2], n, rng, memo, scale, acc)
        acc[0] = (acc[0] + scale * e[3]) & m
    elif k == "op" and e[1] in ("add", "sub") and e[2] >= n:
        lin(e[3], n, rng, memo, scale, acc)
        lin(e[4], n, rng, memo, scale if e[1] == "add" else -scale, acc)
    elif k == "op" and e[1] == "mul" and e[4][0] == "c" and e[2] >= n:
        lin(e[3], n, rng, memo, scale * e[4][1], acc)
    elif k == "op" and e[1] == "xor" and e[4] == ("c", -1) and e[2] >= n:
        lin(e[3], n, rng, memo, -scale, acc)
        acc[0] = (acc[0] - scale) & m
    elif k == "cast" and e[1] == "trunc" and e[2] >= n:
        lin(e[3], n, rng, memo, scale, acc)
    elif k == "cast" and e[1] in ("zext", "sext") and e[4] >= n:
        lin(e[3], n, rng, memo, scale, acc)
    else:
        b = mk(e, n, rng, memo)
        z = next((i for i, x in enumerate(b) if x != 0), 0)
        if z and isinstance(b[z], tuple) and b[z][0] == "b" and b[z][2] == 0:
            # a value shifted left: the value times a power of two; of the bits shifted out any will do
            x, w = b[z][1], 1 if b[z][1][0] == "cmp" else ai.width(b[z][1])
            if b[z:] == tuple(("b", x, min(i, w - 1)) for i in range(n - z)):
                b = tuple(("b", x, min(i, w - 1)) for i in range(n))
                scale = scale << z
        if all(x in (0, 1) for x in b):
            acc[0] = (acc[0] + scale * sum(v << i for i, v in enumerate(b))) & m
        else:
            acc[1][b] = (acc[1].get(b, 0) + scale) & m
            if acc[1][b] == 0:
                del acc[1][b]
    return acc


def _mk(e, n, rng, memo):
    k = e[0]
    if k == "c":
        return _const(e[1], n)
    if k == "x":
        w = e[2]
        return tuple(("b", e, i) if i < w else ("b", e, w - 1) for i in range(n))
    if k == "cast":
        op, w, a, sw = e[1:]
        if op == "trunc":
            b = mk(a, min(n, w), rng, memo)
            return b + (b[-1],) * (n - len(b))
        if n <= sw:
            return mk(a, n, rng, memo)
        b = mk(a, sw, rng, memo)
        return b + ((0,) if op == "zext" else (b[-1],)) * (n - sw)
    if k == "cmp":
        return (("b", e, 0),) + (0,) * (n - 1)
    if k == "sel":
        return tuple(("b", e, i) for i in range(n))
    if k in ("+",) or (k == "op" and e[1] in ("add", "sub", "mul")):
        if k == "op" and e[1] == "mul":
            c = e[4]
            if c[0] == "c" and c[1] > 0 and c[1] & (c[1] - 1) == 0:
                s = c[1].bit_length() - 1
                return ((0,) * s + mk(e[3], n, rng, memo))[:n]
            if c[0] != "c":
                return tuple(("b", e, i) for i in range(n))
        out = []
        # bit i of a sum depends on the low i+1 bits only
        full = lin(e, n, rng, memo)
        terms, c = {}, full[0]
        for b, v in full[1].items():
            z = (v & -v).bit_length() - 1
            b, v = ((0,) * z + b)[:n], v >> z
            terms[b] = terms.get(b, 0) + v
        if not terms:
            return _const(c, n)
        if len(terms) == 1 and c == 0:
            (b, co), = terms.items()
            if co == 1:
                return b
        # disjoint bits: a sum is an or
        if all(v == 1 for v in terms.values()):
            cols = [list(x) for x in terms] + [list(_const(c, n))]
            if all(sum(1 for col in cols if col[i] != 0) <= 1 for i in range(n)):
                return tuple(next((col[i] for col in cols if col[i] != 0), 0) for i in range(n))
        for i in range(n):
            m = (1 << (i + 1)) - 1
            key = {}
            for b, v in terms.items():
                bb = b[:i + 1]
                if all(x in (0, 1) for x in bb):
                    continue
                key[bb] = (key.get(bb, 0) + v) & m
            cc = c
            for b, v in terms.items():
                bb = b[:i + 1]
                if all(x in (0, 1) for x in bb):
                    cc += v * sum(x << j for j, x in enumerate(bb))
            cc &= m
            key = tuple(sorted(((b, v) for b, v in key.items() if v), key=repr))
            if not key:
                out.append((cc >> i) & 1)
            elif len(key) == 1 and cc == 0 and key[0][1] == 1:
                out.append(key[0][0][i])
            else:
                out.append(("lin", key, cc, i))
        return tuple(out)
    if k == "op":
        op, w, a, b = e[1:]
        if op in ("and", "or", "xor"):
            x, y = mk(a, n, rng, memo), mk(b, n, rng, memo)
            return tuple(_bop(op, p, q) for p, q in zip(x, y))
        if b[0] == "c" and 0 <= b[1] < w and op in ("lshr", "ashr", "shl"):
            s = b[1]
            if op == "shl":
                return ((0,) * s + mk(a, n, rng, memo))[:n]
            full = mk(a, w, rng, memo)
            fill = 0 if op == "lshr" else full[-1]
            r = full[s:] + (fill,) * s
            return (r + (r[-1],) * n)[:n] if n > len(r) else r[:n]
        if b[0] == "c" and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            s = b[1].bit_length() - 1
            nonneg = op in ("udiv", "urem")
            if not nonneg and rng is not None:
                S = rng(a)
                nonneg = bool(S) and S[0][0] >= 0
            if nonneg and op in ("udiv", "sdiv"):
                full = mk(a, w, rng, memo)
                return ((full[s:] + (0,) * (s + n))[:n])
            if nonneg and op in ("urem", "srem"):
                return (mk(a, min(s, n), rng, memo) + (0,) * n)[:n]
        return tuple(("b", e, i) for i in range(n))
    return tuple(("b", e, i) for i in range(n))


def equal(a, b, n, rng=None):
    memo = {}
    return mk(a, n, rng, memo) == mk(b, n, rng, memo)


def linkey(e, n, rng=None):
    """Linear normal form mod 2^n: (constant, frozenset of (bits, coefficient))."""
    c, t = lin(e, n, rng, {})
    return c, frozenset(t.items())


def range_of(A, st, e, w=32):
    """Interval set of e, also using facts recorded for any expression that is e plus/minus a constant."""
    S = A.iset(st, e)
    kc, kt = linkey(e, w)
    half = 1 << (w - 1)
    neg = frozenset((b, (-v) & ((1 << w) - 1)) for b, v in kt)
    for x, X in st.cons.items():
        if x[0] in ("cmp", "g", "al") or ai.width(x) != w:
            continue
        c, t = linkey(x, w)
        if t == kt:
            d = kc - c
            d = (d + half) % (1 << w) - half
            S = ai.iinter(S, shiftmod(X, d, w))
        elif t == neg:
            # e == -x + (kc + c)
            d = (kc + c + half) % (1 << w) - half
            S = ai.iinter(S, shiftmod(ai.iv(*[(-hi, -lo) for lo, hi in X]), d, w))
    return S


def shiftmod(X, d, w):
    half = 1 << (w - 1)
    out = []
    for lo, hi in X:
        lo, hi = lo + d, hi + d
        # fold into [-half, half)
        while lo >= half:
            lo, hi = lo - 2 * half, hi - 2 * half
        while hi < -half:
            lo, hi = lo + 2 * half, hi + 2 * half
        if lo < -half:
            out.append((lo + 2 * half, half - 1))
            lo = -half
        if hi >= half:
            out.append((-half, hi - 2 * half))
            hi = half - 1
        out.append((lo, hi))
    return ai.iv(*out)


def show(e):
    k = e[0]
    if k == "c":
        return str(e[1])
    if k == "x":
        t = e[1]
        if t[0] == "ld":
            return "[" + show(t[1]) + "]"
        return ".".join(str(x) for x in t if not isinstance(x, tuple))
    if k == "g":
        return e[1] + ("+%d" % e[2] if e[2] else "")
    if k == "al":
        return "&" + e[1] + ("+%d" % e[2] if e[2] else "")
    if k == "+":
        return "(%s%+d)" % (show(e[2]), e[3])
    if k == "op":
        sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "ashr": ">>", "lshr": ">>>"}
        return "(%s %s %s)" % (show(e[3]), sym.get(e[1], e[1]), show(e[4]))
    if k == "cmp":
        return "(%s %s %s)" % (show(e[3]), e[1], show(e[4]))
    if k == "cast":
        return show(e[3])
    if k == "sel":
        return "sel(..)"
    return "?"


def bitval(b, known, memo=None):
    """Value of one bit of a normal form where known(e) gives the value of an expression or None; None: undetermined."""
    if b in (0, 1):
        return b
    memo = {} if memo is None else memo
    if b in memo:
        return memo[b]
    memo[b] = r = _bitval(b, known, memo)
    return r


def _bitval(b, known, memo):
    if b[0] == "not":
        v = bitval(b[1], known, memo)
        return None if v is None else 1 - v
    if b[0] == "b":
        v = known(b[1])
        return None if v is None else (v >> b[2]) & 1
    if b[0] in ("and", "or", "xor"):
        x, y = bitval(b[1], known, memo), bitval(b[2], known, memo)
        if b[0] == "and" and 0 in (x, y):
            return 0
        if b[0] == "or" and 1 in (x, y):
            return 1
        if x is None or y is None:
            return None
        return {"and": x & y, "or": x | y, "xor": x ^ y}[b[0]]
    if b[0] == "lin":
        v = b[2]
        for bs, k in b[1]:
            x = value(bs, known, memo)
            if x is None:
                return None
            v += k * x
        return (v >> b[3]) & 1
    return None


def value(bs, known, memo=None):
    """Value of a tuple of bits, or None."""
    memo = {} if memo is None else memo
    r = 0
    for i, b in enumerate(bs):
        v = bitval(b, known, memo)
        if v is None:
            return None
        r |= v << i
    return r
