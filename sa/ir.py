"""Front end: compiles /repo's build (the sources and -D flags `make -n` names) to LLVM IR,
links it, normalises it (SROA, simplifycfg, inlining of helpers unknown to known_functions.txt)
and parses the textual IR into Python objects.  Nothing of /repo is executed."""
import os, re, subprocess, sys, tempfile, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")


STD_RE = re.compile(r"_ZN?K?(St|Sa|Ss|9__gnu_cxx|10__cxxabi)|_ZN?K?S[^t]|_ZSt|__clang|_ZdlPv|_Znw|_GLOBAL_|__cxx")


class AnalysisBroken(Exception):
    """The tool cannot decide (anchor vanished, unparsable input): an error exit, not a verdict."""


def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
        q = "/usr/lib/llvm-18/bin/" + n
        if os.path.exists(q):
            return q
    raise AnalysisBroken("tool not found: " + "/".join(names))


def run(cmd, cwd=None, ok=True):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if ok and p.returncode != 0:
        raise AnalysisBroken("%s failed: %s" % (cmd[0], p.stderr.decode(errors="replace")[-2000:]))
    return p


def build_units(repo=None):
    """[(source, [flags])] as the project's own Makefile compiles them."""
    repo = repo or REPO
    env = dict(os.environ, FORCE_NO_GIT="1", LC_ALL="C")
    for k in ("CXXFLAGS", "LDFLAGS", "CROSS_COMPILE", "NO_APPSIGN", "MAKEFLAGS", "OS"):
        env.pop(k, None)
    p = subprocess.run(["make", "-n", "-B", "spasm"], cwd=repo, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    units = []
    for line in p.stdout.decode(errors="replace").splitlines():
        w = line.split()
        srcs = [x for x in w if x.endswith(".cpp")]
        if "-c" in w and len(srcs) == 1:
            flags = [x for x in w if x.startswith(("-D", "-U", "-I", "-std"))]
            units.append((srcs[0], flags))
    if len(units) < 10:
        raise AnalysisBroken("make -n names %d compile lines only" % len(units))
    return units


def compile_ir(workdir, opt=True, repo=None):
    repo = repo or REPO
    clang = tool("clang++-18", "clang++")
    units = build_units(repo)

    def one(u):
        src, flags = u
        out = os.path.join(workdir, os.path.basename(src)[:-4] + ".ll")
        run([clang, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w", "-fno-exceptions",
             "-fno-discard-value-names", "-ffile-compilation-dir=.", "-S", "-emit-llvm"] + flags +
            [os.path.join(repo, src), "-o", out])
        return out
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(one, units))
    known = set(open(os.path.join(HERE, "known_functions.txt")).read().split()) \
        if os.path.exists(os.path.join(HERE, "known_functions.txt")) else None
    linked = os.path.join(workdir, "all_linked.ll")
    run([tool("llvm-link-18", "llvm-link"), "-S"] + lls + ["-o", linked])
    inlined = []
    if known is not None:
        # helpers this project did not have when the rules were written are folded into their callers
        txt = open(linked).read()

        # attribute edit: append alwaysinline before the attribute group reference
        out = []
        for line in txt.split("\n"):
            if line.startswith("define "):
                m = re.search(r"@(\"[^\"]*\"|[\w.$]+)\(", line)
                name = m.group(1).strip('"')
                base = re.sub(r"\.\d+$", "", name)
                head = line[:m.start()]
                if not (name in known or base in known or STD_RE.match(name) or
                        "available_externally" in head):
                    inlined.append(name)
                    # after the parameter list's closing paren
                    i = m.end() - 1
                    depth = 0
                    while True:
                        c = line[i]
                        if c == "(":
                            depth += 1
                        elif c == ")":
                            depth -= 1
                            if depth == 0:
                                break
                        i += 1
                    line = line[:i + 1] + " alwaysinline" + line[i + 1:]
                    h = line[len("define "):]
                    for w in ("dso_local ", "internal ", "linkonce_odr ", "linkonce ", "weak_odr ", "weak ", "dso_local "):
                        if h.startswith(w):
                            h = h[len(w):]
                    line = "define internal " + h
            out.append(line)
        if inlined:
            open(linked, "w").write("\n".join(out))
    res = linked
    if opt:
        res = os.path.join(workdir, "all_opt.ll")
        passes = "always-inline,sroa" + (",globaldce" if inlined else "")
        run([tool("opt-18", "opt"), "-S", "-passes=" + passes, linked, "-o", res])
    return res, units, inlined


# ------------------------------------------------------------------ types
class T:
    __slots__ = ("k", "n", "e", "name", "packed")

    def __init__(self, k, n=0, e=None, name=None, packed=False):
        self.k, self.n, self.e, self.name, self.packed = k, n, e, name, packed

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.e)
        if self.k == "named":
            return "%" + self.name
        if self.k == "st":
            return "{%s}" % ", ".join(map(repr, self.e))
        return self.k


I1, I8, I32, I64, PTR = T("i", 1), T("i", 8), T("i", 32), T("i", 64), T("ptr")

TOK = re.compile(r'''\s*(?:
  (?P<cstr>c"(?:[^"\\]|\\.)*")|
  (?P<str>"(?:[^"\\]|\\.)*")|
  (?P<loc>%(?:"[^"]*"|[-\w.$]+))|
  (?P<glob>@(?:"[^"]*"|[-\w.$]+))|
  (?P<md>!(?:"(?:[^"\\]|\\.)*"|[\w.]*))|
  (?P<attr>\#\d+)|
  (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)(?![\w.])|
  (?P<hex>0x[0-9A-Fa-fKLMHR]+)|
  (?P<dots>\.\.\.)|
  (?P<id>[A-Za-z_][\w.$-]*)|
  (?P<p>[][(){}<>,=*:|])
)''', re.X)


class Toks:
    def __init__(self, s):
        self.t = []
        pos = 0
        n = len(s)
        while pos < n:
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == "":
                    break
                raise AnalysisBroken("IR lexer stuck at: " + s[pos:pos + 80])
            k = m.lastgroup
            self.t.append((k, m.group(k)))
            pos = m.end()
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise AnalysisBroken("IR parser: expected %r at %r" % (v, [x[1] for x in self.t[self.i:self.i + 8]]))

    def end(self):
        return self.i >= len(self.t)


def unq(s):
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s


def parse_type(tk):
    v = tk.next()
    if v == "ptr":
        t = PTR
        if tk.peek() == "addrspace":
            tk.next(); tk.expect("("); tk.next(); tk.expect(")")
    elif re.fullmatch(r"i\d+", v):
        n = int(v[1:])
        t = {1: I1, 8: I8, 32: I32, 64: I64}.get(n) or T("i", n)
    elif v == "[":
        n = int(tk.next()); tk.expect("x")
        e = parse_type(tk); tk.expect("]")
        t = T("arr", n, e)
    elif v == "{":
        es = []
        if not tk.eat("}"):
            while True:
                es.append(parse_type(tk))
                if tk.eat("}"):
                    break
                tk.expect(",")
        t = T("st", 0, es)
    elif v == "<":
        if tk.eat("{"):
            es = []
            if not tk.eat("}"):
                while True:
                    es.append(parse_type(tk))
                    if tk.eat("}"):
                        break
                    tk.expect(",")
            tk.expect(">")
            t = T("st", 0, es, packed=True)
        else:
            n = int(tk.next()); tk.expect("x")
            e = parse_type(tk); tk.expect(">")
            t = T("vec", n, e)
    elif v.startswith("%"):
        t = T("named", name=unq(v))
    elif v in ("void", "float", "double", "x86_fp80", "label", "metadata", "token", "opaque", "half", "fp128"):
        t = T(v)
    else:
        raise AnalysisBroken("IR parser: unknown type token %r" % v)
    while tk.peek() == "(":   # function type
        tk.next()
        ps, va = [], False
        if not tk.eat(")"):
            while True:
                if tk.eat("..."):
                    va = True
                else:
                    ps.append(parse_type(tk))
                if tk.eat(")"):
                    break
                tk.expect(",")
        t = T("fn", 1 if va else 0, [t] + ps)
    return t


def cstr_bytes(s):
    s = s[2:-1]
    return unesc(s)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode("utf8"); i += 1
    return bytes(out)


CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp",
         "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
FLAGS = {"nsw", "nuw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
         "reassoc", "inrange"}


def parse_value(tk, ty):
    """A value of known type -> tuple."""
    k, v = tk.kind(), tk.peek()
    if k == "loc":
        tk.next(); return ("v", unq(v))
    if k == "glob":
        tk.next(); return ("g", unq(v))
    if k == "num":
        tk.next()
        if ty.k in ("float", "double", "x86_fp80"):
            return ("f", v)
        return ("c", int(v))
    if k == "hex":
        tk.next(); return ("f", v)
    if k == "cstr":
        tk.next(); return ("bytes", cstr_bytes(v))
    if k == "md":
        # metadata operand
        tk.next(); return ("md", v)
    if v == "true":
        tk.next(); return ("c", 1)
    if v == "false":
        tk.next(); return ("c", 0)
    if v == "null":
        tk.next(); return ("null",)
    if v in ("undef", "poison"):
        tk.next(); return ("undef",)
    if v == "zeroinitializer":
        tk.next(); return ("zero",)
    if v == "none":
        tk.next(); return ("none",)
    if v == "[":
        tk.next()
        es = []
        if not tk.eat("]"):
            while True:
                t = parse_type(tk)
                es.append(parse_value(tk, t))
                if tk.eat("]"):
                    break
                tk.expect(",")
        return ("arr", tuple(es))
    if v == "{" or (v == "<" and tk.peek(1) == "{"):
        packed = tk.eat("<")
        tk.expect("{")
        es = []
        if not tk.eat("}"):
            while True:
                t = parse_type(tk)
                es.append(parse_value(tk, t))
                if tk.eat("}"):
                    break
                tk.expect(",")
        if packed:
            tk.expect(">")
        return ("st", tuple(es))
    if v == "<":
        tk.next()
        es = []
        while True:
            t = parse_type(tk)
            es.append(parse_value(tk, t))
            if tk.eat(">"):
                break
            tk.expect(",")
        return ("arr", tuple(es))
    if v == "getelementptr":
        tk.next()
        while tk.peek() in ("inbounds", "nuw", "nusw"):
            tk.next()
        tk.expect("(")
        t = parse_type(tk); tk.expect(",")
        ops = []
        while True:
            tk.eat("inrange")
            pt = parse_type(tk)
            ops.append((pt, parse_value(tk, pt)))
            if tk.eat(")"):
                break
            tk.expect(",")
        return ("cgep", t, tuple(o[1] for o in ops))
    if v in CASTS:
        op = tk.next(); tk.expect("(")
        t = parse_type(tk)
        x = parse_value(tk, t)
        tk.expect("to"); parse_type(tk); tk.expect(")")
        return x if op in ("bitcast", "addrspacecast") else ("ccast", op, x)
    if v in BINOPS:
        op = tk.next()
        while tk.peek() in FLAGS:
            tk.next()
        tk.expect("(")
        t = parse_type(tk); a = parse_value(tk, t); tk.expect(",")
        t2 = parse_type(tk); b = parse_value(tk, t2); tk.expect(")")
        return ("cbin", op, a, b)
    if v == "blockaddress" or v == "dso_local_equivalent" or v == "no_cfi":
        raise AnalysisBroken("unsupported constant " + v)
    raise AnalysisBroken("IR parser: value? %r %r" % (k, [x[1] for x in tk.t[tk.i:tk.i + 8]]))


class Instr:
    __slots__ = ("op", "res", "ty", "ops", "x", "dbg", "bb", "idx", "fn", "tys")

    def __init__(self, op, res=None, ty=None, ops=(), x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, list(ops), x
        self.dbg = None
        self.bb = None
        self.idx = 0
        self.fn = None
        self.tys = None

    @property
    def callee(self):
        return self.x if self.op == "call" else None

    def loc(self):
        return self.fn.mod.loc(self.dbg, self.fn)

    def __repr__(self):
        return "<%s %s %s %s @%s:%s>" % (self.res, self.op, self.x, self.ops, *self.loc())


class Block:
    __slots__ = ("name", "ins", "preds", "succs", "fn", "order")

    def __init__(self, name):
        self.name, self.ins, self.preds, self.succs = name, [], [], []


class Func:
    def __init__(self, mod, sym):
        self.mod, self.sym = mod, sym
        self.params = []       # [(name, type)]
        self.ret = None
        self.vararg = False
        self.blocks = []
        self.bmap = {}
        self.sp = None
        self.linkage = ""
        self.name = sym
        self.file = None
        self.line = 0
        self.defs = {}
        self.declared = False
        self.localnames = {}

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def calls(self, name=None):
        for i in self.instrs():
            if i.op == "call" and (name is None or self.mod.callee_name(i) == name):
                yield i

    def __repr__(self):
        return "<fn %s>" % self.name


def num2name(s):
    return s


SKIP_INTR = ("llvm.dbg.", "llvm.lifetime.", "llvm.experimental.noalias", "llvm.invariant.", "llvm.stacksave",
             "llvm.stackrestore", "llvm.donothing", "llvm.sideeffect")

PARAM_ATTRS = {"noundef", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "readnone",
               "nonnull", "returned", "inreg", "immarg", "nofree", "nest", "swiftself", "allocptr", "noext",
               "dead_on_unwind", "writable"}


def skip_param_attrs(tk):
    while True:
        v = tk.peek()
        if v in PARAM_ATTRS:
            tk.next()
        elif v in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "byref", "elementtype",
                   "preallocated", "inalloca", "captures", "range", "nofpclass", "initializes"):
            tk.next()
            if tk.eat("("):
                d = 1
                while d:
                    x = tk.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
            else:
                tk.next()
        elif tk.kind() == "str" or tk.kind() == "attr":
            tk.next()
            if tk.eat("="):
                tk.next()
        else:
            return


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}      # name -> dict(type, init, const, linkage, dbg)
        self.funcs = {}        # symbol -> Func
        self.md = {}
        self._mdcache = {}
        self.aliases = {}
        self.path = path
        self.parse(open(path, encoding="utf8", errors="surrogateescape").read())
        self.link_names()

    # ---------------- metadata
    MD_RE = re.compile(r"^!(\d+) = (distinct )?(.*)$")

    def mdfields(self, n):
        n = str(n).lstrip("!")
        if n in self._mdcache:
            return self._mdcache[n]
        s = self.md.get(n)
        if s is None:
            return None
        d = {"_raw": s}
        m = re.match(r"!(DI\w+)\((.*)\)\s*$", s)
        if m:
            d["_kind"] = m.group(1)
            for fm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|![\d]+|[^,()]+)', m.group(2)):
                v = fm.group(2)
                d[fm.group(1)] = unesc(v[1:-1]).decode("utf8", "replace") if v.startswith('"') else v
        elif s.startswith("!{"):
            d["_kind"] = "list"
            d["items"] = re.findall(r"!(\d+)|(null)", s[2:-1])
            d["items"] = [a or None for a, b in d["items"]]
        else:
            d["_kind"] = "other"
        self._mdcache[n] = d
        return d

    def loc(self, dbg, fn=None):
        """(file, line) of a !DILocation, following inlinedAt outwards only for the file of the scope."""
        if dbg is None:
            return (fn.file if fn else "?", fn.line if fn else 0)
        d = self.mdfields(dbg)
        if not d or "line" not in d:
            return (fn.file if fn else "?", 0)
        return (self.scope_file(d.get("scope")), int(d["line"]))

    def scope_file(self, sc):
        for _ in range(50):
            d = self.mdfields(sc) if sc else None
            if not d:
                return "?"
            if "file" in d:
                f = self.mdfields(d["file"])
                if f and "filename" in f:
                    return os.path.basename(f["filename"])
            sc = d.get("scope")
        return "?"

    # ---------------- top-level
    def parse(self, txt):
        lines = txt.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("!"):
                m = self.MD_RE.match(l)
                if m:
                    self.md[m.group(1)] = m.group(3)
            elif l.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
                if m:
                    tk = Toks(m.group(2))
                    self.types[unq(m.group(1))] = parse_type(tk) if m.group(2) != "opaque" else T("opaque")
            elif l.startswith("@"):
                self.parse_global(l)
            elif l.startswith("declare "):
                self.parse_fnhead(l, True)
            elif l.startswith("define "):
                j = i + 1
                body = []
                while lines[j] != "}":
                    body.append(lines[j]); j += 1
                self.parse_func(l, body)
                i = j
            i += 1

    def parse_global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', l)
        name, rest = unq(m.group(1)), m.group(2)
        if " alias " in rest[:80]:
            am = re.search(r"ptr (@(?:\"[^\"]*\"|[-\w.$]+))$", rest)
            if am:
                self.aliases[name] = unq(am.group(1))
            return
        dbg = re.search(r"!dbg !(\d+)", rest)
        rest2 = re.sub(r", !dbg !\d+", "", rest)
        rest2 = re.sub(r", ![a-z]\w* !\d+", "", rest2)
        rest2 = re.sub(r', (align \d+|comdat(\(\$[^)]*\))?|section "[^"]*"|partition "[^"]*")', "", rest2)
        km = re.match(r"(?:(?:private|internal|external|dso_local|linkonce_odr|weak|weak_odr|common|hidden|"
                      r"available_externally|appending|constant_dummy|local_unnamed_addr|unnamed_addr|extern_weak|"
                      r"thread_local(?:\([a-z]+\))?)\s+)*", rest2)
        link = km.group(0)
        rest3 = rest2[km.end():]
        const = rest3.startswith("constant ")
        rest3 = re.sub(r"^(global|constant) ", "", rest3)
        tk = Toks(rest3)
        ty = parse_type(tk)
        init = None if tk.end() else parse_value(tk, ty)
        self.globals[name] = dict(name=name, type=ty, init=init, const=const, linkage=link,
                                  dbg=dbg.group(1) if dbg else None)

    def parse_fnhead(self, l, decl):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        sym = m.group(1).strip('"')
        f = Func(self, sym)
        f.declared = decl
        head = l[:m.start()]
        f.linkage = head
        # return type: last type token(s) of head
        hm = re.sub(r"\b(dereferenceable|dereferenceable_or_null|align)\s*\(?\d+\)?", "", head)
        hm = re.sub(r"\brange\([^)]*\)", "", hm)
        hm = hm.split(None, 1)[1]
        hm = re.sub(r"!\w+ !\d+", "", hm)
        words = hm
        words = re.sub(r"\b(dso_local|internal|private|linkonce_odr|weak_odr|weak|external|hidden|noundef|zeroext|"
                       r"signext|noalias|nonnull|local_unnamed_addr|unnamed_addr|available_externally|fastcc|"
                       r"dso_preemptable|returned|inreg)\b", "", words).strip()
        f.ret = parse_type(Toks(words)) if words else T("void")
        # params
        i = m.end() - 1
        depth = 0
        j = i
        while True:
            c = l[j]
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        tk = Toks(l[i + 1:j])
        k = 0
        while not tk.end():
            if tk.eat("..."):
                f.vararg = True
            else:
                t = parse_type(tk)
                skip_param_attrs(tk)
                nm = None
                if tk.kind() == "loc":
                    nm = unq(tk.next())
                f.params.append((nm if nm is not None else str(k), t))
                k += 1
            tk.eat(",")
        dm = None if decl else re.search(r"!dbg !(\d+)", l[j:])
        if dm:
            f.sp = dm.group(1)
        self.funcs[sym] = f
        f.attrs = l[j + 1:]
        return f

    def parse_func(self, head, body):
        f = self.parse_fnhead(head, False)
        cur = None
        nparams = len(f.params)
        i = 0
        n = len(body)
        while i < n:
            l = body[i]
            i += 1
            if not l.strip():
                continue
            if not l.startswith(" "):
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                if m:
                    cur = Block(m.group(1).strip('"'))
                    cur.fn = f
                    f.blocks.append(cur)
                    f.bmap[cur.name] = cur
                    continue
                if l.startswith(";"):
                    continue
            if cur is None:
                cur = Block(str(nparams))   # unnamed entry
                cur.fn = f
                f.blocks.append(cur)
                f.bmap[cur.name] = cur
            s = l
            if " switch " in (" " + s.lstrip()) and s.rstrip().endswith("["):
                while True:
                    s += " " + body[i].strip()
                    i += 1
                    if body[i - 1].strip().startswith("]"):
                        break
            ins = self.parse_instr(f, s)
            if ins is None:
                continue
            ins.bb = cur
            ins.fn = f
            ins.idx = len(cur.ins)
            cur.ins.append(ins)
            if ins.res is not None:
                f.defs[ins.res] = ins
        for b in f.blocks:
            t = b.ins[-1]
            if t.op == "br":
                b.succs = [t.x[0]] if len(t.x) == 1 else list(t.x)
            elif t.op == "switch":
                b.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            seen = []
            for s in b.succs:
                if s not in seen:
                    seen.append(s)
            b.succs = [f.bmap[s] for s in seen]
        for b in f.blocks:
            for s in b.succs:
                s.preds.append(b)

    def parse_instr(self, f, s):
        st = s.strip()
        dbg = None
        if "!dbg" in st:
            m = re.search(r", !dbg !(\d+)", st)
            if m:
                dbg = m.group(1)
        m = re.match(r"(?:tail |musttail |notail )?call void @llvm\.(dbg|lifetime|experimental\.noalias|invariant)\.", st)
        if m:
            vm = re.match(r"(?:tail )?call void @llvm\.dbg\.(value|declare)\(metadata (?:ptr|[^ ]+) (%[-\w.$]+), metadata !(\d+)", st)
            if vm:
                f.localnames.setdefault(unq(vm.group(2)), vm.group(3))
            return None
        # strip trailing metadata attachments
        st = re.sub(r"(, ![a-zA-Z_.]\w*(\.\w+)* !(\d+|\{\}))+\s*$", "", st)
        st = re.sub(r", !dbg !\d+", "", st)
        st = re.sub(r", ![a-zA-Z_.]+[\w.]* !\d+", "", st)
        tk = Toks(st)
        res = None
        if tk.kind() == "loc" and tk.peek(1) == "=":
            res = unq(tk.next()); tk.next()
        op = tk.next()
        if op in ("tail", "musttail", "notail"):
            op = tk.next()
        I = self._parse_op(tk, op, res)
        I.dbg = dbg
        return I

    def _parse_op(self, tk, op, res):
        if op == "call" or op == "invoke":
            while tk.peek() in FLAGS or tk.peek() in ("fastcc", "ccc", "coldcc"):
                tk.next()
            skip_param_attrs(tk)
            ty = parse_type(tk)
            if ty.k == "fn":
                rty = ty.e[0]
            else:
                rty = ty
            if tk.peek() == "asm":
                raise AnalysisBroken("inline asm")
            if tk.kind() == "glob":
                cal = ("g", unq(tk.next()))
            elif tk.kind() == "loc":
                cal = ("v", unq(tk.next()))
            else:
                cal = parse_value(tk, PTR)
            tk.expect("(")
            ops, tys = [], []
            if not tk.eat(")"):
                while True:
                    t = parse_type(tk)
                    skip_param_attrs(tk)
                    if t.k == "metadata":
                        d = 0
                        while not (tk.peek() in (",", ")") and d == 0):
                            x = tk.next()
                            if x == "(":
                                d += 1
                            elif x == ")":
                                d -= 1
                        ops.append(("md", ""))
                    else:
                        ops.append(parse_value(tk, t))
                    tys.append(t)
                    if tk.eat(")"):
                        break
                    tk.expect(",")
            if op == "invoke":
                raise AnalysisBroken("invoke in -fno-exceptions build")
            I = Instr("call", res, rty, ops, cal)
            I.tys = tys
            return I
        if op == "br":
            if tk.eat("label"):
                return Instr("br", None, None, [], [unq(tk.next())])
            t = parse_type(tk)
            c = parse_value(tk, t); tk.expect(",")
            tk.expect("label"); a = unq(tk.next()); tk.expect(",")
            tk.expect("label"); b = unq(tk.next())
            return Instr("br", None, None, [c], [a, b])
        if op == "switch":
            t = parse_type(tk)
            c = parse_value(tk, t); tk.expect(",")
            tk.expect("label"); d = unq(tk.next()); tk.expect("[")
            cs = []
            while not tk.eat("]"):
                ct = parse_type(tk)
                cv = parse_value(tk, ct)[1]; tk.expect(",")
                tk.expect("label")
                cs.append((cv, unq(tk.next())))
            return Instr("switch", None, t, [c], [d, cs])
        if op == "ret":
            if tk.eat("void"):
                return Instr("ret", None, None, [])
            t = parse_type(tk)
            return Instr("ret", None, t, [parse_value(tk, t)])
        if op == "unreachable":
            return Instr("unreachable")
        if op == "alloca":
            while tk.peek() in ("inalloca", "swifterror"):
                tk.next()
            t = parse_type(tk)
            cnt = ("c", 1)
            if tk.eat(",") and tk.peek() != "align":
                ct = parse_type(tk)
                cnt = parse_value(tk, ct)
            return Instr("alloca", res, PTR, [cnt], t)
        if op == "load":
            while tk.peek() in ("volatile", "atomic"):
                tk.next()
            t = parse_type(tk); tk.expect(",")
            pt = parse_type(tk)
            return Instr("load", res, t, [parse_value(tk, pt)])
        if op == "store":
            while tk.peek() in ("volatile", "atomic"):
                tk.next()
            t = parse_type(tk)
            v = parse_value(tk, t); tk.expect(",")
            pt = parse_type(tk)
            return Instr("store", None, t, [v, parse_value(tk, pt)])
        if op == "getelementptr":
            while tk.peek() in ("inbounds", "nuw", "nusw"):
                tk.next()
            t = parse_type(tk); tk.expect(",")
            ops, tys = [], []
            while True:
                pt = parse_type(tk)
                ops.append(parse_value(tk, pt)); tys.append(pt)
                if not tk.eat(","):
                    break
            I = Instr("gep", res, PTR, ops, t)
            I.tys = tys
            return I
        if op == "phi":
            while tk.peek() in FLAGS:
                tk.next()
            t = parse_type(tk)
            inc = []
            while True:
                tk.expect("[")
                v = parse_value(tk, t); tk.expect(",")
                inc.append((v, unq(tk.next()))); tk.expect("]")
                if not tk.eat(","):
                    break
            return Instr("phi", res, t, [v for v, _ in inc], [b for _, b in inc])
        if op == "select":
            while tk.peek() in FLAGS:
                tk.next()
            ct = parse_type(tk); c = parse_value(tk, ct); tk.expect(",")
            t = parse_type(tk); a = parse_value(tk, t); tk.expect(",")
            t2 = parse_type(tk); b = parse_value(tk, t2)
            return Instr("select", res, t, [c, a, b])
        if op in ("icmp", "fcmp"):
            while tk.peek() in FLAGS:
                tk.next()
            p = tk.next()
            t = parse_type(tk)
            a = parse_value(tk, t); tk.expect(",")
            b = parse_value(tk, t)
            I = Instr(op, res, I1, [a, b], p)
            I.tys = [t, t]
            return I
        if op in BINOPS:
            fl = []
            while tk.peek() in FLAGS:
                fl.append(tk.next())
            t = parse_type(tk)
            a = parse_value(tk, t); tk.expect(",")
            b = parse_value(tk, t)
            return Instr(op, res, t, [a, b], tuple(fl))
        if op in CASTS:
            while tk.peek() in FLAGS:
                tk.next()
            t = parse_type(tk)
            a = parse_value(tk, t)
            tk.expect("to")
            t2 = parse_type(tk)
            I = Instr(op, res, t2, [a], t)
            return I
        if op == "fneg":
            while tk.peek() in FLAGS:
                tk.next()
            t = parse_type(tk)
            return Instr("fneg", res, t, [parse_value(tk, t)])
        if op == "freeze":
            t = parse_type(tk)
            return Instr("freeze", res, t, [parse_value(tk, t)])
        if op == "extractvalue":
            t = parse_type(tk)
            a = parse_value(tk, t)
            idx = []
            while tk.eat(","):
                idx.append(int(tk.next()))
            return Instr("extractvalue", res, T("?"), [a], tuple(idx))
        if op == "insertvalue":
            t = parse_type(tk)
            a = parse_value(tk, t); tk.expect(",")
            t2 = parse_type(tk)
            b = parse_value(tk, t2)
            return Instr("insertvalue", res, t, [a, b], None)
        if op == "va_arg":
            t = parse_type(tk)
            a = parse_value(tk, t); tk.expect(",")
            return Instr("va_arg", res, parse_type(tk), [a])
        if op in ("extractelement", "insertelement", "shufflevector", "fence", "cmpxchg", "atomicrmw"):
            return Instr(op, res, T("?"), [])
        raise AnalysisBroken("IR parser: unknown instruction %s" % op)

    # ---------------- names, layout
    def link_names(self):
        self.byname = {}
        for f in self.funcs.values():
            if f.sp:
                d = self.mdfields(f.sp)
                if d:
                    f.name = d.get("name", f.sym)
                    fl = self.mdfields(d["file"]) if "file" in d else None
                    f.file = os.path.basename(fl["filename"]) if fl else None
                    f.dir_own = bool(fl and not fl["filename"].startswith(("/usr/include", "/usr/lib")))
                    f.line = int(d.get("line", 0))
            if not f.declared:
                self.byname.setdefault(f.name, []).append(f)
        # functions defined in the project (not library templates)
        self.own = [f for f in self.funcs.values() if not f.declared and f.sp and
                    getattr(f, "dir_own", False) and f.file and f.file.endswith((".cpp", ".h"))
                    and "linkonce" not in f.linkage]
        self._gdbg = {}
        for g in self.globals.values():
            if g["dbg"]:
                d = self.mdfields(g["dbg"])
                if d and d.get("_kind") == "DIGlobalVariableExpression":
                    v = self.mdfields(d["var"])
                else:
                    v = d
                if v:
                    g["src"] = v.get("name")
                    g["line"] = int(v.get("line", 0))
                    g["file"] = self.scope_file(v.get("file") and g["dbg"]) if False else None
                    fm = self.mdfields(v.get("file")) if v.get("file") else None
                    g["file"] = os.path.basename(fm["filename"]) if fm else None

    def fn(self, name, required=True):
        c = [f for f in self.byname.get(name, []) if f in self.own] or self.byname.get(name, [])
        if len(c) >= 1:
            return c[0]
        if required:
            raise AnalysisBroken("anchor function %s not found" % name)
        return None

    def resolve_sym(self, sym):
        return self.aliases.get(sym, sym)

    def callee_name(self, I):
        if I.op != "call":
            return None
        c = I.x
        if c[0] == "g":
            s = self.resolve_sym(c[1])
            f = self.funcs.get(s)
            if f is not None and not f.declared:
                return f.name
            if f is not None and s.startswith("_Z"):
                return f.name if f.name != s else s
            return s
        return None

    def callee_fn(self, I):
        if I.op == "call" and I.x[0] == "g":
            return self.funcs.get(self.resolve_sym(I.x[1]))
        return None

    def norm(self, t):
        while t.k == "named":
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.norm(t)
        if t.k == "i":
            return max(1, min(8, (t.n + 7) // 8)) if t.n <= 64 else 16
        if t.k == "ptr" or t.k == "double":
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k in ("arr", "vec"):
            return self.align(t.e)
        if t.k == "st":
            return 1 if t.packed else max([1] + [self.align(e) for e in t.e])
        return 1

    def size(self, t):
        t = self.norm(t)
        if t.k == "i":
            n = (t.n + 7) // 8
            return n if n in (1, 2, 4, 8, 16) else 1 << (n - 1).bit_length()
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k in ("arr", "vec"):
            return t.n * self.size(t.e)
        if t.k == "st":
            o = 0
            for e in t.e:
                if not t.packed:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                o += self.size(e)
            a = self.align(t)
            return (o + a - 1) // a * a
        return 0

    def offsets(self, t):
        t = self.norm(t)
        o, r = 0, []
        for e in t.e:
            if not t.packed:
                a = self.align(e)
                o = (o + a - 1) // a * a
            r.append(o)
            o += self.size(e)
        return r

    def gep_const(self, t, idx):
        """Offset of constant indices `idx` (first scales t)."""
        off = idx[0] * self.size(t)
        cur = self.norm(t)
        for i in idx[1:]:
            if cur.k in ("arr", "vec"):
                off += i * self.size(cur.e)
                cur = self.norm(cur.e)
            else:
                off += self.offsets(cur)[i]
                cur = self.norm(cur.e[i])
        return off

    def cstring(self, v, nul=True):
        """Bytes of the constant string a value points to (up to NUL), or None."""
        base, off = self.const_ptr(v)
        if base is None:
            return None
        g = self.globals.get(base)
        if g is None or g["init"] is None:
            return None
        b = self.init_bytes(g["type"], g["init"])
        if b is None or off >= len(b) + 0:
            return None
        b = b[off:]
        return b.split(b"\0", 1)[0] if nul else b

    def const_ptr(self, v):
        if v[0] == "g":
            return v[1], 0
        if v[0] == "cgep":
            base, o = self.const_ptr(v[2][0])
            idx = [x[1] for x in v[2][1:] if x[0] == "c"]
            if base is None or len(idx) != len(v[2]) - 1:
                return None, 0
            return base, o + self.gep_const(v[1], idx)
        return None, 0

    def init_bytes(self, t, v):
        t = self.norm(t)
        n = self.size(t)
        if v[0] == "zero":
            return bytes(n)
        if v[0] == "bytes":
            return v[1]
        if v[0] == "c":
            return (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
        if v[0] == "null":
            return bytes(8)
        if v[0] == "arr":
            out = b""
            for e in v[1]:
                x = self.init_bytes(t.e, e)
                if x is None:
                    return None
                out += x
            return out
        if v[0] == "st":
            out = bytearray(n)
            for o, et, e in zip(self.offsets(t), t.e, v[1]):
                x = self.init_bytes(et, e)
                if x is None:
                    return None
                out[o:o + len(x)] = x
            return bytes(out)
        return None

    def zero_of(self, t):
        t = self.norm(t)
        if t.k == "arr":
            if self.norm(t.e).k == "i" and self.norm(t.e).n == 8:
                return ("bytes", bytes(t.n))
            return ("arr", tuple(self.zero_of(t.e) for _ in range(t.n)))
        if t.k == "st":
            return ("st", tuple(self.zero_of(e) for e in t.e))
        if t.k == "ptr":
            return ("null",)
        return ("c", 0)

    def elems(self, t, v):
        t = self.norm(t)
        if v[0] == "zero":
            v = self.zero_of(t)
        if v[0] == "bytes":
            return [("c", b) for b in v[1]]
        return list(v[1])

    # struct fields by source name: {field: (byte offset, di type id)}
    def di_type(self, tid):
        d = self.mdfields(tid)
        while d and d.get("_kind") == "DIDerivedType" and d.get("tag") in (
                "DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
            d = self.mdfields(d["baseType"]) if "baseType" in d else None
        return d

    def struct_fields(self, cname):
        """Fields of the struct/typedef named `cname` in the source."""
        key = ("sf", cname)
        if key in self._mdcache:
            return self._mdcache[key]
        best = None
        for n, s in self.md.items():
            if s.startswith(("!DICompositeType(", "!DIDerivedType(tag: DW_TAG_typedef")):
                if 'name: "%s"' % cname in s:
                    d = self.di_type(n)
                    if d and d.get("_kind") == "DICompositeType" and "elements" in d:
                        best = d
                        if self.mdfields(n).get("_kind") == "DICompositeType" or True:
                            break
        if best is None:
            raise AnalysisBroken("no debug info for struct %s" % cname)
        r = {}
        for e in self.mdfields(best["elements"])["items"]:
            m = self.mdfields(e) if e else None
            if m and m.get("tag") == "DW_TAG_member":
                r[m["name"]] = (int(m.get("offset", "0")) // 8, m.get("baseType"))
        self._mdcache[key] = r
        return r

    def enum(self, *names):
        """{enumerator: value} of the enum that has all the given enumerators."""
        for n, s in self.md.items():
            if s.startswith("!DICompositeType(tag: DW_TAG_enumeration_type"):
                d = self.mdfields(n)
                if "elements" not in d:
                    continue
                r = {}
                for e in self.mdfields(d["elements"])["items"]:
                    m = self.mdfields(e)
                    if m and m.get("_kind") == "DIEnumerator":
                        r[m["name"]] = int(m["value"])
                if all(x in r for x in names):
                    return r
        raise AnalysisBroken("no enum with " + ",".join(names))

    def local_name(self, f, reg):
        n = f.localnames.get(reg)
        d = self.mdfields(n) if n else None
        return d.get("name") if d else None


_cached = None


def load(repo=None):
    """Compile, normalise and parse the current tree.  Reuses nothing from earlier runs."""
    global _cached
    if _cached is not None and repo is None:
        return _cached
    wd = tempfile.mkdtemp(prefix="sa_ir_")
    try:
        path, units, inlined = compile_ir(wd, repo=repo)
        m = Module(path)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    m.units = [u[0] for u in units]
    m.flags = sorted({f for u in units for f in u[1]})
    m.inlined = inlined
    if repo is None:
        _cached = m
    return m


if __name__ == "__main__":
    import time
    t = time.time()
    m = load()
    print(len(m.funcs), "functions", len(m.own), "own", sum(1 for f in m.own for _ in f.instrs()), "instrs",
          "%.1fs" % (time.time() - t))
    if len(sys.argv) > 1 and sys.argv[1] == "known":
        print("\n".join(sorted(f.sym for f in m.own)), file=open(os.path.join(HERE, "known_functions.txt"), "w"))
    else:
        for f in m.own:
            print(f.name, f.file, f.line, len(f.blocks))
