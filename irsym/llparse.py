"""Reader for textual LLVM IR as emitted by rustc.  Function bodies are parsed on demand."""
import re

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"[^"]*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[-+]?\d+)?)?|0x[0-9A-Fa-fKLMHR]+|u0x[0-9A-Fa-f]+|s0x[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_$][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            rest = s[pos:].strip()
            if not rest or rest.startswith(";"):
                break
            raise ParseError("token: %r" % s[pos:pos + 60])
        t = k.group().strip()
        out.append(t)
        pos = k.end()
    return out


I1 = ("i", 1)
I64 = ("i", 64)
PTR = ("ptr",)
VOID = ("void",)

_int_t = {}


def int_t(n):
    t = _int_t.get(n)
    if t is None:
        t = _int_t[n] = ("i", n)
    return t


def sizeof(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        a = alignof(t)
        return (n + a - 1) // a * a
    if k == "ptr":
        return 8
    if k == "arr":
        return t[1] * sizeof(t[2])
    if k == "vec":
        return (t[1] * bits(t[2]) + 7) // 8
    if k == "struct":
        off = 0
        al = 1
        for e in t[2]:
            if not t[1]:
                a = alignof(e)
                al = max(al, a)
                off = (off + a - 1) // a * a
            off += sizeof(e)
        return (off + al - 1) // al * al
    if k == "float":
        return {"half": 2, "float": 4, "double": 8, "fp128": 16}[t[1]]
    raise ParseError("sizeof %r" % (t,))


def bits(t):
    if t[0] == "i":
        return t[1]
    if t[0] == "ptr":
        return 64
    if t[0] == "vec":
        return t[1] * bits(t[2])
    if t[0] == "float":
        return {"half": 16, "float": 32, "double": 64, "fp128": 128}[t[1]]
    raise ParseError("bits %r" % (t,))


def alignof(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return min(a, 16)
    if k == "ptr":
        return 8
    if k == "arr":
        return alignof(t[2])
    if k == "vec":
        n = sizeof(t)
        a = 1
        while a < n:
            a *= 2
        return a
    if k == "struct":
        return 1 if t[1] else max([alignof(e) for e in t[2]] or [1])
    if k == "float":
        return sizeof(t)
    raise ParseError("alignof %r" % (t,))


def field_offset(t, i):
    off = 0
    for j, e in enumerate(t[2]):
        if not t[1]:
            a = alignof(e)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += sizeof(e)
    raise ParseError("field")


class P(object):
    """token cursor"""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ""

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        t = self.next()
        if t != x:
            raise ParseError("expected %r got %r in %s" % (x, t, " ".join(self.t[:40])))

    def skip_parens(self):
        d = 0
        while True:
            t = self.next()
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1
                if d == 0:
                    return

    def is_type(self):
        t = self.peek()
        if t in ("ptr", "void", "[", "{", "<", "float", "double", "half", "fp128", "metadata", "label", "token"):
            return True
        if t[:1] == "i" and t[1:].isdigit():
            return True
        if t[:1] == "%" and t in self.mod.types:
            return True
        return False

    def skip_attrs_to_type(self):
        while not self.is_type():
            t = self.next()
            if t == "align" and self.peek() != "(":
                self.next()
            elif self.peek() == "(":
                self.skip_parens()

    def type(self):
        t = self.next()
        if t == "ptr":
            if self.peek() == "addrspace":
                self.next()
                self.skip_parens()
            return PTR
        if t[0] == "i" and t[1:].isdigit():
            return int_t(int(t[1:]))
        if t == "void":
            return VOID
        if t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            return ("arr", n, e)
        if t == "<":
            if self.peek() == "{":
                self.next()
                es = self.type_list("}")
                self.expect(">")
                return ("struct", True, tuple(es))
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            return ("vec", n, e)
        if t == "{":
            return ("struct", False, tuple(self.type_list("}")))
        if t in ("float", "double", "half", "fp128"):
            return ("float", t)
        if t in ("metadata", "label", "token"):
            return (t,)
        if t[0] == "%":
            r = self.mod.types[t]
            if type(r) is str:
                r = P(tokenize(r), self.mod).type() if r.strip() != "opaque" else ("opaque",)
                self.mod.types[t] = r
            return r
        raise ParseError("type %r in %s" % (t, " ".join(self.t[:40])))

    def type_list(self, end):
        es = []
        if self.eat(end):
            return es
        while True:
            es.append(self.type())
            if self.eat(end):
                return es
            self.expect(",")

    # ---- values: ints for integer/pointer constants, str for registers, tuples for the rest
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == "%":
            return t
        if c == "@":
            return ("global", t)
        if c == "-" or c.isdigit():
            if ty[0] == "float":
                return ("float", t)
            return int(t) & ((1 << bits(ty)) - 1)
        if t[:3] in ("u0x", "s0x"):
            return int(t[1:], 16) & ((1 << bits(ty)) - 1)
        if t == "true":
            return 1
        if t == "false" or t == "null":
            return 0
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t == "none":
            return 0
        if c == "c" and t[1:2] == '"':
            return ("bytes", unescape(t[2:-1]))
        if t == "[":
            es = []
            while not self.eat("]"):
                et = self.type()
                es.append((et, self.value(et)))
                self.eat(",")
            return ("agg", es)
        if t == "{":
            es = []
            while not self.eat("}"):
                et = self.type()
                es.append((et, self.value(et)))
                self.eat(",")
            return ("agg", es)
        if t == "<":
            es = []
            if self.eat("{"):
                while not self.eat("}"):
                    et = self.type()
                    es.append((et, self.value(et)))
                    self.eat(",")
                self.expect(">")
                return ("agg", es)
            while not self.eat(">"):
                et = self.type()
                es.append((et, self.value(et)))
                self.eat(",")
            return ("agg", es)
        if t == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            return ("agg", [(et, v)] * ty[1])
        if t == "getelementptr":
            while self.peek() != "(":
                if self.next() == "inrange":
                    self.skip_parens()
                    break
            self.expect("(")
            bt = self.type()
            self.expect(",")
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.eat(","):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return ("cgep", bt, base, idx)
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast", "ptrtoaddr"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            return ("ccast", t, ft, v, tt)
        if t in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            at = self.type()
            a = self.value(at)
            self.expect(",")
            bt = self.type()
            b = self.value(bt)
            self.expect(")")
            return ("cbin", t, at, a, b)
        if t in ("no_cfi", "dso_local_equivalent"):
            return self.value(ty)
        if c == "!":
            if self.peek() == "{":
                while self.next() != "}":
                    pass
            elif self.peek() == "(":
                self.skip_parens()
            return ("meta",)
        raise ParseError("value %r in %s" % (t, " ".join(self.t[:60])))

    def tyval(self):
        """type attrs value"""
        ty = self.type()
        if ty[0] == "metadata":
            # skip to the end of this operand
            d = 0
            while True:
                t = self.peek()
                if d == 0 and t in (",", ")"):
                    break
                if t in "({":
                    d += 1
                elif t in ")}":
                    d -= 1
                self.next()
            return ty, ("meta",)
        self.skip_val_attrs()
        return ty, self.value(ty)

    VALWORDS = frozenset(("true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat", "getelementptr",
                          "inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast", "add", "sub", "mul",
                          "xor", "and", "or", "shl", "lshr", "no_cfi", "dso_local_equivalent", "ptrtoaddr"))

    def skip_val_attrs(self):
        while True:
            t = self.peek()
            if t[0] in "%@-!0123456789[{<" or t in self.VALWORDS or t[:2] == 'c"' or t[:3] in ("u0x", "s0x"):
                return
            self.next()
            if t == "align":
                self.next()
            elif self.peek() == "(":
                self.skip_parens()


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Function(object):
    __slots__ = ("name", "mod", "header", "lines", "params", "blocks", "entry", "ret", "ninstr", "parsed")


class Module(object):
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.globals = {}  # name -> text
        self.aliases = {}
        self.decls = set()
        self._read()

    def _read(self):
        cur = None
        with open(self.path, encoding="utf-8", errors="surrogateescape") as f:
            for line in f:
                if cur is not None:
                    if line[0] == "}":
                        cur = None
                    else:
                        cur.lines.append(line)
                    continue
                c = line[0]
                if c == "@":
                    name, rest = line.split(" = ", 1)
                    if re.match(r"(?:[a-z_]+ |\([^)]*\) )*alias ", rest):
                        m = re.search(r"alias .*?, ptr (@\S+)", rest)
                        self.aliases[name] = m.group(1).rstrip(",\n")
                    else:
                        self.globals[name] = rest
                elif line.startswith("define "):
                    m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                    fn = Function()
                    fn.name = m.group()[:-1]
                    fn.mod = self
                    fn.header = line
                    fn.lines = []
                    fn.parsed = False
                    self.funcs[fn.name] = fn
                    cur = fn
                elif line.startswith("declare "):
                    m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                    self.decls.add(m.group()[:-1])
                elif c == "%":
                    name, rest = line.split(" = type ", 1)
                    self.types[name.strip()] = rest

    def global_init(self, name):
        """(type, value, is_const, align) of a global, or None for an external one"""
        rest = self.globals[name]
        p = P(tokenize(rest), self)
        ext = False
        const = False
        while True:
            t = p.next()
            if t in ("constant", "global"):
                const = t == "constant"
                break
            if t in ("external", "extern_weak"):
                ext = True
            if p.peek() == "(":
                p.skip_parens()
        ty = p.type()
        if ext:
            return None
        v = p.value(ty)
        al = alignof(ty)
        while p.i < len(p.t):
            if p.next() == "align":
                al = int(p.next())
        return ty, v, const, al


BIN = frozenset(("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"))
CASTS = frozenset(("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr", "addrspacecast"))
FLAGS = frozenset(("nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "samesign", "nusw", "fast", "nnan", "ninf", "nsz",
                   "arcp", "contract", "afn", "reassoc"))


def parse_function(fn):
    mod = fn.mod
    p = P(tokenize(fn.header), mod)
    p.next()  # define
    # return type: skip linkage etc.
    p.skip_attrs_to_type()
    fn.ret = p.type()
    p.next()  # name
    p.expect("(")
    params = []
    n = 0
    while not p.eat(")"):
        if p.eat("..."):
            continue
        ty = p.type()
        nm = None
        while p.peek() not in (",", ")"):
            t = p.next()
            if t[0] == "%":
                nm = t
            elif t == "align":
                p.next()
            elif p.peek() == "(":
                p.skip_parens()
        if nm is None:
            nm = "%%%d" % n
        params.append((ty, nm))
        n += 1
        p.eat(",")
    fn.params = params
    blocks = {}
    cur = None
    lines = fn.lines
    i = 0
    nin = 0
    while i < len(lines):
        line = lines[i]
        i += 1
        s = line.strip()
        if not s or s[0] == ";":
            continue
        if line[0] != " ":
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', line)
            if not m:
                raise ParseError("label? %r" % line)
            name = "%" + m.group(1)
            cur = blocks[name] = []
            if fn_entry(fn, blocks):
                fn.entry = name
            continue
        if cur is None:
            # unnamed entry block: its number is the number of unnamed params
            name = "%entry!"
            cur = blocks[name] = []
            fn.entry = name
        if s.startswith("switch ") and "]" not in s:
            while True:
                s += " " + lines[i].strip()
                i += 1
                if "]" in lines[i - 1]:
                    break
        if s.startswith("#dbg_"):
            continue
        if " = invoke" in s or s.startswith("invoke"):
            s += " " + lines[i].strip()
            i += 1
            m = re.search(r"to label (%(?:\"[^\"]*\"|[-a-zA-Z$._0-9]+)) unwind label", s)
            s2 = s[:m.start()].replace("invoke ", "call ", 1)
            cur.append(parse_instr(s2, mod))
            cur.append(("br", None, m.group(1)))
            nin += 2
            continue
        ins = parse_instr(s, mod)
        if ins is not None:
            cur.append(ins)
            nin += 1
    fn.blocks = blocks
    fn.ninstr = nin
    fn.parsed = True
    fn.lines = None
    return fn


def fn_entry(fn, blocks):
    return len(blocks) == 1


def parse_instr(s, mod):
    k = s.find(", !")
    while k >= 0 and not s.startswith("call") and "metadata" not in s:
        s = s[:k]
        break
    p = P(tokenize(s), mod)
    dst = None
    if p.peek(1) == "=":
        dst = p.next()
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op == "call":
        return parse_call(p, dst)
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return ("bin", dst, op, ty, a, b)
    if op == "icmp":
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return ("icmp", dst, pred, ty, a, b)
    if op == "load":
        if p.peek() in ("atomic", "volatile"):
            p.next()
        ty = p.type()
        p.expect(",")
        pt, a = p.tyval()
        return ("load", dst, ty, a)
    if op == "store":
        if p.peek() in ("atomic", "volatile"):
            p.next()
        ty, v = p.tyval()
        p.expect(",")
        pt, a = p.tyval()
        return ("store", None, ty, v, a)
    if op == "getelementptr":
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(",")
        pt, base = p.tyval()
        idx = []
        while p.eat(","):
            if p.peek()[:1] == "!":
                break
            idx.append(p.tyval())
        return ("gep", dst, bt, base, idx)
    if op == "br":
        if p.eat("label"):
            return ("br", None, p.next())
        p.expect("i1")
        c = p.value(I1)
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        b = p.next()
        return ("cbr", None, c, a, b)
    if op == "phi":
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            inc[p.next()] = v
            p.expect("]")
            if not p.eat(","):
                break
            if p.peek() != "[":
                break
        return ("phi", dst, ty, inc)
    if op == "select":
        while p.peek() in FLAGS:
            p.next()
        ct, c = p.tyval()
        p.expect(",")
        ty, a = p.tyval()
        p.expect(",")
        _, b = p.tyval()
        return ("select", dst, ct, c, ty, a, b)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        ft, v = p.tyval()
        p.expect("to")
        tt = p.type()
        return ("cast", dst, op, ft, v, tt)
    if op == "ret":
        if p.eat("void"):
            return ("ret", None, None, None)
        ty, v = p.tyval()
        return ("ret", None, ty, v)
    if op == "alloca":
        ty = p.type()
        n = (I64, 1)
        al = alignof(ty)
        while p.eat(","):
            if p.eat("align"):
                al = int(p.next())
            elif p.is_type():
                n = p.tyval()
            else:
                p.next()
        return ("alloca", dst, ty, n, al)
    if op == "unreachable":
        return ("unreachable", None)
    if op == "switch":
        ty, v = p.tyval()
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.eat("]"):
            t, c = p.tyval()
            p.expect(",")
            p.expect("label")
            cases.append((c, p.next()))
        return ("switch", None, ty, v, d, cases)
    if op == "extractvalue":
        ty, v = p.tyval()
        idx = []
        while p.eat(","):
            if p.peek()[:1] == "!":
                break
            idx.append(int(p.next()))
        return ("extractvalue", dst, ty, v, idx)
    if op == "insertvalue":
        ty, v = p.tyval()
        p.expect(",")
        et, e = p.tyval()
        idx = []
        while p.eat(","):
            if p.peek()[:1] == "!":
                break
            idx.append(int(p.next()))
        return ("insertvalue", dst, ty, v, et, e, idx)
    if op == "freeze":
        ty, v = p.tyval()
        return ("freeze", dst, ty, v)
    if op == "extractelement":
        ty, v = p.tyval()
        p.expect(",")
        it, i = p.tyval()
        return ("extractelement", dst, ty, v, i)
    if op == "insertelement":
        ty, v = p.tyval()
        p.expect(",")
        et, e = p.tyval()
        p.expect(",")
        it, i = p.tyval()
        return ("insertelement", dst, ty, v, e, i)
    if op == "shufflevector":
        ty, a = p.tyval()
        p.expect(",")
        _, b = p.tyval()
        p.expect(",")
        mt, m = p.tyval()
        return ("shufflevector", dst, ty, a, b, mt, m)
    if op == "fence":
        return None
    return ("unsupported", dst, s)


def parse_call(p, dst):
    while p.peek() in FLAGS:
        p.next()
    p.skip_attrs_to_type()
    rt = p.type()
    # function type (varargs): T (T, ...) @f
    if p.peek() == "(":
        p.skip_parens()
    t = p.next()
    if t == "asm":
        return ("unsupported", dst, "inline asm")
    callee = t
    p.expect("(")
    args = []
    while not p.eat(")"):
        args.append(p.tyval())
        p.eat(",")
    return ("call", dst, rt, callee, args)
