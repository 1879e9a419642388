"""A small elaborator for the synthesizable part of Verilog: modules are turned into a graph of
two-input gates and flip-flops, which is then simulated with many test vectors at once (one bit of a
Python integer per vector).  Two-valued logic; reset is an ordinary input, asynchronous resets are
modelled by clocking once with the reset on.  Raises Unsupported for what it does not know."""
import os
import re
import sys

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ lexer
TOK = re.compile(r"""
 (?P<num>(?:\d[\d_]*)?\s*'[sS]?[bBoOdDhH]\s*[0-9a-fA-FxXzZ?_]+|\d[\d_]*(?:\.\d+)?)
|(?P<id>\\\S+|[A-Za-z_][\w$]*|\$[A-Za-z_][\w$]*)
|(?P<str>"(?:\\.|[^"\\])*")
|(?P<op><<<|>>>|===|!==|\*\*|<=|>=|==|!=|&&|\|\||<<|>>|\+:|-:|~&|~\||~\^|\^~|[-+*/%&|^~!?:;,.(){}\[\]=<>\#@])
""", re.X)


def strip_comments(t):
    def f(m):
        s = m.group(0)
        return s if s[0] == '"' else ("\n" * s.count("\n") or " ")
    return re.sub(r'"(?:\\.|[^"\\\n])*"|//[^\n]*|/\*.*?\*/', f, t, flags=re.S)


def preprocess(path, defs, depth=0):
    if depth > 10:
        raise Unsupported("include depth")
    try:
        text = strip_comments(open(path, errors="replace").read())
    except OSError as e:
        raise Unsupported(str(e))
    out = []
    live = [True]
    taken = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        m = re.match(r"\s*`(\w+)(.*)$", l)
        d = m.group(1) if m else None
        if d in ("ifdef", "ifndef"):
            c = (m.group(2).split()[0] in defs) == (d == "ifdef")
            live.append(live[-1] and c)
            taken.append(c)
            continue
        if d == "else":
            live[-1] = live[-2] and not taken[-1]
            taken[-1] = True
            continue
        if d == "endif":
            live.pop()
            taken.pop()
            continue
        if not live[-1]:
            continue
        if d == "define":
            while l.rstrip().endswith("\\") and i < len(lines):
                l = l.rstrip()[:-1] + " " + lines[i]
                i += 1
            m = re.match(r"\s*`define\s+(\w+)(\([^)]*\))?(.*)$", l)
            args = [a.strip() for a in m.group(2)[1:-1].split(",")] if m.group(2) else None
            defs[m.group(1)] = (args, m.group(3).strip())
            continue
        if d == "undef":
            defs.pop(m.group(2).split()[0], None)
            continue
        if d in ("timescale", "default_nettype", "resetall", "celldefine", "endcelldefine"):
            continue
        if d == "include":
            p = re.search(r'"([^"]*)"', m.group(2)).group(1)
            for base in (os.path.dirname(path), os.path.dirname(os.path.dirname(path))):
                q = os.path.join(base, p)
                if os.path.exists(q):
                    break
                q = os.path.join(base, os.path.basename(p))
                if os.path.exists(q):
                    break
            out.append(preprocess(q, defs, depth + 1))
            continue
        out.append(expand(l, defs))
    return "\n".join(out)


def expand(l, defs, depth=0):
    if "`" not in l:
        return l
    if depth > 20:
        raise Unsupported("macro recursion")
    out, i = [], 0
    for m in iter(lambda: re.compile(r"`(\w+)").search(l, i), None):
        out.append(l[i:m.start()])
        i = m.end()
        if m.group(1) not in defs:
            raise Unsupported("macro " + m.group(1))
        args, body = defs[m.group(1)]
        if args is not None:
            j = l.index("(", i)
            k, dep, parts, cur = j + 1, 1, [], ""
            while dep:
                ch = l[k]
                if ch in "([{":
                    dep += 1
                elif ch in ")]}":
                    dep -= 1
                if dep == 1 and ch == ",":
                    parts.append(cur)
                    cur = ""
                elif dep:
                    cur += ch
                k += 1
            parts.append(cur)
            i = k
            sub = dict(zip(args, [p.strip() for p in parts]))
            body = re.sub(r"\b[A-Za-z_]\w*\b", lambda q: sub.get(q.group(0), q.group(0)), body)
        out.append(body)
    out.append(l[i:])
    return expand("".join(out), defs, depth + 1)


def lex(t):
    t = re.sub(r"\(\*(?!\s*\)).*?\*\)", " ", t, flags=re.S)
    toks, i = [], 0
    n = len(t)
    while i < n:
        if t[i].isspace():
            i += 1
            continue
        m = TOK.match(t, i)
        if not m:
            raise Unsupported("character %r" % t[i])
        toks.append((m.lastgroup, m.group(0)))
        i = m.end()
    toks.append(("eof", ""))
    return toks


# ------------------------------------------------------------------ parser
DIRS = ("input", "output", "inout")
KINDS = ("wire", "reg", "integer", "tri", "genvar", "real", "supply0", "supply1", "logic")
BIN = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="], ["<", "<=", ">", ">="],
       ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"], ["**"]]


class Module:
    def __init__(self, name):
        self.name, self.ports, self.items = name, [], []


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def acc(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] != "str":
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported("expected %s, found %s near %s" % (v, self.peek(), " ".join(x[1] for x in self.t[max(0, self.i - 6):self.i + 4])))

    def ident(self):
        if self.kind() != "id":
            raise Unsupported("identifier expected, found " + self.peek())
        return self.next().lstrip("\\")

    # expressions: tuples
    def expr(self):
        c = self.binary(0)
        if self.acc("?"):
            a = self.expr()
            self.exp(":")
            return ("?", c, a, self.expr())
        return c

    def binary(self, lv):
        if lv == len(BIN):
            return self.unary()
        a = self.binary(lv + 1)
        while self.kind() == "op" and self.peek() in BIN[lv]:
            o = self.next()
            a = ("bin", o, a, self.binary(lv + 1))
        return a

    def unary(self):
        if self.kind() == "op" and self.peek() in ("+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^", "^~"):
            o = self.next()
            return ("un", o, self.unary())
        return self.primary()

    def primary(self):
        k, v = self.t[self.i]
        if k == "num":
            self.i += 1
            return ("num", v)
        if k == "str":
            self.i += 1
            return ("str", v[1:-1])
        if self.acc("("):
            e = self.expr()
            self.exp(")")
            return e
        if self.acc("{"):
            e = self.expr()
            if self.acc("{"):
                parts = [self.expr()]
                while self.acc(","):
                    parts.append(self.expr())
                self.exp("}")
                self.exp("}")
                return ("rep", e, parts)
            parts = [e]
            while self.acc(","):
                parts.append(self.expr())
            self.exp("}")
            return ("cat", parts)
        n = self.ident()
        if self.peek() == "(" and self.kind() == "op":
            self.next()
            args = []
            if not self.acc(")"):
                args.append(self.expr())
                while self.acc(","):
                    args.append(self.expr())
                self.exp(")")
            return ("call", n, args)
        while self.peek() == "." and self.kind() == "op":
            self.next()
            n += "." + self.ident()
        sel = []
        while self.acc("["):
            a = self.expr()
            if self.acc(":"):
                sel.append(("range", a, self.expr()))
            elif self.acc("+:"):
                sel.append(("up", a, self.expr()))
            elif self.acc("-:"):
                sel.append(("down", a, self.expr()))
            else:
                sel.append(("idx", a))
            self.exp("]")
        return ("id", n, sel)

    def range_opt(self):
        if self.acc("["):
            a = self.expr()
            self.exp(":")
            b = self.expr()
            self.exp("]")
            return (a, b)
        return None

    # modules
    def file(self):
        mods = []
        while self.kind() != "eof":
            if self.peek() in ("module", "macromodule"):
                mods.append(self.module())
            else:
                raise Unsupported("top level " + self.peek())
        return mods

    def module(self):
        self.next()
        m = Module(self.ident())
        if self.acc("#"):
            self.exp("(")
            while not self.acc(")"):
                self.acc("parameter")
                self.acc("integer")
                sg = self.acc("signed")
                r = self.range_opt()
                n = self.ident()
                self.exp("=")
                m.items.append(("param", n, self.expr(), r, sg, True))
                self.acc(",")
        if self.acc("("):
            ansi = None
            while not self.acc(")"):
                if self.peek() in DIRS:
                    d = self.next()
                    kind = self.next() if self.peek() in KINDS else "wire"
                    sg = self.acc("signed")
                    ansi = (d, kind, sg, self.range_opt())
                n = self.ident()
                dims = []
                while self.peek() == "[":
                    dims.append(self.range_opt())
                m.ports.append(n)
                if ansi:
                    m.items.append(("decl",) + ansi + ([(n, dims, None)],))
                self.acc(",")
        self.exp(";")
        while not self.acc("endmodule"):
            self.item(m.items)
        return m

    def item(self, out):
        p = self.peek()
        if p in DIRS or p in KINDS:
            d = self.next() if p in DIRS else ""
            k = self.next() if self.peek() in KINDS else ("wire" if d else "")
            sg = self.acc("signed")
            r = self.range_opt()
            names = []
            while True:
                n = self.ident()
                dims = []
                while self.peek() == "[":
                    dims.append(self.range_opt())
                init = self.expr() if self.acc("=") else None
                names.append((n, dims, init))
                if not self.acc(","):
                    break
            self.exp(";")
            out.append(("decl", d, k, sg, r, names))
        elif p in ("parameter", "localparam"):
            self.next()
            self.acc("integer")
            sg = self.acc("signed")
            r = self.range_opt()
            while True:
                n = self.ident()
                self.exp("=")
                out.append(("param", n, self.expr(), r, sg, p == "parameter"))
                if not self.acc(","):
                    break
            self.exp(";")
        elif p == "assign":
            self.next()
            if self.acc("#"):
                self.primary()
            while True:
                l = self.primary()
                self.exp("=")
                out.append(("assign", l, self.expr()))
                if not self.acc(","):
                    break
            self.exp(";")
        elif p in ("always", "initial"):
            self.next()
            sens = None
            if p == "always":
                self.exp("@")
                sens = self.sens()
            out.append((p, sens, self.stmt()))
        elif p == "function":
            out.append(self.function())
        elif p == "generate":
            self.next()
            while not self.acc("endgenerate"):
                self.item(out)
        elif p in ("for", "if", "case", "begin"):
            out.append(self.gen())
        elif self.acc(";"):
            pass
        elif p == "defparam" or p in ("task", "specify", "primitive"):
            raise Unsupported(p)
        else:
            self.instance(out)

    def sens(self):
        if self.acc("*"):
            return []
        self.exp("(")
        edges = []
        while not self.acc(")"):
            if self.acc("*"):
                continue
            if self.peek() in ("posedge", "negedge"):
                e = self.next()
                edges.append((e, self.primary()))
            elif self.peek() in ("or", ","):
                self.next()
            else:
                self.expr()
        return edges

    def function(self):
        self.next()
        self.acc("automatic")
        rtype = "integer" if self.acc("integer") else None
        sg = self.acc("signed")
        r = self.range_opt()
        n = self.ident()
        args, decls = [], []
        if self.acc("("):
            while not self.acc(")"):
                self.exp("input")
                k = self.next() if self.peek() in KINDS else "reg"
                s2 = self.acc("signed")
                r2 = self.range_opt()
                a = self.ident()
                args.append(a)
                decls.append(("decl", "input", k, s2, r2, [(a, [], None)]))
                self.acc(",")
        self.exp(";")
        while self.peek() in DIRS or self.peek() in KINDS or self.peek() in ("parameter", "localparam"):
            tmp = []
            self.item(tmp)
            for it in tmp:
                decls.append(it)
                if it[0] == "decl" and it[1] == "input":
                    args += [x[0] for x in it[5]]
        body = self.stmt()
        self.exp("endfunction")
        return ("function", n, rtype, sg, r, args, decls, body)

    def genblock(self):
        if self.acc("begin"):
            name = self.ident() if self.acc(":") else None
            items = []
            while not self.acc("end"):
                self.item(items)
            if self.acc(":"):
                self.ident()
            return (name, items)
        items = []
        self.item(items)
        return (None, items)

    def gen(self):
        p = self.peek()
        if p == "begin":
            return ("gblock", self.genblock())
        self.next()
        if p == "if":
            self.exp("(")
            c = self.expr()
            self.exp(")")
            a = self.genblock() if not self.acc(";") else (None, [])
            b = self.genblock() if self.acc("else") else None
            return ("gif", c, a, b)
        if p == "for":
            self.exp("(")
            self.acc("genvar")
            v = self.ident()
            self.exp("=")
            a = self.expr()
            self.exp(";")
            c = self.expr()
            self.exp(";")
            v2 = self.ident()
            self.exp("=")
            s = self.expr()
            self.exp(")")
            if v2 != v:
                raise Unsupported("generate loop")
            return ("gfor", v, a, c, s, self.genblock())
        self.exp("(")
        e = self.expr()
        self.exp(")")
        items = []
        while not self.acc("endcase"):
            if self.acc("default"):
                self.acc(":")
                items.append((None, self.genblock()))
            else:
                es = [self.expr()]
                while self.acc(","):
                    es.append(self.expr())
                self.exp(":")
                items.append((es, self.genblock()))
        return ("gcase", e, items)

    def conns(self):
        """( ... ) of ports or parameters"""
        out = []
        if self.acc(")"):
            return out
        while True:
            if self.acc("."):
                n = self.ident()
                self.exp("(")
                e = None if self.peek() == ")" else self.expr()
                self.exp(")")
                out.append((n, e))
            elif self.peek() in (",", ")"):
                out.append((None, None))
            else:
                out.append((None, self.expr()))
            if self.acc(")"):
                return out
            self.exp(",")

    def instance(self, out):
        mod = self.ident()
        params = []
        if self.acc("#"):
            self.exp("(")
            params = self.conns()
        while True:
            name = self.ident() if self.kind() == "id" else ""
            if self.peek() == "[":
                raise Unsupported("instance array")
            self.exp("(")
            out.append(("inst", mod, params, name, self.conns()))
            if not self.acc(","):
                break
        self.exp(";")

    # statements
    def stmt(self):
        p = self.peek()
        if self.acc(";"):
            return ("null",)
        if self.acc("begin"):
            decls = []
            if self.acc(":"):
                self.ident()
            body = []
            while not self.acc("end"):
                if self.peek() in KINDS:
                    self.item(decls)
                else:
                    body.append(self.stmt())
            if self.acc(":"):
                self.ident()
            return ("block", decls, body)
        if self.acc("if"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            a = self.stmt()
            b = self.stmt() if self.acc("else") else None
            return ("if", c, a, b)
        if p in ("case", "casez", "casex"):
            self.next()
            self.exp("(")
            e = self.expr()
            self.exp(")")
            items = []
            while not self.acc("endcase"):
                if self.acc("default"):
                    self.acc(":")
                    items.append((None, self.stmt()))
                else:
                    es = [self.expr()]
                    while self.acc(","):
                        es.append(self.expr())
                    self.exp(":")
                    items.append((es, self.stmt()))
            return ("case", p, e, items)
        if self.acc("for"):
            self.exp("(")
            a = self.assignment(";")
            c = self.expr()
            self.exp(";")
            s = self.assignment(")")
            return ("for", a, c, s, self.stmt())
        if self.acc("while"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            return ("while", c, self.stmt())
        if self.acc("repeat"):
            self.exp("(")
            c = self.expr()
            self.exp(")")
            return ("repeat", c, self.stmt())
        if self.kind() == "id" and p.startswith("$"):
            n = self.next()
            args = []
            if self.acc("("):
                while not self.acc(")"):
                    args.append(self.expr())
                    self.acc(",")
            self.exp(";")
            return ("sys", n, args)
        if p in ("#", "@", "forever", "wait", "fork", "disable"):
            raise Unsupported("statement " + p)
        return self.assignment(";")

    def assignment(self, end):
        l = self.primary()
        o = self.next()
        if o not in ("=", "<="):
            raise Unsupported("statement near " + o)
        if self.acc("#"):
            self.primary()
        r = self.expr()
        self.exp(end)
        return ("asg", o, l, r)


def parse_files(paths, defs=None):
    mods = {}
    defs = dict(defs or {})
    for p in paths:
        for m in Parser(lex(preprocess(p, defs))).file():
            mods[m.name] = m
    return mods


# ------------------------------------------------------------------ gate graph; a literal is 2*node + inverted
class Graph:
    def __init__(self):
        self.k = ["c"]
        self.a = [0]
        self.b = [0]
        self.h = {}

    def new(self, k, a=0, b=0):
        self.k.append(k)
        self.a.append(a)
        self.b.append(b)
        return 2 * (len(self.k) - 1)

    def AND(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0 or a ^ 1 == b:
            return 0
        if a == 1 or a == b:
            return b
        key = (a, b)
        r = self.h.get(key)
        if r is None:
            r = self.h[key] = self.new("a", a, b)
        return r

    def XOR(self, a, b):
        inv = (a ^ b) & 1
        a &= ~1
        b &= ~1
        if a > b:
            a, b = b, a
        if a == b:
            return inv
        if a == 0:
            return b ^ inv
        key = ("x", a, b)
        r = self.h.get(key)
        if r is None:
            r = self.h[key] = self.new("x", a, b)
        return r ^ inv

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def MUX(self, s, a, b):
        """s ? a : b"""
        if a == b:
            return a
        if s == 1:
            return a
        if s == 0:
            return b
        return self.XOR(b, self.AND(s, self.XOR(a, b)))


class V:
    """a value: constant c (an int, never negative) or bits b (list of literals, low first)"""
    __slots__ = ("w", "s", "c", "b", "dc")

    def __init__(self, w, s, c=None, b=None, dc=0):
        self.w, self.s, self.c, self.b, self.dc = w, s, c, b, dc
        if c is not None:
            self.c = c & ((1 << w) - 1)
        elif all(x < 2 for x in b):
            self.c = sum(x << i for i, x in enumerate(b))

    def bits(self):
        if self.b is None:
            self.b = [(self.c >> i) & 1 for i in range(self.w)]
        return self.b

    def int(self):
        if self.c is None:
            raise Unsupported("constant expected")
        return self.c - (1 << self.w) if self.s and self.w and self.c >> (self.w - 1) else self.c

    def ext(self, w, s=None):
        """to width w; extended by its own sign"""
        s = self.s if s is None else s
        if w == self.w:
            return V(w, s, self.c, self.b, self.dc)
        if self.c is not None:
            v = self.c
            if s and self.w and v >> (self.w - 1):
                v -= 1 << self.w
            return V(w, s, v, None, self.dc)
        b = self.b
        return V(w, s, None, b[:w] if w < self.w else b + [b[-1] if s else 0] * (w - self.w))


def number(t):
    t = t.replace("_", "").replace(" ", "").replace("\t", "").replace("\n", "")
    if "'" not in t:
        if "." in t:
            raise Unsupported("real number")
        v = int(t)
        return V(max(32, v.bit_length() + 1), True, v)
    w, r = t.split("'")
    s = r[0] in "sS"
    if s:
        r = r[1:]
    base, dig = r[0].lower(), r[1:].lower()
    if base == "d":
        if not dig.isdigit():
            v, dc, n = 0, ~0, 32
        else:
            v, dc, n = int(dig), 0, 32
    else:
        k = {"b": 1, "o": 3, "h": 4}[base]
        v = dc = 0
        for ch in dig:
            v <<= k
            dc <<= k
            if ch in "xz?":
                dc |= (1 << k) - 1
            else:
                v |= int(ch, 16)
        n = max(32, v.bit_length())
        if len(dig) == 1 and dig in "xz?":
            dc = ~0
    w = int(w) if w else n
    return V(w, s, v, None, dc & ((1 << w) - 1))


class Var:
    """a net or variable; bits are wire nodes of the graph (one list per element)"""
    __slots__ = ("name", "kind", "dir", "s", "msb", "lsb", "w", "dims", "n", "bits", "g", "written")

    def __init__(self, g, name, kind, d, s, rng, dims):
        self.name, self.kind, self.dir, self.s = name, kind, d, s
        self.msb, self.lsb = rng
        self.w = abs(self.msb - self.lsb) + 1
        self.dims = dims
        n = 1
        for a, b in dims:
            n *= abs(a - b) + 1
        self.n = n
        self.g = g
        self.bits = {}
        self.written = False

    def elem(self, e):
        b = self.bits.get(e)
        if b is None:
            b = self.bits[e] = [self.g.new("w", -1, 0) for _ in range(self.w)]
        return b

    def pos(self, i):
        """bit index to offset"""
        return i - self.lsb if self.msb >= self.lsb else self.lsb - i


class Scope:
    def __init__(self, parent, mod):
        self.parent, self.mod = parent, mod
        self.names = {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            s = s.parent
        return None


class Local:
    """a local variable of a function or block, kept in the environment"""
    def __init__(self, name, s, rng):
        self.name, self.s = name, s
        self.msb, self.lsb = rng
        self.w = abs(rng[0] - rng[1]) + 1
        self.dims = []
        self.kind, self.n = "local", 1

    def pos(self, i):
        return i - self.lsb if self.msb >= self.lsb else self.lsb - i


class Env:
    """the procedural state: blocking view and scheduled values; keys (variable, element)"""
    def __init__(self):
        self.cur, self.nxt = {}, {}

    def copy(self):
        e = Env()
        e.cur, e.nxt = dict(self.cur), dict(self.nxt)
        return e


class Design:
    def __init__(self, mods, top, params=None, limit=4000000):
        self.mods, self.g = mods, Graph()
        self.ffs = []            # (q literal, d literal, initial literal)
        self.warn = []
        self.limit = limit
        self.inits = {}
        self.top = self.module(top, {k: V(max(32, int(v).bit_length() + 1), True, int(v)) for k, v in (params or {}).items()}, True)
        self.finish()

    # -------------------------------------------------- elaboration
    def module(self, name, params, top=False):
        m = self.mods.get(name)
        if m is None:
            raise Unsupported("module " + name)
        sc = Scope(None, m)
        sc.given = params
        sc.ports = m.ports
        self.scope_items(sc, m.items)
        for p in m.ports:
            v = sc.names.get(p)
            if not isinstance(v, Var):
                raise Unsupported("port %s of %s" % (p, name))
            if top and v.dir == "input":
                for e in range(v.n):
                    for i, x in enumerate(v.elem(e)):
                        self.g.k[x >> 1] = "i"
        return sc

    def scope_items(self, sc, items):
        for it in items:
            if it[0] == "function":
                sc.names[it[1]] = ("fn", it, sc)
            elif it[0] == "param":
                sc.names[it[1]] = ("lazy", it, sc)
        pos = [it[1] for it in items if it[0] == "param" and it[5]]
        given = getattr(sc, "given", None)
        if given:
            for k, v in given.items():
                n = pos[k] if isinstance(k, int) else k
                if n not in sc.names:
                    raise Unsupported("parameter " + n)
                sc.names[n] = v
        for it in items:
            if it[0] == "decl":
                self.declare(sc, it)
        for it in items:
            self.run_item(sc, it)

    def declare(self, sc, it):
        _, d, k, sg, r, names = it
        if k == "genvar":
            return
        if k == "real":
            raise Unsupported("real")
        for n, dims, init in names:
            if k == "integer":
                rng, sg = (31, 0), True
            elif r:
                rng = (self.const(sc, r[0]), self.const(sc, r[1]))
            else:
                rng = (0, 0)
            dd = [(self.const(sc, a), self.const(sc, b)) for a, b in dims]
            old = sc.names.get(n)
            if isinstance(old, Var):
                if r:
                    old.msb, old.lsb = rng
                    if old.w != abs(rng[0] - rng[1]) + 1:
                        raise Unsupported("redeclared " + n)
                if k in ("reg", "integer"):
                    old.kind = k
                if d:
                    old.dir = d
                old.s = old.s or sg
            else:
                sc.names[n] = Var(self.g, n, k or "wire", d, sg, rng, dd)
            if init is not None and k != "reg":
                self.drive(sc, ("id", n, []), init)

    def run_item(self, sc, it):
        k = it[0]
        if k in ("function", "param", "decl"):
            if k == "decl":
                for n, dims, init in it[5]:
                    if init is not None and it[2] == "reg":
                        self.inits[sc.names[n]] = {0: self.eval(sc, init, None, sc.names[n].w).ext(sc.names[n].w)}
            return
        if k == "assign":
            self.drive(sc, it[1], it[2])
        elif k == "always":
            self.always(sc, it[1], it[2])
        elif k == "initial":
            env = Env()
            self.exec(sc, it[2], env, "initial")
            for (v, e), b in env.cur.items():
                if isinstance(v, Var):
                    self.inits.setdefault(v, {})[e] = V(v.w, False, None, b)
        elif k == "inst":
            self.instance(sc, it)
        elif k == "gblock":
            self.genblock(sc, it[1])
        elif k == "gif":
            c = self.const(sc, it[1])
            b = it[2] if c else it[3]
            if b is not None:
                self.genblock(sc, b)
        elif k == "gfor":
            _, v, a, c, s, blk = it
            x = self.const(sc, a)
            n = 0
            while True:
                sub = Scope(sc, sc.mod)
                sub.names[v] = V(32, True, x)
                if not self.const(sub, c):
                    break
                self.genblock(sub, blk)
                x = self.const(sub, s)
                n += 1
                if n > 100000:
                    raise Unsupported("generate loop")
        elif k == "gcase":
            e = self.const(sc, it[1])
            dflt = None
            for es, blk in it[2]:
                if es is None:
                    dflt = blk
                elif any(self.const(sc, x) == e for x in es):
                    self.genblock(sc, blk)
                    return
            if dflt is not None:
                self.genblock(sc, dflt)
        else:
            raise Unsupported("item " + k)

    def genblock(self, sc, blk):
        sub = Scope(sc, sc.mod)
        self.scope_items(sub, blk[1])

    def instance(self, sc, it):
        _, mod, params, name, conns = it
        if mod in ("and", "or", "xor", "nand", "nor", "xnor", "not", "buf"):
            vals = [self.eval(sc, e, None, 1).ext(1).bits()[0] for _, e in conns[1:]]
            g = self.g
            f = {"and": g.AND, "nand": g.AND, "or": g.OR, "nor": g.OR, "xor": g.XOR, "xnor": g.XOR}.get(mod)
            r = vals[0]
            if f:
                for x in vals[1:]:
                    r = f(r, x)
            self.drive_bits(self.lbits(sc, conns[0][1]), [r ^ (mod in ("nand", "nor", "xnor", "not"))])
            return
        pv = {}
        for i, (n, e) in enumerate(params):
            if e is not None:
                pv[n if n else i] = self.eval(sc, e)
                if pv[n if n else i].c is None:
                    raise Unsupported("parameter value")
        ch = self.module(mod, pv)
        if len(conns) > len(ch.ports):
            raise Unsupported("too many connections to " + mod)
        for i, (n, e) in enumerate(conns):
            if n is None:
                n = ch.ports[i]
            v = ch.names.get(n)
            if not isinstance(v, Var) or n not in ch.ports:
                raise Unsupported("no port %s in %s" % (n, mod))
            if e is None:
                continue
            bits = [x for el in range(v.n) for x in v.elem(el)]
            if v.dir == "input":
                self.drive_bits(bits, self.eval(sc, e, None, len(bits)).ext(len(bits)).bits())
            elif v.dir == "output":
                dst = self.lbits(sc, e)
                src = bits[:len(dst)] + ([bits[-1]] if v.s else [0]) * (len(dst) - len(bits))
                self.drive_bits(dst, src)
            else:
                raise Unsupported("inout")

    def drive(self, sc, l, r):
        dst = self.lbits(sc, l)
        self.drive_bits(dst, self.eval(sc, r, None, len(dst)).ext(len(dst)).bits())

    def drive_bits(self, dst, src):
        for d, s in zip(dst, src):
            n = d >> 1
            if self.g.k[n] != "w":
                raise Unsupported("driven port")
            if self.g.a[n] >= 0 and self.g.a[n] != s:
                self.warn.append("multiple drivers")
                raise Unsupported("multiple drivers")
            self.g.a[n] = s
        if len(self.g.k) > self.limit:
            raise Unsupported("size limit")

    def var(self, sc, n):
        v = sc.find(n)
        if v is None:
            top = sc
            while top.parent is not None:
                top = top.parent
            v = top.names[n] = Var(self.g, n, "wire", "", False, (0, 0), [])
        return v

    def lbits(self, sc, l):
        """bits of a net expression on the left"""
        if l[0] == "cat":
            out = []
            for x in reversed(l[1]):
                out += self.lbits(sc, x)
            return out
        if l[0] != "id":
            raise Unsupported("left side")
        v = self.var(sc, l[1])
        if not isinstance(v, Var):
            raise Unsupported("left side " + l[1])
        e, lo, w = self.select_const(sc, v, l[2])
        b = v.elem(e)
        return [b[i] if 0 <= i < v.w else self.g.new("w", -1) for i in range(lo, lo + w)]

    def select_const(self, sc, v, sel):
        e, k = self.elem_const(sc, v, sel)
        if k is None:
            raise Unsupported("index")
        sel = sel[k:]
        if not sel:
            return e, 0, v.w
        if len(sel) > 1:
            raise Unsupported("selection")
        return (e,) + self.part(sc, v, sel[0])

    def part(self, sc, v, s, env=None):
        if s[0] == "idx":
            p = v.pos(self.const(sc, s[1], env))
            lo, w = p, 1
        elif s[0] == "range":
            a, b = v.pos(self.const(sc, s[1], env)), v.pos(self.const(sc, s[2], env))
            lo, w = b, a - b + 1
        else:
            b, w = self.const(sc, s[1], env), self.const(sc, s[2], env)
            if s[0] == "down":
                b = b - w + 1
            if v.msb < v.lsb:
                raise Unsupported("ascending part select")
            lo = b - v.lsb
        if w < 1 or lo < -(1 << 16) or lo + w > v.w + (1 << 16):
            raise Unsupported("select out of range on " + v.name)
        return lo, w        # may reach outside the vector: such bits read as 0 (undefined) and are not written

    def elem_const(self, sc, v, sel, env=None):
        e = 0
        for i, (a, b) in enumerate(v.dims):
            if i >= len(sel) or sel[i][0] != "idx":
                raise Unsupported("array used as a whole: " + v.name)
            x = self.eval(sc, sel[i][1], env)
            if x.c is None:
                return None, None
            lo, hi = min(a, b), max(a, b)
            x = x.int()
            if not lo <= x <= hi:
                return -1, len(v.dims)
            e = e * (hi - lo + 1) + x - lo
        return e, len(v.dims)

    def const(self, sc, e, env=None):
        return self.eval(sc, e, env).int()

    # -------------------------------------------------- expressions
    def size(self, sc, e, env):
        """(width, signed) of an expression on its own"""
        k = e[0]
        if k == "num":
            v = number(e[1])
            return v.w, v.s
        if k == "str":
            return max(8, 8 * len(e[1])), False
        if k == "id":
            v = self.lookup(sc, e[1])
            if isinstance(v, V):
                if not e[2]:
                    return v.w, v.s
                if e[2][0][0] == "idx":
                    return 1, False
                if e[2][0][0] == "range":
                    return abs(self.const(sc, e[2][0][1], env) - self.const(sc, e[2][0][2], env)) + 1, False
                return self.const(sc, e[2][0][2], env), False
            sel = e[2][len(v.dims):]
            if not sel:
                return v.w, v.s
            s = sel[0]
            if s[0] == "idx":
                return 1, False
            if s[0] == "range":
                return abs(self.const(sc, s[1], env) - self.const(sc, s[2], env)) + 1, False
            return self.const(sc, s[2], env), False
        if k == "un":
            if e[1] in ("!", "&", "|", "^", "~&", "~|", "~^", "^~"):
                return 1, False
            return self.size(sc, e[2], env)
        if k == "bin":
            o = e[1]
            if o in ("||", "&&", "==", "!=", "===", "!==", "<", "<=", ">", ">="):
                return 1, False
            a = self.size(sc, e[2], env)
            if o in ("<<", ">>", "<<<", ">>>", "**"):
                return a
            b = self.size(sc, e[3], env)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "?":
            a, b = self.size(sc, e[2], env), self.size(sc, e[3], env)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "cat":
            return sum(self.size(sc, x, env)[0] for x in e[1]), False
        if k == "rep":
            return self.const(sc, e[1], env) * sum(self.size(sc, x, env)[0] for x in e[2]), False
        if k == "call":
            n = e[1]
            if n == "$signed":
                return self.size(sc, e[2][0], env)[0], True
            if n == "$unsigned":
                return self.size(sc, e[2][0], env)[0], False
            if n in ("$clog2", "$time", "$random"):
                return 32, True
            f = sc.find(n)
            if not f or f[0] != "fn":
                raise Unsupported("function " + n)
            d = f[1]
            if d[2] == "integer":
                return 32, True
            if d[4]:
                return abs(self.const(f[2], d[4][0]) - self.const(f[2], d[4][1])) + 1, d[3]
            return 1, d[3]
        raise Unsupported("expression " + k)

    def lookup(self, sc, n):
        v = sc.find(n)
        if isinstance(v, tuple) and v[0] == "lazy":
            it, s2 = v[1], v[2]
            s2.names[n] = ("busy",)
            x = self.eval(s2, it[2])
            if it[3]:
                x = V(abs(self.const(s2, it[3][0]) - self.const(s2, it[3][1])) + 1, it[4], x.ext(max(x.w, 64)).int())
            s2.names[n] = x
            return x
        if v is None:
            if "." in n:
                raise Unsupported("hierarchical name " + n)
            return self.var(sc, n)
        if isinstance(v, tuple):
            raise Unsupported("name " + n)
        return v

    def eval(self, sc, e, env=None, ctx=0):
        """value of e, in a context of at least ctx bits; the result may be wider"""
        w, s = self.size(sc, e, env)
        return self.ev(sc, e, env, max(w, ctx), s)

    def ev(self, sc, e, env, W, S):
        """value of e with width W, operands taken as signed if S"""
        k = e[0]
        g = self.g
        if k == "num":
            v = number(e[1])
            return V(v.w, v.s and S, v.c, None, v.dc).ext(W)
        if k == "str":
            v = 0
            for ch in e[1]:
                v = v << 8 | ord(ch)
            return V(W, False, v)
        if k == "id":
            v = self.read(sc, e, env)
            return V(v.w, v.s and S, v.c, v.b).ext(W)
        if k == "un":
            o = e[1]
            if o in ("+", "-", "~"):
                a = self.ev(sc, e[2], env, W, S)
                if o == "+":
                    return a
                if a.c is not None:
                    return V(W, S, ~a.c if o == "~" else -a.c)
                b = [x ^ 1 for x in a.bits()]
                return V(W, S, None, b if o == "~" else self.add([0] * W, b, 1)[0])
            a = self.eval(sc, e[2], env).bits()
            if o == "!":
                r = self.orall(a) ^ 1
            elif o in ("|", "~|"):
                r = self.orall(a) ^ (o == "~|")
            elif o in ("&", "~&"):
                r = self.orall([x ^ 1 for x in a]) ^ (o == "&")
            else:
                r = 0
                for x in a:
                    r = g.XOR(r, x)
                r ^= o != "^"
            return V(W, False, None, [r] + [0] * (W - 1))
        if k == "bin":
            return self.binop(sc, e, env, W, S)
        if k == "?":
            c = self.orall(self.eval(sc, e[1], env).bits())
            if c == 1:
                return self.ev(sc, e[2], env, W, S)
            if c == 0:
                return self.ev(sc, e[3], env, W, S)
            a, b = self.ev(sc, e[2], env, W, S).bits(), self.ev(sc, e[3], env, W, S).bits()
            return V(W, S, None, [g.MUX(c, x, y) for x, y in zip(a, b)])
        if k in ("cat", "rep"):
            bits = []
            for x in reversed(e[1] if k == "cat" else e[2]):
                w, s = self.size(sc, x, env)
                bits += self.ev(sc, x, env, w, s).bits()
            if k == "rep":
                bits = bits * self.const(sc, e[1], env)
            return V(len(bits), False, None, bits).ext(W) if bits else V(W, False, 0)
        if k == "call":
            n = e[1]
            if n in ("$signed", "$unsigned"):
                v = self.eval(sc, e[2][0], env)
                w = self.size(sc, e[2][0], env)[0]
                return V(w, n == "$signed" and S, v.c, v.b).ext(W)
            if n == "$clog2":
                return V(W, S, max(0, (self.const(sc, e[2][0], env) - 1).bit_length()))
            return self.call(sc, n, e[2], env, S).ext(W)
        raise Unsupported("expression " + k)

    def orall(self, b):
        r = 0
        for x in b:
            r = self.g.OR(r, x)
        return r

    def add(self, a, b, c=0):
        g = self.g
        out = []
        for x, y in zip(a, b):
            p = g.XOR(x, y)
            out.append(g.XOR(p, c))
            c = g.MUX(p, c, x)
        return out, c

    def binop(self, sc, e, env, W, S):
        o = e[1]
        g = self.g
        if o in ("||", "&&"):
            a = self.orall(self.eval(sc, e[2], env).bits())
            b = self.orall(self.eval(sc, e[3], env).bits())
            r = g.OR(a, b) if o == "||" else g.AND(a, b)
            return V(W, False, None, [r] + [0] * (W - 1))
        if o in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
            (wa, sa), (wb, sb) = self.size(sc, e[2], env), self.size(sc, e[3], env)
            w, s = max(wa, wb), sa and sb
            a, b = self.ev(sc, e[2], env, w, s), self.ev(sc, e[3], env, w, s)
            if a.c is not None and b.c is not None:
                x, y = V(w, s, a.c).int(), V(w, s, b.c).int()
                r = {"=": x == y, "!": x != y}.get(o[0]) if o[0] in "=!" else {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
                return V(W, False, int(r))
            a, b = list(a.bits()), list(b.bits())
            if o[0] in "=!":
                r = self.orall([g.XOR(x, y) for x, y in zip(a, b)]) ^ (o[0] == "=")
            else:
                if s:
                    a[-1] ^= 1
                    b[-1] ^= 1
                if o in (">", "<="):
                    a, b = b, a
                r = self.add(a, [x ^ 1 for x in b], 1)[1] ^ 1      # a < b
                r ^= o in (">=", "<=")
            return V(W, False, None, [r] + [0] * (W - 1))
        if o in ("<<", ">>", "<<<", ">>>"):
            a = self.ev(sc, e[2], env, W, S)
            sh = self.eval(sc, e[3], env)
            fill = 0
            if sh.c is not None:
                n = sh.c
                if a.c is not None:
                    x = V(W, S, a.c).int() if o == ">>>" else a.c
                    return V(W, S, 0 if o[0] == "<" and n >= W else x << n if o[0] == "<" else x >> n)
                b = a.bits()
                if o == ">>>" and S:
                    fill = b[-1]
                n = min(n, W)
                return V(W, S, None, [0] * n + b[:W - n] if o[0] == "<" else b[n:] + [fill] * n)
            b = list(a.bits())
            if o == ">>>" and S:
                fill = b[-1]
            for i, c in enumerate(sh.bits()):
                n = min(1 << i, W) if i < 40 else W
                t = [0] * n + b[:W - n] if o[0] == "<" else b[n:] + [fill] * n
                b = [g.MUX(c, x, y) for x, y in zip(t, b)]
            return V(W, S, None, b)
        if o == "**":
            a, b = self.ev(sc, e[2], env, W, S), self.eval(sc, e[3], env)
            x, y = V(W, S, a.c).int(), b.int() if b.c is not None else None
            if a.c is None or y is None:
                raise Unsupported("power")
            if y < 0:
                return V(W, S, {1: 1, -1: -1 if y & 1 else 1}.get(x, 0))
            return V(W, S, pow(x, y, 1 << (W + 1)) if x >= 0 else x ** y)
        a, b = self.ev(sc, e[2], env, W, S), self.ev(sc, e[3], env, W, S)
        if a.c is not None and b.c is not None:
            x, y = V(W, S, a.c).int(), V(W, S, b.c).int()
            if o == "+":
                r = x + y
            elif o == "-":
                r = x - y
            elif o == "*":
                r = x * y
            elif o in "/%":
                if y == 0:
                    raise Unsupported("division by zero")
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if o == "/" else x - q * y
            else:
                r = {"&": x & y, "|": x | y, "^": x ^ y, "~^": ~(x ^ y), "^~": ~(x ^ y)}[o]
            return V(W, S, r)
        x, y = a.bits(), b.bits()
        if o == "&":
            r = [g.AND(p, q) for p, q in zip(x, y)]
        elif o == "|":
            r = [g.OR(p, q) for p, q in zip(x, y)]
        elif o in ("^", "~^", "^~"):
            r = [g.XOR(p, q) ^ (o != "^") for p, q in zip(x, y)]
        elif o == "+":
            r = self.add(x, y)[0]
        elif o == "-":
            r = self.add(x, [q ^ 1 for q in y], 1)[0]
        elif o == "*":
            r = [0] * W
            for i in range(W):
                if y[i]:
                    r = r[:i] + self.add(r[i:], [g.AND(p, y[i]) for p in x[:W - i]])[0]
        else:
            sx = sy = 0
            if S:
                sx, sy = x[-1], y[-1]
                neg = lambda v, c: self.add([0] * W, [g.XOR(p, c) for p in v], c)[0]
                x, y = neg(x, sx), neg(y, sy)
            q, r = [0] * W, [0] * (W + 1)
            for i in reversed(range(W)):
                r = [x[i]] + r[:W]
                d, c = self.add(r, [p ^ 1 for p in y] + [1], 1)
                q[i] = c
                r = [g.MUX(c, p, t) for p, t in zip(d, r)]
            if o == "/":
                r = neg(q, g.XOR(sx, sy)) if S else q
            else:
                r = neg(r[:W], sx) if S else r[:W]
        return V(W, S, None, r)

    def read(self, sc, e, env):
        _, n, sel = e
        v = self.lookup(sc, n)
        if isinstance(v, V):
            if not sel:
                return v
            f = Local(n, v.s, (v.w - 1, 0))
            get = lambda el: v.bits()
            v2 = f
        else:
            v2 = v
            get = lambda el: self.value(v, el, env)
        k = len(v2.dims)
        el, used = self.elem_const(sc, v2, sel, env) if k else (0, 0)
        if el is None:
            # element chosen by a signal
            b = self.dyn_elem(sc, v2, sel[:k], env, get)
        elif el < 0:
            b = [0] * v2.w
        else:
            b = get(el)
        rest = sel[k:]
        if not rest:
            return V(v2.w, v2.s, None, b)
        if len(rest) > 1:
            raise Unsupported("selection")
        s = rest[0]
        ix = self.eval(sc, s[1], env)
        if ix.c is None:
            if s[0] == "range":
                raise Unsupported("part select")
            w = 1 if s[0] == "idx" else self.const(sc, s[2], env)
            lo = v2.lsb if v2.msb >= v2.lsb else v2.msb
            bits = b if v2.msb >= v2.lsb else b[::-1]
            if v2.msb < v2.lsb and s[0] != "idx":
                raise Unsupported("part select")
            off = list(ix.bits())
            iw = len(off)
            adj = -lo - (w - 1 if s[0] == "down" else 0)
            if adj:
                iw += 2
                off = self.add(off + [off[-1] if ix.s else 0] * 2, [(adj >> i) & 1 for i in range(iw)])[0]
            cur = list(bits)
            for i, c in enumerate(off):
                n2 = min(1 << i, len(cur)) if i < 40 else len(cur)
                sh = cur[n2:] + [0] * n2
                cur = [self.g.MUX(c, p, q) for p, q in zip(sh, cur)]
            return V(w, False, None, (cur + [0] * w)[:w])
        if s[0] == "idx" and not 0 <= v2.pos(ix.int()) < v2.w:
            return V(1, False, 0)
        lo, w = self.part(sc, v2, s, env)
        return V(w, False, None, [b[i] if 0 <= i < len(b) else 0 for i in range(lo, lo + w)])

    def dyn_elem(self, sc, v, sel, env, get):
        # flat index over all dimensions
        g = self.g
        def rec(dim, base):
            if dim == len(v.dims):
                return get(base)
            a, b = v.dims[dim]
            lo, n = min(a, b), abs(a - b) + 1
            ix = self.eval(sc, sel[dim][1], env)
            if ix.c is not None:
                x = ix.int() - lo
                return rec(dim + 1, base * n + x) if 0 <= x < n else [0] * v.w
            bits = list(ix.bits())
            if lo:
                w = len(bits) + 2
                bits = self.add(bits + [bits[-1] if ix.s else 0] * 2, [(-lo >> i) & 1 for i in range(w)])[0]
            items = [rec(dim + 1, base * n + i) for i in range(n)]
            for i, c in enumerate(bits):
                if len(items) == 1 and i:
                    z = [0] * v.w
                    items[0] = [g.MUX(c, p, q) for p, q in zip(z, items[0])]
                    continue
                nxt = []
                for j in range(0, len(items), 2):
                    p = items[j]
                    q = items[j + 1] if j + 1 < len(items) else [0] * v.w
                    nxt.append([g.MUX(c, y, x) for x, y in zip(p, q)])
                items = nxt
            return items[0] if len(items) == 1 else items[0]
        return rec(0, 0)

    def value(self, v, el, env):
        if env is not None:
            b = env.cur.get((v, el))
            if b is not None:
                return b
        if isinstance(v, Local):
            return [0] * v.w
        return v.elem(el)

    def call(self, sc, n, args, env, S=False):
        f = sc.find(n)
        if not isinstance(f, tuple) or f[0] != "fn":
            raise Unsupported("function " + n)
        _, name, rtype, sg, r, anames, decls, body = f[1]
        fs = Scope(f[2], f[2].mod)
        e2 = Env()
        if env is not None:
            e2.cur.update({k: b for k, b in env.cur.items() if isinstance(k[0], Var)})
        rng = (31, 0) if rtype == "integer" else (self.const(f[2], r[0]), self.const(f[2], r[1])) if r else (0, 0)
        ret = fs.names[name] = Local(name, sg or rtype == "integer", rng)
        e2.cur[(ret, 0)] = [0] * ret.w
        for d in decls:
            if d[0] == "param":
                fs.names[d[1]] = ("lazy", d, fs)
                continue
            for nm, dims, init in d[5]:
                if dims:
                    raise Unsupported("local array")
                rg = (31, 0) if d[2] == "integer" else (self.const(fs, d[4][0]), self.const(fs, d[4][1])) if d[4] else (0, 0)
                if nm in fs.names and nm != name:
                    continue
                fs.names[nm] = Local(nm, d[3] or d[2] == "integer", rg)
        if len(args) != len(anames):
            raise Unsupported("arguments of " + n)
        for a, x in zip(anames, args):
            l = fs.names[a]
            e2.cur[(l, 0)] = self.eval(sc, x, env, l.w).ext(l.w).bits()
        self.exec(fs, body, e2, "func")
        return V(ret.w, ret.s and S, None, e2.cur[(ret, 0)])

    # -------------------------------------------------- statements
    def exec(self, sc, st, env, mode):
        k = st[0]
        if k == "null":
            return
        if k == "block":
            if st[1]:
                sc = Scope(sc, sc.mod)
                for d in st[1]:
                    for nm, dims, init in d[5]:
                        rg = (31, 0) if d[2] == "integer" else (self.const(sc, d[4][0]), self.const(sc, d[4][1])) if d[4] else (0, 0)
                        sc.names[nm] = Local(nm, d[3] or d[2] == "integer", rg)
            for x in st[2]:
                self.exec(sc, x, env, mode)
        elif k == "asg":
            self.assign(sc, st, env, mode)
        elif k == "if":
            c = self.orall(self.eval(sc, st[1], env).bits())
            if c == 1:
                self.exec(sc, st[2], env, mode)
            elif c == 0:
                if st[3] is not None:
                    self.exec(sc, st[3], env, mode)
            else:
                a, b = env.copy(), env.copy()
                self.exec(sc, st[2], a, mode)
                if st[3] is not None:
                    self.exec(sc, st[3], b, mode)
                self.merge(env, c, a, b)
        elif k == "case":
            self.case(sc, st, env, mode)
        elif k in ("for", "while"):
            if k == "for":
                self.exec(sc, st[1], env, mode)
                cond, step, body = st[2], st[3], st[4]
            else:
                cond, step, body = st[1], None, st[2]
            n = 0
            while True:
                c = self.orall(self.eval(sc, cond, env).bits())
                if c > 1:
                    raise Unsupported("loop on a signal")
                if c == 0:
                    break
                self.exec(sc, body, env, mode)
                if step:
                    self.exec(sc, step, env, mode)
                n += 1
                if n > 200000:
                    raise Unsupported("loop")
        elif k == "repeat":
            for _ in range(self.const(sc, st[1], env)):
                self.exec(sc, st[2], env, mode)
        elif k == "sys":
            if st[1] in ("$readmemh", "$readmemb"):
                raise Unsupported(st[1])
        else:
            raise Unsupported("statement " + k)

    def merge(self, env, c, a, b):
        g = self.g
        for which in ("cur", "nxt"):
            x, y, old = getattr(a, which), getattr(b, which), getattr(env, which)
            new = {}
            for key in set(x) | set(y):
                p, q = x.get(key), y.get(key)
                if p is q:
                    new[key] = p
                    continue
                if p is None or q is None:
                    base = [0] * key[0].w if isinstance(key[0], Local) else key[0].elem(key[1])
                    p = p if p is not None else base
                    q = q if q is not None else base
                new[key] = [g.MUX(c, s, t) for s, t in zip(p, q)]
            old.clear()
            old.update(new)

    def case(self, sc, st, env, mode):
        _, kind, e, items = st
        exprs = [x for es, _ in items if es is not None for x in es]
        sizes = [self.size(sc, x, env) for x in [e] + exprs]
        W, S = max(s[0] for s in sizes), all(s[1] for s in sizes)
        v = self.ev(sc, e, env, W, S)
        vb = v.bits()
        arms, dflt = [], None
        for es, body in items:
            if es is None:
                dflt = body
                continue
            c = 0
            for x in es:
                y = self.ev(sc, x, env, W, S)
                dc = y.dc if kind != "case" else 0
                c = self.g.OR(c, self.orall([self.g.XOR(p, q) for i, (p, q) in enumerate(zip(vb, y.bits())) if not dc >> i & 1]) ^ 1)
            arms.append((c, body))
        # from the last arm backwards
        def go(i, env):
            while i < len(arms) and arms[i][0] == 0:
                i += 1
            if i == len(arms):
                if dflt is not None:
                    self.exec(sc, dflt, env, mode)
                return
            c, body = arms[i]
            if c == 1:
                self.exec(sc, body, env, mode)
                return
            a, b = env.copy(), env.copy()
            self.exec(sc, body, a, mode)
            go(i + 1, b)
            self.merge(env, c, a, b)
        # a case that lists every value needs no default
        if dflt is None and arms and self.full(v, items, sc, env, W, S, kind):
            arms[-1] = (1, arms[-1][1])
        go(0, env)

    def full(self, v, items, sc, env, W, S, kind):
        w = self.size(sc, ("num", "1"), env)[0]
        if kind != "case":
            return False
        try:
            seen = set()
            for es, _ in items:
                for x in es:
                    y = self.ev(sc, x, env, W, S)
                    if y.c is None or y.dc:
                        return False
                    seen.add(y.c)
            live = [i for i, x in enumerate(v.bits()) if x > 1]
            return len(live) < 16 and len(seen) >= 1 << len(live) and all(sum(((c >> i) & 1) << j for j, i in enumerate(live)) < 1 << len(live) for c in seen) \
                and len({tuple((c >> i) & 1 for i in live) for c in seen if all(((c >> i) & 1) == v.bits()[i] for i in range(W) if i not in live)}) == 1 << len(live)
        except Unsupported:
            return False

    def assign(self, sc, st, env, mode):
        _, o, l, r = st
        w = self.lsize(sc, l, env)
        val = self.eval(sc, r, env, w).ext(w).bits()
        self.store(sc, l, val, env, o == "=" , mode)

    def lsize(self, sc, l, env):
        if l[0] == "cat":
            return sum(self.lsize(sc, x, env) for x in l[1])
        return self.size(sc, l, env)[0]

    def store(self, sc, l, val, env, blocking, mode):
        if l[0] == "cat":
            i = 0
            for x in reversed(l[1]):
                w = self.lsize(sc, x, env)
                self.store(sc, x, val[i:i + w], env, blocking, mode)
                i += w
            return
        v = sc.find(l[1])
        if not isinstance(v, (Var, Local)):
            raise Unsupported("assignment to " + l[1])
        sel = l[2]
        k = len(v.dims)
        el, _ = self.elem_const(sc, v, sel, env) if k else (0, 0)
        if el is None:
            cond = self.elem_conds(sc, v, sel[:k], env)
        elif el < 0:
            return
        else:
            cond = [(el, 1)]
        rest = sel[k:]
        g = self.g
        for el, c in cond:
            key = (v, el)
            if blocking or isinstance(v, Local):
                old = env.cur.get(key)
            else:
                old = env.nxt.get(key)
                if old is None:
                    old = env.cur.get(key) if mode == "comb" else None
            if old is None:
                old = [0] * v.w if isinstance(v, Local) or mode == "initial" else v.elem(el)
            if not rest:
                new = list(val)
            else:
                s = rest[0]
                ix = self.eval(sc, s[1], env)
                if ix.c is not None:
                    if s[0] == "idx" and not 0 <= v.pos(ix.int()) < v.w:
                        continue
                    lo, w = self.part(sc, v, s, env)
                    new = [val[i - lo] if lo <= i < lo + w else x for i, x in enumerate(old)]
                else:
                    if s[0] == "range" or v.msb < v.lsb:
                        raise Unsupported("part select")
                    new = list(old)
                    w = 1 if s[0] == "idx" else self.const(sc, s[2], env)
                    for p in range(v.w):
                        i = p + v.lsb + (w - 1 if s[0] == "down" else 0)
                        hit = self.orall([g.XOR(x, (i >> j) & 1) for j, x in enumerate(ix.bits())]) ^ 1 if i < 1 << len(ix.bits()) else 0
                        for j in range(w):
                            if p + j < v.w:
                                new[p + j] = g.MUX(hit, val[j], new[p + j])
            if c != 1:
                new = [g.MUX(c, p, q) for p, q in zip(new, old)]
            if blocking or isinstance(v, Local):
                env.cur[key] = new
                if isinstance(v, Var):
                    env.nxt[key] = new
            else:
                env.nxt[key] = new

    def elem_conds(self, sc, v, sel, env):
        out = [(0, 1)]
        g = self.g
        for (a, b), s in zip(v.dims, sel):
            lo, n = min(a, b), abs(a - b) + 1
            ix = self.eval(sc, s[1], env)
            new = []
            for base, c in out:
                for i in range(n):
                    x = i + lo
                    if ix.c is not None:
                        hit = int(ix.int() == x)
                    else:
                        hit = self.orall([g.XOR(p, (x >> j) & 1) for j, p in enumerate(ix.bits())]) ^ 1 if x < 1 << len(ix.bits()) else 0
                    h = g.AND(c, hit)
                    if h:
                        new.append((base * n + i, h))
            out = new
        return out

    def always(self, sc, edges, body):
        env = Env()
        if edges:
            if any(e[0] != "posedge" for e in edges):
                raise Unsupported("negedge")
            self.exec(sc, body, env, "seq")
            for (v, el), b in env.nxt.items():
                if isinstance(v, Local):
                    continue
                if v.kind == "integer":
                    continue
                bits = v.elem(el)
                for i, d in enumerate(b):
                    n = bits[i] >> 1
                    if d == bits[i]:
                        # not assigned by this block (or holds): leave to others, remember as holding
                        self.hold = getattr(self, "hold", [])
                        self.hold.append((v, el, i))
                        continue
                    if self.g.k[n] == "q":
                        raise Unsupported("register written twice")
                    if self.g.a[n] >= 0:
                        raise Unsupported("multiple drivers")
                    self.g.k[n] = "q"
                    self.ffs.append((bits[i], d, v, el, i))
        else:
            self.exec(sc, body, env, "comb")
            for (v, el), b in env.nxt.items():
                if isinstance(v, Local) or v.kind == "integer":
                    continue
                bits = v.elem(el)
                for i, d in enumerate(b):
                    if d == bits[i]:
                        continue
                    self.drive_bits([bits[i]], [d])

    # -------------------------------------------------- closing the graph
    def finish(self):
        """rebuild without wires, constants folded"""
        g, new = self.g, Graph()
        memo = {0: 0}
        self.undriven = 0
        self.inputs = {}
        for p in self.top.ports:
            v = self.top.names[p]
            if v.dir == "input":
                lits = []
                for e in range(v.n):
                    for x in v.elem(e):
                        memo[x >> 1] = new.new("i")
                        lits.append(memo[x >> 1])
                self.inputs[p] = lits
        for q, *_ in self.ffs:
            memo[q >> 1] = new.new("q")
        busy = set()
        for v, els in self.inits.items():
            for el, x in els.items():
                for n, b in zip(v.elem(el), x.bits()):
                    if g.k[n >> 1] == "w" and g.a[n >> 1] < 0:
                        g.a[n >> 1] = b

        def res(lit):
            root = lit >> 1
            if root in memo:
                return memo[root] ^ (lit & 1)
            stack = [root]
            while stack:
                n = stack[-1]
                if n in memo:
                    stack.pop()
                    continue
                k = g.k[n]
                if k == "w":
                    a = g.a[n]
                    if a < 0:
                        self.undriven += 1
                        memo[n] = 0
                        stack.pop()
                        continue
                    deps = (a >> 1,)
                elif k in "ax":
                    deps = (g.a[n] >> 1, g.b[n] >> 1)
                else:
                    raise Unsupported("node " + k)
                todo = [d for d in deps if d not in memo]
                if todo:
                    if n in busy:
                        raise Unsupported("combinational loop")
                    busy.add(n)
                    stack += todo
                    continue
                if k == "w":
                    memo[n] = memo[deps[0]] ^ (g.a[n] & 1)
                else:
                    f = new.AND if k == "a" else new.XOR
                    memo[n] = f(memo[deps[0]] ^ (g.a[n] & 1), memo[deps[1]] ^ (g.b[n] & 1))
                busy.discard(n)
                stack.pop()
            return memo[root] ^ (lit & 1)

        self.outputs = {}
        for p in self.top.ports:
            v = self.top.names[p]
            if v.dir == "output":
                self.outputs[p] = [res(x) for e in range(v.n) for x in v.elem(e)]
        self.state = []
        self.statebits = {}
        for q, d, v, el, i in self.ffs:
            ini = 0
            if v in self.inits and el in self.inits[v]:
                ini = self.inits[v][el].bits()[i]
            self.state.append((memo[q >> 1], res(d), ini))
            self.statebits[(v.name, el, i)] = len(self.state) - 1
        self.net = new
        # live nodes in order (a node's operands always precede it)
        live = bytearray(len(new.k))
        for b in self.outputs.values():
            for x in b:
                live[x >> 1] = 1
        for _, d, _ in self.state:
            live[d >> 1] = 1
        for n in range(len(new.k) - 1, 0, -1):
            if live[n] and new.k[n] in "ax":
                live[new.a[n] >> 1] = live[new.b[n] >> 1] = 1
        self.order = [n for n in range(1, len(new.k)) if live[n] and new.k[n] in "ax"]
        self.g = None
        self.gates = len(self.order)

    # -------------------------------------------------- simulation
    def simulate(self, cycles, nvec, drive, resets=1, rst="rst", watch=None):
        """drive(t) gives the inputs of step t as {port: [value of every vector]}; steps -resets..-1 have the
        reset on.  Yields the outputs of steps 0.. as {port: [value of every vector]}."""
        new = self.net
        M = (1 << nvec) - 1
        val = [0] * len(new.k)
        prog = [(n, new.k[n] == "a", new.a[n] >> 1, M if new.a[n] & 1 else 0, new.b[n] >> 1, M if new.b[n] & 1 else 0) for n in self.order]
        st = [M if ini else 0 for _, _, ini in self.state]
        for t in range(-resets, cycles):
            ins = drive(t)
            for p, lits in self.inputs.items():
                if p == rst:
                    vs = None
                    for x in lits:
                        val[x >> 1] = M if t < 0 else 0
                    continue
                vs = ins.get(p)
                if vs is None:
                    for x in lits:
                        val[x >> 1] = 0
                    continue
                for i, w in enumerate(columns(vs, len(lits))):
                    val[lits[i] >> 1] = w
            for (q, _, _), s in zip(self.state, st):
                val[q >> 1] = s
            for n, isand, a, ai, b, bi in prog:
                if isand:
                    val[n] = (val[a] ^ ai) & (val[b] ^ bi)
                else:
                    val[n] = val[a] ^ val[b] ^ ai ^ bi
            if t >= 0:
                yield {p: rows([val[x >> 1] ^ (M if x & 1 else 0) for x in lits], nvec) for p, lits in self.outputs.items()}
            st = [val[d >> 1] ^ (M if d & 1 else 0) for _, d, _ in self.state]


class Stepper:
    """A design stepped by harness/vsim.cpp, up to 64 vectors.  Inputs are set by name and stay."""
    _so = {}

    def __init__(self, path, design, nvec, rst="rst"):
        import array, ctypes
        self.D, self.n, self.M, self.rst = design, nvec, (1 << nvec) - 1, rst
        if path not in Stepper._so:
            Stepper._so[path] = ctypes.CDLL(path)
        self.f = Stepper._so[path].vstep
        net = design.net
        if not hasattr(design, "_tables"):
            ops = array.array("i")
            for n in design.order:
                ops.extend((0 if net.k[n] == "a" else 1, n, net.a[n], net.b[n]))
            design._tables = (ops, array.array("i", [q >> 1 for q, _, _ in design.state]), array.array("i", [d for _, d, _ in design.state]))
        self.ops, self.q, self.d = design._tables
        self.val = array.array("Q", bytes(8 * len(net.k)))
        self.st = array.array("Q", [0xFFFFFFFFFFFFFFFF if i else 0 for _, _, i in design.state])
        ptr = lambda a: ctypes.c_void_p(a.buffer_info()[0])
        self.args = (ptr(self.val), ptr(self.ops), ctypes.c_long(len(self.ops) // 4), ptr(self.q), ptr(self.d), ctypes.c_long(len(self.q)), ptr(self.st))
        self.long = ctypes.c_long

    def set(self, port, vals):
        for x, w in zip(self.D.inputs[port], columns(vals, len(self.D.inputs[port]))):
            self.val[x >> 1] = w

    def step(self, steps=1):
        self.f(*self.args, self.long(steps))

    def reset(self, steps=1):
        for x in self.D.inputs.get(self.rst, ()):
            self.val[x >> 1] = 0xFFFFFFFFFFFFFFFF
        self.step(steps)
        for x in self.D.inputs.get(self.rst, ()):
            self.val[x >> 1] = 0

    def bit(self, port):
        """a one-bit output, one bit per vector"""
        x = self.D.outputs[port][0]
        return (self.val[x >> 1] ^ (0xFFFFFFFFFFFFFFFF if x & 1 else 0)) & self.M

    def get(self, port):
        return rows([(self.val[x >> 1] ^ (0xFFFFFFFFFFFFFFFF if x & 1 else 0)) & self.M for x in self.D.outputs[port]], self.n)

    def words(self, port, j, w=32):
        """the output of one vector as a list of words"""
        v = 0
        lits = self.D.outputs[port]
        out = []
        for i in range(0, len(lits), w):
            v = 0
            for k, x in enumerate(lits[i:i + w]):
                v |= ((self.val[x >> 1] >> j & 1) ^ (x & 1)) << k
            out.append(v)
        return out


def columns(vals, w):
    """values of the vectors -> one integer per bit position"""
    n = len(vals)
    big = 0
    cols = [0] * w
    for j, v in enumerate(vals):
        b = 1 << j
        v &= (1 << w) - 1
        i = 0
        while v:
            low = v & -v
            cols[low.bit_length() - 1] |= b
            v ^= low
    return cols


def rows(cols, n):
    out = [0] * n
    for i, c in enumerate(cols):
        b = 1 << i
        while c:
            low = c & -c
            out[low.bit_length() - 1] |= b
            c ^= low
    return out
