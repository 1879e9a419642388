"""Reads what matters of a Liberty file: cells, pin directions, functions and flip-flops."""
import re

TOK = re.compile(r"\s*([A-Za-z_]\w*|[01]|[()'!^*&+|])")


class Bad(Exception):
    pass


def blank(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", " ", t)


def block(t, i):
    """t[i] is '{'; the text between it and its match, and the place behind"""
    d = 0
    q = False
    for j in range(i, len(t)):
        c = t[j]
        if c == '"':
            q = not q
        elif not q and c == "{":
            d += 1
        elif not q and c == "}":
            d -= 1
            if d == 0:
                return t[i + 1:j], j + 1
    raise Bad("unbalanced braces")


def groups(t, kind):
    """(argument, body) of every group of that kind at the top of t"""
    i = 0
    while True:
        m = re.compile(r'"[^"]*"|([A-Za-z_]\w*)\s*\(([^()]*)\)\s*\{').search(t, i)
        if not m:
            return
        if m.group(1) is None:
            i = m.end()
            continue
        body, j = block(t, m.end() - 1)
        if m.group(1) == kind:
            yield m.group(2), body
            i = j
        elif kind == "cell" and m.group(1) == "library":
            i = m.end()
        else:
            i = j


def attr(t, name):
    m = re.search(r"\b%s\s*:\s*(\"([^\"]*)\"|[^;\s]+)\s*;" % name, t)
    return None if not m else (m.group(2) if m.group(2) is not None else m.group(1))


def expr(s):
    """' and ! bind tightest, then ^, then * & and juxtaposition, then + |; returns f(env)"""
    toks, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad("function " + s)
        toks.append(m.group(1))
        i = m.end()
    p = [0]

    def peek():
        return toks[p[0]] if p[0] < len(toks) else ""

    def atom():
        t = peek()
        p[0] += 1
        if t == "!":
            f = atom()
            r = lambda e: 1 - f(e)
        elif t == "(":
            r = low()
            if peek() != ")":
                raise Bad("function " + s)
            p[0] += 1
        elif t in ("0", "1"):
            r = lambda e: int(t)
        elif t and (t[0].isalpha() or t[0] == "_"):
            r = lambda e: e[t]
        else:
            raise Bad("function " + s)
        while peek() == "'":
            p[0] += 1
            r = (lambda g: lambda e: 1 - g(e))(r)
        return r

    def xor():
        r = atom()
        while peek() == "^":
            p[0] += 1
            r = (lambda a, b: lambda e: a(e) ^ b(e))(r, atom())
        return r

    def mid():
        r = xor()
        while peek() in ("*", "&") or peek() in ("!", "(") or (peek() and (peek()[0].isalnum() or peek()[0] == "_")):
            if peek() in ("*", "&"):
                p[0] += 1
            r = (lambda a, b: lambda e: a(e) & b(e))(r, xor())
        return r

    def low():
        r = mid()
        while peek() in ("+", "|"):
            p[0] += 1
            r = (lambda a, b: lambda e: a(e) | b(e))(r, mid())
        return r
    r = low()
    if p[0] != len(toks):
        raise Bad("function " + s)
    return r


class Cell:
    def __init__(self, name):
        self.name, self.ins, self.outs, self.ff = name, [], {}, None


def read(path):
    """{name: Cell}; outs: pin -> f({pin: bit}); ff: (state, {attribute: f}) """
    t = blank(open(path).read())
    res = {}
    for name, body in groups(t, "cell"):
        c = Cell(name.strip().strip('"'))
        for pin, b in groups(body, "pin"):
            top = b.split("{")[0]
            if attr(top, "direction") == "input":
                c.ins.append(pin.strip().strip('"'))
            elif attr(top, "direction") == "output":
                c.outs[pin.strip().strip('"')] = expr(attr(top, "function"))
        for args, b in groups(body, "ff"):
            st = args.split(",")[0].strip().strip('"')
            c.ff = (st, {k: expr(attr(b, k)) for k in ("next_state", "clear", "preset", "clocked_on") if attr(b, k)})
        res[c.name] = c
    return res
