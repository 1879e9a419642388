"""C37-C40: the cell libraries, the arithmetic modules, the benchmark circuits and the processor cores
in circuit_synthesis, simulated by an elaborator of our own (lib/vlog.py)."""
import glob, math, os, re
import aes_ref, build, gcrun, liberty, model, netlist, vlog
from model import hexs
from netlist import PORTS
from p_scd import translate, nl_vals
from pbt import Fail, Inconclusive, Prop, Src, Suite

CS = os.path.join(build.REPO, "circuit_synthesis")
ASSUME = ["The Verilog is elaborated and simulated by lib/vlog.py (two-valued, one clock, reset held for one step before the first cycle); "
          "a construct it does not know leaves the case undecided.",
          "The synthesis tools themselves (Design Compiler, Yosys) are not in the sandbox."]


# ------------------------------------------------------------------ designs
_mods, _designs = {}, {}


def modules(files):
    out = {}
    for f in files:
        if f not in _mods:
            try:
                _mods[f] = vlog.parse_files([f])
            except (vlog.Unsupported, RecursionError, IndexError, KeyError, ValueError, OSError) as e:
                _mods[f] = {}
        out.update(_mods[f])
    return out


DESIGN_TESTS = ("public_test.v", "non_secret_test.v")


def verilog_files(d):
    return [f for f in sorted(glob.glob(os.path.join(CS, d, "*.v"))) if os.path.basename(f) in DESIGN_TESTS or not re.search(r"_(test|tb|testbench)\.v$", f)]


def design(top, params, dirs):
    key = (top, tuple(sorted(params.items())), tuple(dirs))
    if key not in _designs:
        if len(_designs) > 12:
            _designs.clear()
        files = verilog_files("syn_lib")
        for d in dirs:
            files += verilog_files(d)
        try:
            _designs[key] = vlog.Design(modules(files), top, params)
        except (vlog.Unsupported, RecursionError, IndexError, KeyError, ValueError, TypeError, AttributeError, ZeroDivisionError) as e:
            _designs[key] = e
    d = _designs[key]
    if isinstance(d, Exception):
        raise Inconclusive("%s %s: %s: %s" % (top, params, type(d).__name__, str(d)[:200]))
    return d


def simulate(d, ins, resets=1):
    """ins: per vector, per cycle {port: value}; returns per vector, per cycle {port: value}"""
    n, cyc = len(ins), len(ins[0])
    ports = list(ins[0][0])
    steps = list(d.simulate(cyc, n, lambda t: {p: [v[max(t, 0)][p] for v in ins] for p in ports}, resets))
    return [[{p: o[p][j] for p in o} for o in steps] for j in range(n)]


def mask(w):
    return (1 << w) - 1


def sg(v, w):
    return v - (1 << w) if w and v >> (w - 1) & 1 else v


# A bench: dirs, params(s) -> P, ports(P) -> {port: width}, cycles(P), judge(P, xs, os) -> message or None.
# *_init ports keep one value for the whole run; fix(s, P, x, first) may restrict the drawn values.
class Bench:
    def __init__(self, top, dirs, params, ports, judge, cycles=lambda P: 1, fix=None, nvec=12, out=None):
        self.top, self.dirs, self.params, self.ports, self.judge = top, dirs, params, ports, judge
        self.cycles, self.fix, self.nvec, self.out = cycles, fix, nvec, out or {}


def eq(port, w, f):
    """every cycle's value of the port; f(P, xs) -> value, list of values (None: not compared)"""
    def judge(P, xs, os):
        want = f(P, xs)
        if not isinstance(want, list):
            want = [want]
        for t, v in enumerate(want):
            if v is None:
                continue
            for p, z in (v if isinstance(v, dict) else {port: v}).items():
                ww = w(P) if not isinstance(w, dict) else w[p](P)
                z &= mask(ww)
                if os[t][p] != z:
                    return "cycle %d: %s is %x, not %x" % (t, p, os[t][p], z)
    return judge


def gvec(s, b, P):
    ports = b.ports(P)
    xs = []
    for t in range(b.cycles(P)):
        x = {}
        for p, w in ports.items():
            x[p] = xs[0][p] if xs and p.endswith("_init") else s.bits(w)
        if len(ports) > 1 and s.raw(5) == 1:
            # equal or adjacent operands
            a, c = s.choice(sorted(ports)), s.choice(sorted(ports))
            if a != c and not (xs and c.endswith("_init")):
                x[c] = (x[a] + s.choice([0, 0, 1, -1])) & mask(ports[c])
        if b.fix:
            b.fix(s, P, x, xs)
        xs.append(x)
    return xs


def gbench(table, vecs=None):
    names = sorted(table)

    def gen(s):
        n = s.choice(names)
        b = table[n]
        P = b.params(s)
        k = s.int(1, vecs or b.nvec)
        return dict(d=n, P=P, v=[[{p: hexs(z) for p, z in x.items()} for x in gvec(s, b, P)] for _ in range(k)])
    return gen


def cbench(table):
    def check(ctx, d):
        b, P = table[d["d"]], d["P"]
        D = design(b.top, P, b.dirs)
        ins = [[{p: int(z, 16) for p, z in x.items()} for x in v] for v in d["v"]]
        for p, w in b.ports(P).items():
            if len(D.inputs.get(p, ())) != w:
                raise Fail("ports", "%s %s: input %s has %d bits, not %d" % (b.top, P, p, len(D.inputs.get(p, ())), w))
        ctx.label(d["d"])
        outs = simulate(D, ins)
        if any(any(x.values()) for v in ins for x in v):
            ctx.nontrivial()
        for v, o in zip(ins, outs):
            try:
                e = b.judge(P, v, o)
            except KeyError as k:
                e = "no port %s" % k
            if e:
                raise Fail("value", "%s %s on %s: %s" % (b.top, P, [{p: hexs(z) for p, z in x.items()} for x in v][:4], e))
    return check


# --------------------------------------------------------------------- C38: syn_lib
def width(s, hi=600):
    k = s.raw(8)
    if k < 4:
        return s.int(1, 9)
    if k < 6:
        return s.int(1, min(hi, 40))
    if k == 6:
        return min(hi, s.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128]))
    return s.choice([511, 512, 513, 600]) if hi >= 600 else s.int(1, min(hi, 70))


def wNM(hi=600):
    def f(s):
        n = width(s, hi)
        m = n if s.bool() else min(width(s, hi), n)
        return dict(N=n, M=m)
    return f


def wN(hi=600, lo=1):
    return lambda s: dict(N=max(lo, width(s, hi)))


AB = lambda P: dict(A=P["N"], B=P["M"])
N_ = lambda P: P["N"]


def quot(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def nz(port):
    def fix(s, P, x, xs):
        x[port] = x[port] or 1
    return fix


def psqrt(s):
    n = 2 * (s.int(2, 9) if s.raw(4) else s.int(10, 18))
    return dict(N=n, M=n // 2 + s.raw(4))


LIB = {
    "ADD": Bench("ADD", [], wNM(), lambda P: dict(A=P["N"], B=P["M"], CI=1),
                 eq("S", dict(S=N_, CO=lambda P: 1), lambda P, x: dict(
                     S=x[0]["A"] + x[0]["B"] + x[0]["CI"], CO=(x[0]["A"] + x[0]["B"] + x[0]["CI"]) >> P["N"]))),
    "ADD_": Bench("ADD_", [], wNM(), AB, eq("O", lambda P: P["N"] + 1, lambda P, x: sg(x[0]["A"], P["N"]) + sg(x[0]["B"], P["M"]))),
    "SUB": Bench("SUB", [], wNM(), AB, eq("S", dict(S=N_, CO=lambda P: 1), lambda P, x: dict(
        S=x[0]["A"] - x[0]["B"], CO=int(x[0]["A"] >= x[0]["B"])))),
    "SUB_": Bench("SUB_", [], wNM(), AB, eq("O", lambda P: P["N"] + 1, lambda P, x: sg(x[0]["A"], P["N"]) - sg(x[0]["B"], P["M"]))),
    "COMP": Bench("COMP", [], wNM(), AB, eq("O", lambda P: 1, lambda P, x: int(x[0]["A"] >= x[0]["B"]))),
    "MULT": Bench("MULT", [], wNM(48), AB, eq("O", lambda P: P["N"] + P["M"], lambda P, x: x[0]["A"] * x[0]["B"])),
    "MULT_": Bench("MULT_", [], wNM(48), AB, eq("O", lambda P: P["N"] + P["M"], lambda P, x: sg(x[0]["A"], P["N"]) * sg(x[0]["B"], P["M"]))),
    "DIV": Bench("DIV", [], wNM(40), AB, eq("O", N_, lambda P, x: x[0]["A"] // x[0]["B"]), fix=nz("B")),
    "DIV_": Bench("DIV_", [], wNM(40), AB, eq("O", N_, lambda P, x: quot(sg(x[0]["A"], P["N"]), sg(x[0]["B"], P["M"]))), fix=nz("B")),
    "MUX": Bench("MUX", [], wN(), lambda P: dict(A=P["N"], B=P["N"], S=1), eq("O", N_, lambda P, x: x[0]["B"] if x[0]["S"] else x[0]["A"])),
    "TwosComplement": Bench("TwosComplement", [], wN(), lambda P: dict(A=P["N"]), eq("O", N_, lambda P, x: -x[0]["A"])),
    "COUNT": Bench("COUNT", [], wN(), lambda P: dict(A=P["N"]), eq("S", lambda P: P["N"].bit_length(), lambda P, x: bin(x[0]["A"]).count("1"))),
    "square_root_comb": Bench("square_root_comb", [], psqrt, lambda P: dict(A=P["N"]),
                              eq("O", lambda P: P["N"] // 2, lambda P, x: math.isqrt(x[0]["A"]))),
    "SHIFT_LEFT": Bench("SHIFT_LEFT", [], wN(130, 2), lambda P: dict(a=P["N"], shift_amount=(P["N"] - 1).bit_length() + 1),
                        eq("o", N_, lambda P, x: x[0]["a"] << x[0]["shift_amount"])),
    "SHIFT_RIGHT": Bench("SHIFT_RIGHT", [], wN(130, 2), lambda P: dict(a=P["N"], shift_amount=(P["N"] - 1).bit_length() + 1),
                         eq("o", N_, lambda P, x: x[0]["a"] >> x[0]["shift_amount"])),
}


def ex38():
    out = []
    for n in sorted(LIB):
        for N in range(1, 7):
            if n.startswith("SHIFT") and N > 1:
                out.append(dict(d=n, P=dict(N=N)))
            elif n == "square_root_comb":
                out += [dict(d=n, P=dict(N=2 * N, M=N + k)) for k in range(3)] if 1 < N < 6 else []
            elif n in ("MUX", "TwosComplement", "COUNT"):
                out.append(dict(d=n, P=dict(N=N + 3 if n == "COUNT" else N)))
                out.append(dict(d=n, P=dict(N=N)))
            elif not n.startswith("SHIFT"):
                out += [dict(d=n, P=dict(N=N, M=M)) for M in range(1, min(N, 5) + 1)]
    return out


def check38x(ctx, d):
    """every operand value of a narrow module"""
    b, P = LIB[d["d"]], d["P"]
    ports = sorted(b.ports(P).items())
    v = []
    for k in range(1 << sum(w for _, w in ports)):
        x = {}
        for p, w in ports:
            x[p] = k & mask(w)
            k >>= w
        if b.fix and not x["B"]:
            continue
        v.append([{p: hexs(z) for p, z in x.items()}])
    cbench(LIB)(ctx, dict(d, v=v))


def C38():
    return Prop("C38", "An arithmetic module of syn_lib is elaborated with drawn widths and simulated on drawn operands; "
                "non-trivial: some operand is not zero.",
                [Suite("narrow", lambda s: s.choice(ex38()), check38x, 0, 0, 1, exhaustive=ex38()),
                 Suite("modules", gbench(LIB, 40), cbench(LIB), 800, 60000, 4)],
                [], ASSUME)


# --------------------------------------------------------------------- C39: the benchmark circuits
def divisor(s, n, lo=1):
    return s.choice([c for c in range(lo, n + 1) if n % c == 0])


def pNCC(hi=40, lo=1):
    def f(s):
        n = s.int(lo, hi)
        return dict(N=n, CC=divisor(s, n))
    return f


def share(P):
    m = P["N"] // P["CC"]
    return dict(g_input=m, e_input=m)


def packed(x, p, w):
    return sum(v[p] << (w * t) for t, v in enumerate(x))


def jsum(P, x):
    m = P["N"] // P["CC"]
    v = packed(x, "g_input", m) + packed(x, "e_input", m)
    return [v >> (m * t) for t in range(P["CC"])]


def jcompare(P, x):
    m = P["N"] // P["CC"]
    return [int(packed(x[:t + 1], "g_input", m) >= packed(x[:t + 1], "e_input", m)) for t in range(P["CC"])]


def jhamming(P, x):
    return [sum(bin(v["g_input"] ^ v["e_input"]).count("1") for v in x[:t + 1]) for t in range(P["CC"])]


def elems(v, w, n):
    return [v >> (w * i) & mask(w) for i in range(n)]


def join(vs, w):
    return sum((v & mask(w)) << (w * i) for i, v in enumerate(vs))


def jargmax(P, xs, os):
    v = elems(xs[0]["in"], P["M"], P["N"])
    o = os[0]
    if o["max"] != max(v):
        return "max is %x of %s" % (o["max"], v)
    if o["ind"] >= P["N"] or v[o["ind"]] != max(v):
        return "ind is %d for %s" % (o["ind"], v)


def onehot(s, P, x, xs):
    n = 1 << P["logS"]
    v = 1 << s.raw(n)
    x["g_input"], x["e_input"] = v & mask(n // 2), v >> (n // 2)


def jencoder(P, x):
    return (x[0]["g_input"] | x[0]["e_input"] << (1 << P["logS"]) // 2).bit_length() - 1


def jselect(P, x):
    mem = [0] * P["M"]
    out = []
    for v in x:
        out.append(mem[v["read_adr"]] if v["read_adr"] < P["M"] else None)
        for k in ("", "2", "3"):
            if v["write_en" + k]:
                if v["write_adr" + k] < P["M"]:
                    mem[v["write_adr" + k]] = v["write_data" + k]
                break
    return out


def pselect(P):
    a = (P["M"] - 1).bit_length()
    d = dict(read_adr=a)
    for k in ("", "2", "3"):
        d.update({"write_adr" + k: a, "write_data" + k: P["W"], "write_en" + k: 1})
    return d


def clamp(*ports):
    """addresses within the table, often used again"""
    def fix(s, P, x, xs):
        for p in ports:
            x[p] %= P["M"]
        if xs and s.bool():
            x["read_adr"] = s.choice([xs[-1]["write_adr"], xs[-1]["write_adr2"], xs[-1]["write_adr3"]])
    return fix


def matmul(P, g, e, rows):
    n, m = P["N"], P["M"]
    return [sum(g[i * n + k] * e[k * n + j] for k in range(n)) for i in range(rows) for j in range(n)]


def jmat0(P, x):
    n, m = P["N"], P["M"]
    return join(matmul(P, elems(x[0]["g_input"], m, n * n), elems(x[0]["e_input"], m, n * n), n), m)


def jmat1(P, x):
    n, m = P["N"], P["M"]
    acc, out = [0] * n, []
    for v in x:
        out.append(join(acc, m))
        acc = [a + b for a, b in zip(acc, matmul(P, elems(v["g_input"], m, n), elems(v["e_input"], m, n * n), 1))]
    return out


def jmat2(P, x):
    n, m = P["N"], P["M"]
    acc, out = 0, []
    for v in x:
        out.append(acc)
        acc += sum(a * b for a, b in zip(elems(v["g_input"], m, n), elems(v["e_input"], m, n)))
    return out


def jmat3(P, x):
    acc, out = 0, []
    for v in x:
        acc += v["g_input"] * v["e_input"]
        out.append(acc)
    return out


def dist_h(a, b, w):
    return bin(a ^ b).count("1")


def dist_t(a, b, w):
    return abs((a >> w) - (b >> w)) + abs((a & mask(w)) - (b & mask(w)))


def near(dist, query, db, wide=1):
    """o is an element of the data base nearest to the query; combinational"""
    def judge(P, xs, os):
        w = P["W"] * wide
        v = elems(xs[0][db], w, P["N"])
        q = xs[0][query]
        o = os[0]["o"]
        best = min(dist(q, z, P["W"]) for z in v)
        if o not in v or dist(q, o, P["W"]) != best:
            return "o is %x for the query %x and the elements %s" % (o, q, [hexs(z) for z in v])
    return judge


def near_seq(dist, query, db, wide=1):
    def judge(P, xs, os):
        q = xs[0][query]
        for t, o in enumerate(os):
            v = [x[db] for x in xs[:t + 1]]
            if o["o"] not in v or dist(q, o["o"], P["W"]) != min(dist(q, z, P["W"]) for z in v):
                return "cycle %d: o is %x for the query %x and the elements %s" % (t, o["o"], q, [hexs(z) for z in v])
    return judge


def near_k(dist, query, db, wide=1):
    def judge(P, xs, os):
        w, q, K = P["W"] * wide, xs[0][query], P["K"]
        for t in range(K - 1, len(os)):
            v = [x[db] for x in xs[:t + 1]]
            o = elems(os[t]["o"], w, K)
            want = sorted(dist(q, z, P["W"]) for z in v)[:K]
            if any(o.count(z) > v.count(z) for z in o) or sorted(dist(q, z, P["W"]) for z in o) != want:
                return "cycle %d: o is %s for the query %x and the elements %s" % (t, [hexs(z) for z in o], q, [hexs(z) for z in v])
    return judge


def same(port, close):
    """the query stays; stream elements lie near it, or repeat"""
    def fix(s, P, x, xs):
        if xs:
            x[port] = xs[0][port]
        for p in x:
            if p != port:
                k = s.raw(4)
                if k == 0 and xs:
                    x[p] = s.choice(xs)[p]
                elif k == 1:
                    x[p] = (x[port] ^ 1 << s.raw(P["W"])) if close == "h" else (x[port] + s.int(-3, 3)) & mask(2 * P["W"])
    return fix


def jmodmult(P, xs, os):
    x, y, n = xs[0]["x"], xs[0]["y"], xs[0]["n"]
    o = os[P["CC"] - 1]["o"]
    if o != x * y % n:
        return "o is %d, %d * %d mod %d is %d" % (o, x, y, n, x * y % n)


def fmodmult(s, P, x, xs):
    x["start"] = int(not xs)
    x["n"] = xs[0]["n"] if xs else x["n"] or 1
    x["y"] = xs[0]["y"] if xs else x["y"] % x["n"]
    if xs and not s.bool(1, 4):
        x["x"] = xs[0]["x"]


def fmodexp(g, e, top):
    def fix(s, P, x, xs):
        n = P["N"]
        if xs:
            x.update(xs[0])
            return
        a, b = x[e] & mask(n), x[e] >> n
        md, ex = (b, a) if top else (a, b)
        md, ex = md or 1, ex or 1
        if s.bool(1, 4):
            ex &= mask(s.int(1, n))
            ex = ex or 1
        x[g] %= md
        x[e] = (md << n | ex) if top else (ex << n | md)
    return fix


def jmodexp(g, e, top):
    def judge(P, xs, os):
        n = P["N"]
        a, b = xs[0][e] & mask(n), xs[0][e] >> n
        md, ex = (b, a) if top else (a, b)
        m, o = xs[0][g], os[P["CC"] - 1]["o"]
        if o != pow(m, ex, md):
            return "o is %d, %d ** %d mod %d is %d" % (o, m, ex, md, pow(m, ex, md))
    return judge


def pmodexp2(s):
    n = s.int(2, 8)
    return dict(N=n, CC=2 * n * divisor(s, n))


def jstack(P, x):
    n, st, out = P["N"], [0] * P["S"], []
    for v in x:
        a, b, op = st[0], st[1], v["e_input"]
        r = [a, a + b, a - b, a * b, v["g_input"], -a, a & b, a | b][op] & mask(n)
        out.append(r)
        if op == 4:
            st = [r] + st[:-1]
        elif op == 5:
            st[0] = r
        elif op:
            st = [r] + st[2:] + [0]      # gstack: the vacated slot is never read
    return out


def gstack(s, P, x, xs):
    """no operation reads below the stack's bottom"""
    depth = sum((v["e_input"] == 4) - (v["e_input"] in (1, 2, 3, 6, 7)) for v in xs)
    if depth < 2 and x["e_input"] in (1, 2, 3, 6, 7):
        x["e_input"] = 4
    if depth >= P["S"] and x["e_input"] == 4:
        x["e_input"] = 1


def jpublic(P, x):
    r = [x[0]["p_init"], x[0]["g_init"], x[0]["e_init"]]
    out = []
    for v in x:
        z = [v["e_input"], v["g_input"], v["p_input"]]
        r = [a ^ b for a, b in zip(r, z)]
        out.append(r[0] ^ r[1] ^ r[2])
    return out


def jnonsecret(P, xs, os):
    n = P["N"]
    for ph in (0, 1):
        if all(o["o"] == (x["g_input"] + (-1) ** (t + ph) * x["e_input"]) & mask(n) for t, (x, o) in enumerate(zip(xs, os))):
            return None
    return "outputs %s" % [hexs(o["o"]) for o in os]


def stable(mpref, wpref, wife):
    """None, or a blocking pair; wife[m] -> w, everyone is matched"""
    n = len(mpref)
    if sorted(wife) != list(range(n)):
        return "not a matching: %s" % wife
    man = {w: m for m, w in enumerate(wife)}
    for m in range(n):
        for w in mpref[m]:
            if w == wife[m]:
                break
            if wpref[w].index(m) < wpref[w].index(man[w]):
                return "matching %s: %d and %d prefer each other" % (wife, m, w)


def fsmseq(s, P, x, xs):
    n = P["S"]
    w = (n - 1).bit_length()
    if xs:
        x.update(xs[0])
        return
    for p in ("rPref", "sPref"):
        same = s.perm(n) if s.bool(1, 3) else None
        x[p] = join([z for _ in range(n) for z in (same or s.perm(n))], w)


def jsmseq(P, xs, os):
    n = P["S"]
    w = (n - 1).bit_length()
    rp, sp = [[elems(elems(xs[0][p], w * n, n)[i], w, n) for i in range(n)] for p in ("rPref", "sPref")]
    m = elems(os[-1]["matchList"], w, n)        # m[r] = s
    if sorted(m) != list(range(n)):
        return "not a matching: %s" % m
    return stable(sp, rp, [m.index(i) for i in range(n)])


def fsm(s, P, x, xs):
    """cycle t carries the preferences of man t mod n and the ranks given by woman t mod n, in two shares"""
    n = P["M"]
    w = (n - 1).bit_length()
    t = len(xs)
    if t < n:
        full = getattr(s, "_sm", None)
        if t == 0:
            same = s.perm(n) if s.bool(1, 3) else None
            sm = s.perm(n) if s.bool(1, 3) else None
            full = [(same or s.perm(n), sm or s.perm(n)) for _ in range(n)]
            s._sm = full
        mp, wr = full[t]
        v = join(mp, w) << (w * n) | join(wr, w)
        x["e_input"] = x["g_input"] ^ v
    else:
        x.update(xs[t % n])


def jsm(P, xs, os):
    n = P["M"]
    w = (n - 1).bit_length()
    mp, wp = [], []
    for t in range(n):
        v = xs[t]["g_input"] ^ xs[t]["e_input"]
        rank = elems(v & mask(w * n), w, n)
        wp.append(sorted(range(n), key=lambda m: rank[m]))
        mp.append(elems(v >> (w * n), w, n))
    m = elems(os[-1]["o"], w, n)
    if sorted(m) != list(range(n)):
        return "not a matching: %s" % m
    return stable(mp, wp, [m.index(i) for i in range(n)])


def psm(s):
    n = s.choice([2, 4, 4, 8])
    return dict(Kw=n, Km=n, M=n, W=n)


# keccak-f[1600], the lanes as in sha3/round.v (lane (x, y) is the (5 y + x)-th from the top)
def _rotations():
    off, x, y = {(0, 0): 0}, 1, 0
    for t in range(24):
        off[x, y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return off


_off = _rotations()


def keccak(v):
    M = mask(64)
    rol = lambda z, n: (z << n | z >> (64 - n)) & M if n else z
    A = [[v >> (64 * (24 - 5 * y - x)) & M for y in range(5)] for x in range(5)]
    r = 1
    for _ in range(24):
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[x - 1] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                B[y][(2 * x + 3 * y) % 5] = rol(A[x][y] ^ D[x], _off[x, y])
        A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y] & M) for y in range(5)] for x in range(5)]
        for j in range(7):
            r = ((r << 1) ^ ((r >> 7) * 0x71)) % 256
            if r & 2:
                A[0][0] ^= 1 << ((1 << j) - 1)
    return sum(A[x][y] << (64 * (24 - 5 * y - x)) for x in range(5) for y in range(5))


def aes(k, m):
    b = lambda v: list(v.to_bytes(16, "little"))
    return int.from_bytes(bytes(aes_ref.encrypt(b(k), b(m))), "little")


# cordic
def pcordic(s):
    P = dict(MOD=s.choice([1, 0]), DIR=s.raw(2))
    if P["MOD"] == 1 and s.bool(1, 4):
        P.update(DEC=2, FRAC=30)
    else:
        P.update(DEC=2, FRAC=14)
    return P


def fcordic(s, P, x, xs):
    if xs:
        x.update(xs[0])
        return
    f = P["FRAC"]
    L = P["DEC"] + f
    one = 1 << f
    num = lambda lo, hi: s.int(int(lo * 1000), int(hi * 1000)) / 1000.0
    if P["MOD"] == 1:
        if P["DIR"] == 0:
            a, b, c = num(-0.75, 0.75), num(-0.75, 0.75), num(-1.5, 1.5)
        else:
            a, b, c = num(0.1, 0.75), num(-0.75, 0.75), num(-0.3, 0.3)
    elif P["DIR"] == 0:
        a, b, c = num(-0.9, 0.9), num(-0.9, 0.9), num(-1, 1)
    else:
        a = num(0.2, 0.9)
        b, c = a * num(-0.9, 0.9), num(-0.9, 0.9)
    q = lambda v: int(round(v * one)) & mask(L)
    x["g_init"] = q(a) << L | q(b)
    x["e_init"] = q(c)


def jcordic(P, xs, os):
    f = P["FRAC"]
    L, one = P["DEC"] + f, 1 << f
    v = lambda z: sg(z & mask(L), L) / one
    x, y, z = v(xs[0]["g_init"] >> L), v(xs[0]["g_init"]), v(xs[0]["e_init"])
    it = f + 1
    done = [o["terminate"] for o in os]
    if done != [0] * it + [1] * (len(os) - it):
        return "terminate is %s" % done
    if P["MOD"] == 1:
        K = 1.0
        for i in range(it):
            K *= math.sqrt(1 + 4.0 ** -i)
        if P["DIR"] == 0:
            want = (K * (x * math.cos(z) - y * math.sin(z)), K * (y * math.cos(z) + x * math.sin(z)), 0.0)
        else:
            want = (K * math.hypot(x, y), 0.0, z + math.atan2(y, x))
    elif P["DIR"] == 0:
        want = (x, y + x * z, 0.0)
    else:
        want = (x, 0.0, z + y / x)
    tol = 40.0 / one if f < 20 else 300.0 / one
    o = os[-1]["o"]
    got = (v(o >> (2 * L)), v(o >> L), v(o))
    if P["DIR"] == 1 and P["MOD"] == 0:
        tol = tol * 6
    if any(abs(a - b) > tol for a, b in zip(got, want)):
        return "(%f, %f, %f) gives (%f, %f, %f), not (%f, %f, %f)" % ((x, y, z) + got + want)


BENCH = {
    "sum": Bench("sum", ["sum"], pNCC(), share, eq("o", lambda P: P["N"] // P["CC"], jsum), lambda P: P["CC"]),
    "compare": Bench("compare", ["compare"], pNCC(), share, eq("o", lambda P: 1, jcompare), lambda P: P["CC"]),
    "hamming": Bench("hamming", ["hamming"], pNCC(), share, eq("o", lambda P: P["N"].bit_length(), jhamming), lambda P: P["CC"]),
    "mult": Bench("mult", ["mult"], lambda s: dict(N=s.int(1, 24), CC=1), share, eq("o", N_, lambda P, x: x[0]["g_input"] * x[0]["e_input"])),
    "argmax": Bench("argmax", ["argmax"], lambda s: dict(N=s.int(1, 12), M=s.int(1, 12)), lambda P: {"in": P["N"] * P["M"]}, jargmax),
    "encoder": Bench("encoder", ["encoder"], lambda s: dict(logS=s.int(1, 6)), lambda P: dict(g_input=(1 << P["logS"]) // 2, e_input=(1 << P["logS"]) // 2),
                     eq("o", lambda P: P["logS"], jencoder), fix=onehot),
    "select": Bench("select", ["select"], lambda s: dict(M=s.int(2, 9), W=s.int(1, 7)), pselect, eq("read_data", lambda P: P["W"], jselect),
                    lambda P: 12, fix=clamp("read_adr", "write_adr", "write_adr2", "write_adr3"), nvec=6),
    "public_test": Bench("public_test", ["public_test"], lambda s: {}, lambda P: dict(p_init=8, g_init=16, e_init=32, p_input=32, g_input=16, e_input=8),
                         eq("o", lambda P: 32, jpublic), lambda P: 4),
    "non_secret_test": Bench("non_secret_test", ["non_secret_test"], lambda s: dict(N=s.int(1, 24)), lambda P: dict(g_input=P["N"], e_input=P["N"]),
                             jnonsecret, lambda P: 5),
    "stackMachine": Bench("stackMachine", ["stack_machine"], lambda s: dict(N=s.int(1, 12), S=s.int(2, 8)), lambda P: dict(g_input=P["N"], e_input=3),
                          eq("o", N_, jstack), lambda P: 24, fix=gstack, nvec=5),
    "matrix_mult_0": Bench("matrix_mult_N_M_0", ["matrix_mult"], lambda s: dict(N=s.int(1, 3), M=s.int(1, 10)),
                           lambda P: dict(g_input=P["N"] ** 2 * P["M"], e_input=P["N"] ** 2 * P["M"]), eq("o", lambda P: P["N"] ** 2 * P["M"], jmat0), nvec=4),
    "matrix_mult_1": Bench("matrix_mult_N_M_1", ["matrix_mult"], lambda s: dict(N=s.int(1, 3), M=s.int(1, 10)),
                           lambda P: dict(g_input=P["N"] * P["M"], e_input=P["N"] ** 2 * P["M"]), eq("o", lambda P: P["N"] * P["M"], jmat1), lambda P: 4, nvec=4),
    "matrix_mult_2": Bench("matrix_mult_N_M_2", ["matrix_mult"], lambda s: dict(N=s.int(1, 4), M=s.int(1, 10)),
                           lambda P: dict(g_input=P["N"] * P["M"], e_input=P["N"] * P["M"]), eq("o", lambda P: P["M"], jmat2), lambda P: 5, nvec=4),
    "matrix_mult_3": Bench("matrix_mult_N_M_3", ["matrix_mult"], lambda s: dict(N=s.int(1, 4), M=s.int(1, 16)),
                           lambda P: dict(g_input=P["M"], e_input=P["M"]), eq("o", lambda P: P["M"], jmat3), lambda P: 6, nvec=4),
    "first_nns_comb": Bench("first_nns_comb", ["knns"], lambda s: dict(W=s.int(1, 16), N=s.int(1, 10)), lambda P: dict(g_input=P["W"], e_input=P["W"] * P["N"]),
                            near(dist_h, "g_input", "e_input")),
    "first_nns_seq": Bench("first_nns_seq", ["knns"], lambda s: dict(W=s.int(1, 16)), lambda P: dict(g_input=P["W"], e_input=P["W"]),
                           near_seq(dist_h, "g_input", "e_input"), lambda P: 7, fix=same("g_input", "h"), nvec=6),
    "k_nns_seq": Bench("k_nns_seq", ["knns"], lambda s: dict(W=s.int(1, 16), K=s.int(1, 5)), lambda P: dict(g_input=P["W"], e_input=P["W"]),
                       near_k(dist_h, "g_input", "e_input"), lambda P: 9, fix=same("g_input", "h"), nvec=5),
    "first_nns_comb_td": Bench("first_nns_comb_td", ["knns_td"], lambda s: dict(W=s.int(1, 12), N=s.int(1, 8)),
                               lambda P: dict(g_input=2 * P["W"], e_input=2 * P["W"] * P["N"]), near(dist_t, "g_input", "e_input", 2), nvec=6),
    "first_nns_seq_td": Bench("first_nns_seq_td", ["knns_td"], lambda s: dict(W=s.int(1, 12)), lambda P: dict(g_input=2 * P["W"], e_input=2 * P["W"]),
                              near_seq(dist_t, "g_input", "e_input", 2), lambda P: 7, fix=same("g_input", "t"), nvec=6),
    "k_nns_seq_td": Bench("k_nns_seq_td", ["knns_td"], lambda s: dict(W=s.int(1, 12), K=s.int(1, 5)), lambda P: dict(g_input=2 * P["W"], e_input=2 * P["W"]),
                          near_k(dist_t, "e_input", "g_input", 2), lambda P: 9, fix=same("e_input", "t"), nvec=5),
    "knns_seq": Bench("knns_seq", ["knns_td"], lambda s: dict(W=s.int(1, 12), K=s.int(1, 5)), lambda P: dict(g_input=2 * P["W"], e_input=2 * P["W"]),
                      near_k(dist_t, "e_input", "g_input", 2), lambda P: 9, fix=same("e_input", "t"), nvec=5),
    "modmult": Bench("modmult", ["rsa"], pNCC(16, 2), lambda P: dict(start=1, x=P["N"], y=P["N"], n=P["N"]), jmodmult, lambda P: P["CC"], fix=fmodmult, nvec=10),
    "modexp_1_N": Bench("modexp_1_N", ["rsa"], pNCC(7, 2), lambda P: dict(g_input=P["N"], e_input=2 * P["N"]), jmodexp("g_input", "e_input", True),
                        lambda P: P["CC"], fix=fmodexp("g_input", "e_input", True), nvec=10),
    "modexp_2N_NN": Bench("modexp_2N_NN", ["rsa"], pmodexp2, lambda P: dict(g_init=P["N"], e_init=2 * P["N"]), jmodexp("g_init", "e_init", False),
                          lambda P: P["CC"], fix=fmodexp("g_init", "e_init", False), nvec=8),
    "stable_match_seq": Bench("stable_match_seq", ["stable_match"], lambda s: (lambda n: dict(Kr=n, Ks=n, S=n, R=n))(s.int(2, 6)),
                              lambda P: dict(rPref=P["S"] ** 2 * (P["S"] - 1).bit_length(), sPref=P["S"] ** 2 * (P["S"] - 1).bit_length()),
                              jsmseq, lambda P: P["S"] ** 2 * 2 + 3, fix=fsmseq, nvec=6),
    "stable_match": Bench("stable_match", ["stable_match"], psm, lambda P: dict(g_input=2 * P["M"] * (P["M"] - 1).bit_length(), e_input=2 * P["M"] * (P["M"] - 1).bit_length()),
                          jsm, lambda P: P["M"] ** 2 * (2 * P["M"] + 3) + 2, fix=fsm, nvec=4),
    "cordic": Bench("cordic", ["cordic"], pcordic, lambda P: dict(g_init=2 * (P["DEC"] + P["FRAC"]), e_init=P["DEC"] + P["FRAC"]), jcordic,
                    lambda P: P["FRAC"] + 3, fix=fcordic, nvec=6),
}

LARGE = {
    "aes_1cc": Bench("aes_1cc", ["aes"], lambda s: {}, lambda P: dict(g_input=128, e_input=128), eq("o", lambda P: 128, lambda P, x: aes(x[0]["g_input"], x[0]["e_input"]))),
    "aes_11cc": Bench("aes_11cc", ["aes"], lambda s: {}, lambda P: dict(g_init=128, e_init=128),
                      eq("o", lambda P: 128, lambda P, x: [None] * 10 + [aes(x[0]["g_init"], x[0]["e_init"])]), lambda P: 11),
    "sha3_seq": Bench("sha3_seq", ["sha3"], lambda s: dict(CC=s.choice([24, 24, 12, 8, 6])), lambda P: dict(g_init=288, e_init=288),
                      eq("o", lambda P: 1600, lambda P, x: [None] * (P["CC"] - 1) + [keccak(x[0]["e_init"] << 288 | x[0]["g_init"])]), lambda P: P["CC"], nvec=4),
    "sha3_comb": Bench("sha3_comb", ["sha3"], lambda s: {}, lambda P: dict(g_input=288, e_input=288),
                       eq("o", lambda P: 1600, lambda P, x: keccak(x[0]["e_input"] << 288 | x[0]["g_input"])), nvec=3),
}


# the circuits around DesignWare components, with stand-ins for these (harness/dw/dw.v)
DW = os.path.join(build.HERE, "harness", "dw")


def fpw(P):
    return P["sig_width"] + P["exp_width"] + 1


def fp(top, f, rnd=False):
    """f(a, b, rnd) of the stand-in; rnd: one shared operand with the rounding mode above it"""
    pre = "inst_" if rnd else ""
    W = lambda P: P[pre + "sig_width"] + P[pre + "exp_width"] + 1
    def want(P, x):
        g, e, w = x[0]["g_input"], x[0]["e_input"], W(P)
        return f((g ^ e) & mask(w), None, (g ^ e) >> w) if rnd else f(g, e, 0) if f.__code__.co_argcount == 3 else f(g ^ e)
    return Bench(top, [DW, "float"], lambda s: {pre + "sig_width": s.int(2, 24), pre + "exp_width": s.int(2, 9)},
                 lambda P: dict(g_input=W(P) + 3 * rnd, e_input=W(P) + 3 * rnd), eq("o", W, want))


def fcmp(P, x):
    a, b = x[0]["g_input"], x[0]["e_input"]
    u = a & b & 1
    return (0 if u else 8 * (a == b) + 4 * (a < b) + 2 * (a > b)) + u


def divbench(top, w, f):
    return Bench(top, [DW, "div"], lambda s: dict(width=s.int(1, 34)), lambda P: dict(g_input=P["width"], e_input=P["width"]), eq("o", w, f), fix=nz("e_input"))


WRAP = {
    "div": divbench("div", lambda P: 2 * P["width"], lambda P, x: x[0]["g_input"] // x[0]["e_input"] << P["width"] | x[0]["g_input"] % x[0]["e_input"]),
    "div_q": divbench("div_q", lambda P: P["width"], lambda P, x: x[0]["g_input"] // x[0]["e_input"]),
    "div_r": divbench("div_r", lambda P: P["width"], lambda P, x: x[0]["g_input"] % x[0]["e_input"]),
    "float_add": fp("float_add", lambda a, b, r: a + b), "float_mul": fp("float_mul", lambda a, b, r: a & b), "float_div": fp("float_div", lambda a, b, r: a & ~b),
    "float_cmp": Bench("float_cmp", [DW, "float"], lambda s: dict(sig_width=s.int(2, 24), exp_width=s.int(2, 9)), lambda P: dict(g_input=fpw(P), e_input=fpw(P)),
                       eq("o", lambda P: 4, fcmp)),
    "fp_exp": fp("fp_exp", lambda a: a + 1), "fp_ln": fp("fp_ln", lambda a: a + 2), "fp_log2": fp("fp_log2", lambda a: a + 3),
    "fp_sqrt": fp("fp_sqrt", lambda a, b, r: (a ^ (a >> 1)) + (r << 1), True), "fp_square": fp("fp_square", lambda a, b, r: a + (a >> 1) + (r << 1), True),
}


def C39():
    return Prop("C39", "A benchmark circuit is elaborated with drawn parameters and simulated for the documented number of cycles on drawn inputs; "
                "non-trivial: some input is not zero.",
                [Suite("benchmarks", gbench(BENCH), cbench(BENCH), 2000, 40000, 3),
                 Suite("wrappers", gbench(WRAP), cbench(WRAP), 300, 6000, 1),
                 Suite("large", gbench(LARGE), cbench(LARGE), 48, 1500, 2)],
                [], ASSUME)


# --------------------------------------------------------------------- C37: the cell libraries
LIBS = {"dff_full.lib": "lib/dff_full/dff_full.lib", "asic_cell_yosys_extended.lib": "lib/asic_cell_yosys_extended.lib"}
CELLV = "lib/dff_full/dff_full.v"
MEANING = {"AND": lambda a, b: a & b, "ANDN": lambda a, b: a & ~b & 1, "NAND": lambda a, b: 1 - (a & b), "NANDN": lambda a, b: 1 - (a & ~b & 1),
           "OR": lambda a, b: a | b, "ORN": lambda a, b: a | (1 - b), "NOR": lambda a, b: 1 - (a | b), "NORN": lambda a, b: 1 - (a | (1 - b)),
           "XOR": lambda a, b: a ^ b, "XNOR": lambda a, b: 1 - (a ^ b)}
CELLPINS = dict({t: (("A", "B"), ("Z",)) for t in MEANING}, IV=(("A",), ("Z",)), MUX=(("IN0", "IN1", "SEL"), ("F",)),
                HADDER=(("IN0", "IN1"), ("SUM", "COUT")), FADDER=(("IN0", "IN1", "CIN"), ("SUM", "COUT")), DFF=(("D", "I"), ("Q",)))


def meaning(cell, pin, e):
    if cell in MEANING:
        return MEANING[cell](e["A"], e["B"])
    if cell == "IV":
        return 1 - e["A"]
    if cell == "MUX":
        return e["IN1"] if e["SEL"] else e["IN0"]
    n = e["IN0"] + e["IN1"] + e.get("CIN", 0)
    return n & 1 if pin == "SUM" else n >> 1


_libs = {}


def liberty_of(name):
    if name not in _libs:
        try:
            _libs[name] = liberty.read(os.path.join(CS, LIBS[name]))
        except liberty.Bad as e:
            raise Inconclusive("%s: %s" % (name, e))
    return _libs[name]


def cells_v(text=None, top=None):
    """the shipped Verilog models, with a netlist that uses them"""
    mods = dict(modules([os.path.join(CS, CELLV)]))
    if not mods:
        raise Inconclusive("the cell models could not be read")
    try:
        if text is not None:
            for m in vlog.Parser(vlog.lex(vlog.strip_comments(text))).file():
                mods[m.name] = m
                top = m.name
        return vlog.Design(mods, top)
    except (vlog.Unsupported, RecursionError, IndexError, KeyError, ValueError, TypeError, AttributeError) as e:
        raise Inconclusive("netlist: %s: %s" % (type(e).__name__, e))


def run_plain(ctx, ini, inp, cycles, period=0):
    h = [hexs(v) for v in ini + inp]
    r = ctx.worker("opt")("plain", scd=ctx.path("out.scd"), pinit=h[0], ginit=h[1], einit=h[2], pinput=h[3], ginput=h[4], einput=h[5],
                          cycles=cycles, term=period, mode=1)
    if r["r.st"] != "ok" or r["r.rc"] != "0":
        raise Fail("plain-status", "plaintext evaluation ended with %s %s" % (r["r.st"], r.get("r.rc")))
    return gcrun.parse(r["r.out"])


def ex37():
    return [dict(c=c, o=o, seed=k) for k in range(3) for c in sorted(CELLPINS) for o in CELLPINS[c][1]]


def g37(s):
    return dict(s.choice(ex37()), seed=s.raw(1 << 20))


def check37(ctx, d):
    """one cell, all inputs (a clock cycle each): its name, the libraries' functions, the Verilog model and the translated circuit agree"""
    import random
    s = Src(random.Random(d["seed"]))
    cell, out = d["c"], d["o"]
    ins = CELLPINS[cell][0]
    ctx.label(cell)
    ctx.nontrivial()
    ports = [s.choice(PORTS[3:]) for _ in ins]
    if cell == "DFF":
        ports[1] = s.choice(PORTS[:3])
    idx, P = [], {}
    for p in ports:
        idx.append(P.get(p, 0))
        P[p] = P.get(p, 0) + 1
    P["o"] = 1
    net = {q: (p if P[p] == 1 else "%s[%d]" % (p, i)) for q, p, i in zip(ins, ports, idx)}
    pins = dict(net)
    pins[out] = "o"
    for q in CELLPINS[cell][1]:
        if q != out and s.bool():
            pins[q] = "n1"
    nl = dict(ports=P, cells=[[cell, {q: pins[q] for q in [list(pins)[i] for i in s.perm(len(pins))]}]], assigns=[])
    text = netlist.verilog(s, nl)
    c, _ = translate(ctx, text)
    rows = [[j >> i & 1 for i in range(len(ins))] for j in range(1 << len(ins))]
    rows = [rows[i] for i in s.perm(len(rows))] + rows
    if cell == "DFF":
        rows = [[s.raw(2), 0] for _ in range(8)]
        i0 = s.raw(2)
        want = [i0] + [r[0] for r in rows[:-1]]
        for r in rows:
            r[1] = i0
    else:
        want = [meaning(cell, out, dict(zip(ins, r))) for r in rows]
    say = lambda who, got: Fail("cell", "%s.%s for %s: %s gives %s, not %s" % (cell, out, [dict(zip(ins, r)) for r in rows], who, got, want))
    ini, inp = [0] * 3, [0] * 3
    steps = []
    for t, r in enumerate(rows):
        x = {}
        for p, i, b in zip(ports, idx, r):
            x[p] = x.get(p, 0) | b << i
        steps.append(x)
        for k, p in enumerate(PORTS):
            if k < 3:
                ini[k] = x.get(p, 0)
            else:
                inp[k - 3] |= x.get(p, 0) << (t * P.get(p, 0))
    got = c.run(ini, inp, len(rows))
    if got != want:
        raise say("the translated circuit", got)
    got = run_plain(ctx, ini, inp, len(rows))
    if got != want:
        raise say("the plaintext evaluator", got)
    got = [x["o"] for x in simulate(cells_v(text), [steps])[0]]
    if got != want:
        raise say("the Verilog model", got)
    for name in sorted(LIBS):
        L = liberty_of(name)
        if cell not in L:
            continue
        lc = L[cell]
        if cell == "DFF":
            if name != "dff_full.lib":
                continue
            if lc.ff is None:
                raise Fail("cell", "%s: DFF is not a flip-flop" % name)
            st, f = lc.ff
            q, got = None, []
            for t, r in [(-1, rows[0])] + list(enumerate(rows)):
                e = dict(D=r[0], I=r[1], RST=int(t < 0), CLK=0)
                cl, pr = f["clear"](e), f["preset"](e)
                if cl and pr or (t < 0 and not (cl or pr)) or (t >= 0 and (cl or pr)):
                    raise Fail("cell", "%s: DFF clears with %d and presets with %d for %s" % (name, cl, pr, e))
                q = 0 if cl else 1 if pr else q
                if t >= 0:
                    got.append(lc.outs[out]({st: q}))
                    q = f["next_state"](e)
        else:
            if out not in lc.outs or sorted(lc.ins) != sorted(ins):
                raise Fail("cell", "%s: %s has inputs %s and outputs %s" % (name, cell, lc.ins, sorted(lc.outs)))
            got = [lc.outs[out](dict(zip(ins, r))) for r in rows]
        if got != want:
            raise say(name, got)


def g37n(s):
    big = s.bool(1, 8)
    nl = netlist.shuffle(s, netlist.gen_netlist(s, max_port=16 if big else 6, max_cells=120 if big else 24, max_dff=16 if big else 5, max_out=20 if big else 8))
    cyc = s.int(1, 5)
    ini, inp = nl_vals(s, nl["ports"], cyc)
    return dict(P=nl["ports"], n=len(nl["cells"]), v=netlist.verilog(s, nl), ini=ini, inp=inp, cycles=cyc)


def check37n(ctx, d):
    """a netlist: simulated with the shipped Verilog models, and translated"""
    P = d["P"]
    if d["n"] >= 2:
        ctx.nontrivial()
    D = cells_v(d["v"])
    c, _ = translate(ctx, d["v"])
    ini, inp = [[int(x, 16) for x in d[k]] for k in ("ini", "inp")]
    steps = []
    for t in range(d["cycles"]):
        x = {p: ini[k] for k, p in enumerate(PORTS[:3])}
        x.update({p: inp[k] >> (t * P.get(p, 0)) & mask(P.get(p, 0)) for k, p in enumerate(PORTS[3:])})
        steps.append(x)
    want = [o["o"] for o in simulate(D, [steps])[0]]
    for who, got in (("the translated circuit", c.run(ini, inp, d["cycles"])), ("the plaintext evaluator", run_plain(ctx, ini, inp, d["cycles"]))):
        if got != want:
            raise Fail("netlist", "init %s input %s: %s yields %s, the Verilog models %s" % (
                d["ini"], d["inp"], who, [hexs(x) if isinstance(x, int) else x for x in got], [hexs(x) for x in want]))


W = [("opt", "worker")]


def C37():
    return Prop("C37", "Every output of every cell, on all inputs, in random contexts; and random netlists of such cells: the cell's name, the Liberty "
                "functions, the shipped Verilog models and the circuit V2SCD makes of it agree; non-trivial: a cell, or a netlist of two cells.",
                [Suite("cells", g37, check37, 600, 40000, 1, exhaustive=ex37()), Suite("netlists", g37n, check37n, 8000, 400000, 3)],
                W, ASSUME)


# --------------------------------------------------------------------- C40: from the design to the garbled result
def tables(lib):
    """{truth table of (a, b), bit 2b+a: [(cell, {pin: 'a' 'b' 0 1}, output)]} and the same for one input"""
    import itertools
    two, one = {}, {}
    for name, c in sorted(liberty_of(lib).items()):
        if c.ff or name not in CELLPINS:
            continue
        for out, f in sorted(c.outs.items()):
            for src in itertools.product(("a", "b", 0, 1), repeat=len(c.ins)):
                t = 0
                for k in range(4):
                    v = {"a": k & 1, "b": k >> 1, 0: 0, 1: 1}
                    t |= f({p: v[x] for p, x in zip(c.ins, src)}) << k
                e = (name, dict(zip(c.ins, src)), out)
                consts = sum(x in (0, 1) for x in src)
                if "a" in src and "b" in src:
                    two.setdefault(t, []).append((consts, e))
                elif "a" in src and "b" not in src and t in (0b0101,):
                    one.setdefault(t, []).append((consts, e))
    plain = lambda d: {k: (sorted((e for e in v), key=lambda e: e[0])) for k, v in d.items()}
    return plain(two), plain(one)


_tabs = {}


def pick(s, lst):
    """mostly a cell without constant inputs"""
    lo = [e for e in lst if e[0] == 0]
    return (s.choice(lo) if lo and s.bool(7, 8) else s.choice(lst))[1]


def mapped(s, D, P, lib):
    """a netlist of library cells for an elaborated design"""
    if lib not in _tabs:
        _tabs[lib] = tables(lib)
    two, one = _tabs[lib]
    net = D.net
    cells, assigns = [], []
    ports = {p: w for p, w in P.items() if w}
    name, pol = {}, {}
    for p, lits in D.inputs.items():
        for i, x in enumerate(lits):
            if p in ports:
                name[x >> 1], pol[x >> 1] = (p if ports[p] == 1 else "%s[%d]" % (p, i)), 0
    rst = D.inputs["rst"][0] >> 1 if "rst" in D.inputs else -1
    inv = {}

    def src(x):
        """a net that carries the literal"""
        if x >> 1 == 0:
            return "1'b%d" % (x & 1)
        n = x >> 1
        if n not in name:
            raise Inconclusive("a signal has no net")
        if (x & 1) == pol[n]:
            return name[n]
        if n not in inv:
            inv[n] = "m%d" % n
            cell, pins, out = pick(s, one[0b0101])
            cells.append([cell, dict({p: name[n] if v == "a" else "1'b%d" % v for p, v in pins.items()}, **{out: inv[n]})])
        return inv[n]

    # flip-flops: D with the reset off, I from what the reset loads
    rset, roff = {}, {}

    def xor(a, b):
        for x, y in ((a, b), (b, a)):
            if net.k[y >> 1] == "x":
                for u, w in ((net.a[y >> 1], net.b[y >> 1]), (net.b[y >> 1], net.a[y >> 1])):
                    if u >> 1 == x >> 1:
                        return w ^ ((u ^ x ^ y) & 1)
        return net.XOR(a, b)

    def cof(x, v, memo):
        """the literal with rst = v, in terms of the same graph"""
        todo = [x >> 1]
        while todo:
            n = todo[-1]
            if n in memo:
                todo.pop()
                continue
            if n == rst:
                memo[n] = v
            elif net.k[n] in "ax":
                a, b = net.a[n], net.b[n]
                need = [y >> 1 for y in (a, b) if y >> 1 not in memo]
                if need:
                    todo += need
                    continue
                f = net.AND if net.k[n] == "a" else xor
                memo[n] = f(memo[a >> 1] ^ (a & 1), memo[b >> 1] ^ (b & 1))
            else:
                memo[n] = 2 * n
            todo.pop()
        return memo[x >> 1] ^ (x & 1)
    outs = [cof(x, 0, roff) for x in D.outputs["o"]]
    term = cof(D.outputs["terminate"][0], 0, roff) if "terminate" in D.outputs else None
    ffs = []
    ninit = {D.inputs[p][i] >> 1: "%s[%d]" % (p, i) if ports[p] > 1 else p for p in PORTS[:3] if p in ports for i in range(ports[p])}
    for q, dl, init in D.state:
        i = cof(dl, 1, rset)
        if i == 2 * (q >> 1):
            i = init & 1
        if i in (0, 1):
            ini = "1'b%d" % i
        elif not i & 1 and i >> 1 in ninit:
            ini = ninit[i >> 1]
        else:
            raise Inconclusive("the reset value is not an init port: %s i=%s" % (D.top.mod.name, i))
        ffs.append((q, cof(dl, 0, roff), ini))
    need, todo = set(), [x >> 1 for x in outs] + ([term >> 1] if term is not None else [])
    ffd = {q >> 1: dd >> 1 for q, dd, _ in ffs}
    while todo:
        n = todo.pop()
        if n in need:
            continue
        need.add(n)
        if n in ffd:
            todo.append(ffd[n])
        elif net.k[n] in "ax":
            todo += [net.a[n] >> 1, net.b[n] >> 1]
    for q, dd, ini in ffs:
        if q >> 1 in need:
            name[q >> 1], pol[q >> 1] = "q%d" % (q >> 1), 0
    for n in range(len(net.k)):         # a node's operands have smaller numbers
        if net.k[n] not in "ax" or n not in need:
            continue
        a, b = net.a[n], net.b[n]
        if max(a >> 1, b >> 1) >= n:
            raise Inconclusive("the graph is not ordered")
        if any(y >> 1 not in name for y in (a, b)):
            raise Inconclusive("a signal has no net")
        ia, ib, po = (a & 1) ^ pol[a >> 1], (b & 1) ^ pol[b >> 1], s.raw(2)
        def tt(po):
            t = 0
            for k in range(4):
                x, y = (k & 1) ^ ia, (k >> 1) ^ ib
                t |= ((x & y if net.k[n] == "a" else x ^ y) ^ po) << k
            return t
        if tt(po) not in two:
            po ^= 1
        if tt(po) not in two:
            raise Fail("library", "no cell of %s computes the function %x" % (lib, tt(po)))
        cell, pins, out = pick(s, two[tt(po)])
        name[n], pol[n] = "n%d" % n, po
        v = {"a": name[a >> 1], "b": name[b >> 1], 0: "1'b0", 1: "1'b1"}
        cells.append([cell, dict({p: v[x] for p, x in pins.items()}, **{out: name[n]})])
    for q, dd, ini in ffs:
        if q >> 1 in need:
            cells.append(["DFF", dict(D=src(dd), I=ini, Q=name[q >> 1])])
    ports["o"] = len(outs)
    for i, x in enumerate(outs):
        assigns.append(["o" if len(outs) == 1 else "o[%d]" % i, src(x)])
    if term is not None:
        ports["terminate"] = 1
        assigns.append(["terminate", src(term)])
    return dict(ports=ports, cells=cells, assigns=assigns)


FLOW = {n: b for n, b in dict(BENCH, **LARGE).items() if n not in ("argmax", "select", "modmult", "stable_match_seq", "sha3_comb")}


def gflow(table):
    names = sorted(table)

    def gen(s):
        n = s.choice(names)
        b = table[n]
        P = dict(Kw=4, Km=4, M=4, W=4) if n == "stable_match" and s.bool() else dict(Kw=2, Km=2, M=2, W=2) if n == "stable_match" else b.params(s)
        v = gvec(s, b, P)
        w = b.ports(P)
        few = w.get("e_init", 0) + w.get("e_input", 0) * len(v) <= 1200     # every bit is a transfer of its own in the low-memory mode
        return dict(d=n, P=P, lib=s.choice(sorted(LIBS)), v=[{p: hexs(z) for p, z in x.items()} for x in v], map=s.raw(1 << 30),
                    mask=s.raw(3), ot=int(few and s.bool(1, 4)), low=s.raw(2), seed=1 + s.raw(1 << 16))
    return gen


def checkflow(table):
    def check(ctx, d):
        import random
        b, P = table[d["d"]], d["P"]
        D = design(b.top, P, b.dirs)
        if "o" not in D.outputs or any(p not in PORTS + ["clk", "rst"] for p in D.inputs):
            raise Inconclusive("ports of " + b.top)
        s = Src(random.Random(d["map"]))
        W = {p: len(D.inputs.get(p, ())) for p in PORTS}
        nl = mapped(s, D, W, d["lib"])
        ctx.label(d["d"])
        translate(ctx, netlist.verilog(s, netlist.shuffle(s, nl)))
        xs = [{p: int(z, 16) for p, z in x.items()} for x in d["v"]]
        if any(any(x.values()) for x in xs):
            ctx.nontrivial()
        cyc = len(xs)
        ini = [xs[0].get(p, 0) for p in PORTS[:3]]
        inp = [packed([{p: x.get(p, 0)} for x in xs], p, W[p]) for p in PORTS[3:]]
        no = nl["ports"]["o"]
        period = 1 if "terminate" in nl["ports"] else 0
        m = [0, mask(no), random.Random(d["seed"]).getrandbits(no)][d["mask"]]

        def verdict(outs, who):
            os = [dict(o=v) for v in outs]
            if period:
                for t, o in enumerate(os):
                    o["terminate"] = int(t == len(os) - 1)
            if any(not isinstance(v, int) for v in outs) or not outs or (not period and len(outs) != cyc):
                raise Fail("flow", "%s %s: %s printed %s" % (b.top, P, who, outs))
            e = b.judge(P, xs, os)
            if e:
                raise Fail("flow", "%s %s on %s, %s: %s" % (b.top, P, d["v"][:4], who, e))
        verdict(run_plain(ctx, ini, inp, cyc, period), "plaintext evaluation")
        r = gcrun.run(ctx, None, ini, inp, cyc, m, 1, period, 1 - d["ot"], d["low"], scd=ctx.path("out.scd"), rngA=d["seed"], rngB=d["seed"] + 1)
        gcrun.status(r)
        A, B = gcrun.parse(r["A.out"]), gcrun.parse(r["B.out"])
        if any(not isinstance(v, int) for v in A + B) or len(A) != len(B) or any(x & ~m or y & m for x, y in zip(A, B)):
            raise Fail("flow", "mask %s: Alice printed %r and Bob %r" % (hexs(m), r["A.out"], r["B.out"]))
        verdict([x | y for x, y in zip(A, B)], "garbled evaluation")
    return check


FL = {n: b for n, b in FLOW.items() if n in LARGE}
FS = {n: b for n, b in FLOW.items() if n not in LARGE}


def C40():
    return Prop("C40", "A benchmark circuit with drawn parameters is mapped to cells of a shipped library (by the functions the library states, in a drawn "
                "choice of cells), translated by V2SCD, and evaluated in plain and by two parties; non-trivial: some input is not zero.",
                [Suite("flow", gflow(FS), checkflow(FS), 800, 20000, 3), Suite("large", gflow(FL), checkflow(FL), 14, 300, 1)],
                W, ASSUME)


# ------------------------------------------------------------------ C45: the technology map for Yosys
TECHMAP = "lib/stdcells_S.v"
# cells that Yosys maps by itself (simplemap) and the gates of its library, as its manual defines them
SIMPLE = r"""
module \$pos (A, Y); parameter A_SIGNED = 0; parameter A_WIDTH = 1; parameter Y_WIDTH = 1; input [A_WIDTH-1:0] A; output [Y_WIDTH-1:0] Y;
genvar i; generate for (i = 0; i < Y_WIDTH; i = i + 1) begin:g if (i < A_WIDTH) assign Y[i] = A[i]; else if (A_SIGNED) assign Y[i] = A[A_WIDTH-1];
else assign Y[i] = 1'b0; end endgenerate
endmodule
module \$bu0 (A, Y); parameter A_SIGNED = 0; parameter A_WIDTH = 1; parameter Y_WIDTH = 1; input [A_WIDTH-1:0] A; output [Y_WIDTH-1:0] Y;
\$pos #(.A_SIGNED(A_SIGNED), .A_WIDTH(A_WIDTH), .Y_WIDTH(Y_WIDTH)) p (.A(A), .Y(Y));
endmodule
module \$mux (A, B, S, Y); parameter WIDTH = 1; input [WIDTH-1:0] A, B; input S; output [WIDTH-1:0] Y; assign Y = S ? B : A; endmodule
""" + "".join("module \\$_%s_ (A, B, Y); input A, B; output Y; assign Y = %s; endmodule\n" % x for x in (
    ("AND", "A & B"), ("OR", "A | B"), ("XOR", "A ^ B"), ("XNOR", "~(A ^ B)"), ("NAND", "~(A & B)"), ("NOR", "~(A | B)"))) + """
module \\$_MUX_ (A, B, S, Y); input A, B, S; output Y; assign Y = S ? B : A; endmodule
module \\$_NOT_ (A, Y); input A; output Y; assign Y = ~A; endmodule
module \\$_INV_ (A, Y); input A; output Y; assign Y = ~A; endmodule
""" + "".join(r"""
module \$%s (A, B, Y); parameter A_SIGNED = 0; parameter B_SIGNED = 0; parameter A_WIDTH = 1; parameter B_WIDTH = 1; parameter Y_WIDTH = 1;
input [A_WIDTH-1:0] A; input [B_WIDTH-1:0] B; output [Y_WIDTH-1:0] Y; wire [Y_WIDTH-1:0] a, b;
\$pos #(.A_SIGNED(A_SIGNED), .A_WIDTH(A_WIDTH), .Y_WIDTH(Y_WIDTH)) p (.A(A), .Y(a));
\$pos #(.A_SIGNED(B_SIGNED), .A_WIDTH(B_WIDTH), .Y_WIDTH(Y_WIDTH)) q (.A(B), .Y(b));
assign Y = %s;
endmodule
""" % x for x in (("and", "a & b"), ("or", "a | b"), ("xor", "a ^ b"), ("xnor", "~(a ^ b)")))
_tech = {}


def techmap(cell, P):
    key = (cell, tuple(sorted(P.items())))
    if key not in _tech:
        if len(_tech) > 40:
            for k in [k for k in _tech if k]:
                del _tech[k]
        try:
            if None not in _tech:
                mods = vlog.parse_files([os.path.join(CS, TECHMAP)])
                for m in vlog.Parser(vlog.lex(vlog.strip_comments(SIMPLE))).file():
                    if not mods.get(m.name) or not mods[m.name].ports:       # the file names these cells without a body
                        mods[m.name] = m
                _tech[None] = mods
            _tech[key] = vlog.Design(_tech[None], "$" + cell, P)
        except (vlog.Unsupported, RecursionError, IndexError, KeyError, ValueError, TypeError, AttributeError, ZeroDivisionError, OSError) as e:
            _tech[key] = e
    if isinstance(_tech[key], Exception):
        raise Inconclusive("%s %s: %s: %s" % (cell, P, type(_tech[key]).__name__, str(_tech[key])[:200]))
    return _tech[key]


def rem(a, b):
    return a - b * quot(a, b)


def hot(P, x):
    s = [i for i in range(P["S_WIDTH"]) if x["S"] >> i & 1]
    return x["B"] >> (s[0] * P["WIDTH"]) if len(s) == 1 else x["A"] if not s else None


# value of Y from the operands as numbers (None: not specified)
WORD = {
    "add": lambda P, a, b, x: a + b + x["C"], "sub": lambda P, a, b, x: a - b, "mul": lambda P, a, b, x: a * b,
    "div": lambda P, a, b, x: quot(a, b) if b else None, "mod": lambda P, a, b, x: rem(a, b) if b else None,
    "lt": lambda P, a, b, x: int(a < b), "le": lambda P, a, b, x: int(a <= b), "gt": lambda P, a, b, x: int(a > b), "ge": lambda P, a, b, x: int(a >= b),
    "eq": lambda P, a, b, x: int(a == b), "ne": lambda P, a, b, x: int(a != b), "eqx": lambda P, a, b, x: int(a == b), "nex": lambda P, a, b, x: int(a != b),
    "neg": lambda P, a, b, x: -a,
    "shl": lambda P, a, b, x: a << min(b, 400), "sshl": lambda P, a, b, x: a << min(b, 400), "sshr": lambda P, a, b, x: a >> min(b, 400),
    "shr": lambda P, a, b, x: (a & mask(max(P["A_WIDTH"], P["Y_WIDTH"]))) >> min(b, 400),
    "pmux": lambda P, a, b, x: hot(P, x),
    "safe_pmux": lambda P, a, b, x: x["A"] if hot(P, x) is None else hot(P, x),
}


def tports(cell, P):
    if cell.endswith("pmux"):
        return dict(A=P["WIDTH"], B=P["WIDTH"] * P["S_WIDTH"], S=P["S_WIDTH"])
    d = dict(A=P["A_WIDTH"])
    if cell != "neg":
        d["B"] = P["B_WIDTH"]
    if cell == "add":
        d["C"] = 1
    return d


def tparams(cell, sign, a, b, y):
    if cell.endswith("pmux"):
        return dict(WIDTH=a, S_WIDTH=b)
    P = dict(A_SIGNED=sign, A_WIDTH=a, Y_WIDTH=y)
    if cell != "neg":
        P.update(B_SIGNED=0 if cell in ("shl", "shr", "sshl", "sshr") else sign, B_WIDTH=b)
    return P


def judge45(cell, P, ins):
    D = techmap(cell, P)
    ports = tports(cell, P)
    for p, w in ports.items():
        if len(D.inputs.get(p, ())) != w:
            raise Fail("ports", "$%s %s: input %s has %d bits, not %d" % (cell, P, p, len(D.inputs.get(p, ())), w))
    yw = P.get("Y_WIDTH", P.get("WIDTH"))
    if len(D.outputs.get("Y", ())) != yw:
        raise Fail("ports", "$%s %s: output Y has %d bits" % (cell, P, len(D.outputs.get("Y", ()))))
    outs = simulate(D, [[x] for x in ins], 0)
    for x, o in zip(ins, outs):
        n = lambda p: sg(x[p], ports[p]) if P.get(p + "_SIGNED") else x[p]
        w = WORD[cell](P, n("A"), n("B") if "B" in x else 0, x)
        if w is not None and o[0]["Y"] != w & mask(yw):
            raise Fail("value", "$%s %s on %s: Y is %x, not %x" % (cell, P, {p: hexs(v) for p, v in x.items()}, o[0]["Y"], w & mask(yw)))


def ex45():
    out = []
    for c in sorted(WORD):
        if c.endswith("pmux"):
            out += [(c, 0, a, b, 0) for a in (1, 2) for b in (1, 2, 3)]
        elif c == "neg":
            out += [(c, g, a, 1, y) for g in (0, 1) for a in (1, 2, 3, 4) for y in (1, 2, 3, 5)]
        else:
            out += [(c, g, a, b, y) for g in (0, 1) for a in (1, 2, 3) for b in (1, 2, 3) for y in (1, 2, 4)]
    return [list(x) for x in out]


def check45x(ctx, d):
    cell, P = d[0], tparams(*d)
    ports = sorted(tports(cell, P).items())
    ins = []
    for k in range(1 << sum(w for _, w in ports)):
        x = {}
        for p, w in ports:
            x[p] = k & mask(w)
            k >>= w
        ins.append(x)
    judge45(cell, P, ins)
    ctx.label(cell)
    ctx.nontrivial()


def gen45(s):
    cell = s.choice(sorted(WORD))
    hi = 20 if cell in ("mul", "div", "mod") else 70
    w = lambda: s.int(1, 8) if s.bool() else width(s, hi)
    a = w()
    P = tparams(cell, s.raw(2), a, a if s.bool(1, 3) else w(), a if s.bool(1, 3) else w())
    if "S_WIDTH" in P:
        P = dict(WIDTH=min(P["WIDTH"], 16), S_WIDTH=min(P["S_WIDTH"], 12))
    ports = tports(cell, P)
    v = []
    for _ in range(s.int(1, 40)):
        x = {p: s.bits(n) for p, n in ports.items()}
        if "S" in x:
            x["S"] = s.weighted([(1 << s.raw(ports["S"]), 3), (0, 1), (x["S"], 2)])
        elif s.bool(1, 4):
            x["A"] = s.choice([0, mask(a), 1 << (a - 1), mask(a) >> 1])
        if "B" in x and "S" not in x and s.bool(1, 3):
            x["B"] = (x["A"] + s.choice([0, 0, 1, -1]) if cell[-3:] not in ("shl", "shr") else s.raw(hi + 4)) & mask(ports["B"])
        v.append({p: hexs(z) for p, z in x.items()})
    return dict(c=cell, P=P, v=v)


def check45(ctx, d):
    ins = [{p: int(z, 16) for p, z in x.items()} for x in d["v"]]
    judge45(d["c"], d["P"], ins)
    ctx.label(d["c"])
    if any(any(x.values()) for x in ins):
        ctx.nontrivial()


def C45():
    return Prop("C45", "A word-level cell of the Yosys technology map (lib/stdcells_S.v) is elaborated with drawn widths and signedness and simulated on drawn "
                "operands; suite narrow: every operand value for operands of 1 to 3 bits. Non-trivial: some operand is not zero.",
                [Suite("narrow", lambda s: s.choice(ex45()), check45x, 0, 0, 1, exhaustive=ex45()),
                 Suite("cells", gen45, check45, 1500, 100000, 4)], [], ASSUME)
