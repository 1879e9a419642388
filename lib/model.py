"""Independent reference model: circuits, their simulation, and generators.

Nothing here is derived from the code under test; gate codes and file format are
those documented in scd/README.md and util/common.h.
"""
C0, C1 = -2, -3
AND, ANDN, NAND, NANDN, OR, ORN, NOR, NORN, XOR, XNOR, NOT = 8, 4, 7, 11, 14, 13, 1, 2, 6, 9, 12
GATES = [AND, ANDN, NAND, NANDN, OR, ORN, NOR, NORN, XOR, XNOR, NOT]
NAMES = {AND: "AND", ANDN: "ANDN", NAND: "NAND", NANDN: "NANDN", OR: "OR", ORN: "ORN", NOR: "NOR", NORN: "NORN",
         XOR: "XOR", XNOR: "XNOR", NOT: "NOT"}
FREE = (XOR, XNOR, NOT)


def op(t, a, b=0):
    if t == AND: return a & b
    if t == ANDN: return a & (1 - b)
    if t == NAND: return 1 - (a & b)
    if t == NANDN: return 1 - (a & (1 - b))
    if t == OR: return a | b
    if t == ORN: return a | (1 - b)
    if t == NOR: return 1 - (a | b)
    if t == NORN: return 1 - (a | (1 - b))
    if t == XOR: return a ^ b
    if t == XNOR: return 1 - (a ^ b)
    if t == NOT: return 1 - a
    raise ValueError(t)


class Circ:
    """sz = [p_init, g_init, e_init, p_input, g_input, e_input]; gates (in0, in1, type);
    dffs (D, I); outs wire ids; term wire id or 0."""
    def __init__(self, sz, dffs, gates, outs, term=0):
        self.sz, self.dffs, self.gates, self.outs, self.term = list(sz), [tuple(d) for d in dffs], \
            [tuple(g) for g in gates], list(outs), term

    @staticmethod
    def of(j):
        if "big" in j:
            return big_circ(*j["big"])
        return Circ(j["sz"], j["dffs"], j["gates"], j["outs"], j.get("term", 0))

    def json(self):
        if getattr(self, "big", None):
            return dict(big=self.big)
        return dict(sz=self.sz, dffs=[list(d) for d in self.dffs], gates=[list(g) for g in self.gates], outs=self.outs,
                    term=self.term)

    @property
    def ninit(self):
        return sum(self.sz[:3])

    @property
    def dff_lo(self):
        return sum(self.sz)

    @property
    def gate_lo(self):
        return sum(self.sz) + len(self.dffs)

    @property
    def nwires(self):
        return self.gate_lo + len(self.gates)

    def text(self):
        s = " ".join(map(str, self.sz + [len(self.dffs), len(self.outs), self.term, len(self.gates)])) + "\n"
        for col in ([g[0] for g in self.gates], [g[1] for g in self.gates], [g[2] for g in self.gates], self.outs,
                    [d[0] for d in self.dffs], [d[1] for d in self.dffs]):
            s += "".join("%d " % x for x in col) + "\n"
        return s

    @staticmethod
    def parse(text):
        t = [int(x) for x in text.split()]
        sz, ndff, nout, term, ng = t[:6], t[6], t[7], t[8], t[9]
        t = t[10:]
        if len(t) != 3 * ng + nout + 2 * ndff:
            raise ValueError("SCD file has %d numbers after the header, header says %d" % (len(t), 3 * ng + nout + 2 * ndff))
        i0, i1, ty = t[:ng], t[ng:2 * ng], t[2 * ng:3 * ng]
        t = t[3 * ng:]
        outs, t = t[:nout], t[nout:]
        return Circ(sz, list(zip(t[:ndff], t[ndff:])), list(zip(i0, i1, ty)), outs, term)

    def wellformed(self):
        """None or a description of what is wrong"""
        n = self.nwires
        for i, (a, b, t) in enumerate(self.gates):
            w = self.gate_lo + i
            if t not in GATES:
                return "gate %d has code %d" % (i, t)
            if not (a in (C0, C1) or 0 <= a < w):
                return "gate %d operand 0 is %d (gate wire is %d)" % (i, a, w)
            if t == NOT:
                if not (b == -1 or b in (C0, C1) or 0 <= b < w):
                    return "NOT gate %d operand 1 is %d" % (i, b)
            elif not (b in (C0, C1) or 0 <= b < w):
                return "gate %d operand 1 is %d (gate wire is %d)" % (i, b, w)
        for i, o in enumerate(self.outs):
            if not 0 <= o < n:
                return "output %d is wire %d of %d" % (i, o, n)
        for i, (d, ini) in enumerate(self.dffs):
            if not (d in (C0, C1) or 0 <= d < n):
                return "flip-flop %d D is %d" % (i, d)
            if not (ini in (C0, C1) or 0 <= ini < self.ninit):
                return "flip-flop %d init is %d (init wires: %d)" % (i, ini, self.ninit)
        if not 0 <= self.term < n:
            return "terminate index is %d" % self.term
        return None

    # ------------------------------------------------------------ simulation
    def run(self, ini, inp, cycles, period=0, trace=None):
        """ini, inp: [p, g, e] integers.  Returns list of output integers, one per executed cycle."""
        pi, gi, ei, px, gx, ex = self.sz
        initw = [(ini[0] >> k) & 1 for k in range(pi)] + [(ini[1] >> k) & 1 for k in range(gi)] \
            + [(ini[2] >> k) & 1 for k in range(ei)]

        def cv(w, x):
            return 0 if x == C0 else 1 if x == C1 else w[x]
        state = [cv(initw, i) for _, i in self.dffs]
        res = []
        for c in range(cycles):
            w = list(initw)
            for n, v in ((px, inp[0]), (gx, inp[1]), (ex, inp[2])):
                v >>= c * n
                w += [(v >> k) & 1 for k in range(n)]
            w += state
            for a, b, t in self.gates:
                w.append(op(t, cv(w, a), 0 if t == NOT else cv(w, b)))
            o = 0
            for k, x in enumerate(self.outs):
                o |= w[x] << k
            res.append(o)
            if trace is not None:
                trace.append(w)
            if period and self.term and c % period == 0 and w[self.term]:
                break
            state = [cv(w, d) for d, _ in self.dffs]
        return res

    # ---------------------------------------------- public knowledge analysis
    def analyse(self, ini_p, inp_p, cycles):
        """Symbolic run with public values known: per cycle returns
        (values, tables) where values[wire] is 0/1 for determined wires or a
        (label set as bits, inversion) pair, and tables is the number of gates that need a
        garbled table under the skipping rules (determined / free / unread gates
        need none).  Secret wires carry GF(2)-linear combinations of base labels."""
        pi, gi, ei, px, gx, ex = self.sz
        fresh = [0]

        def new():
            fresh[0] += 1
            return (1 << fresh[0], 0)
        ginit = [new() for _ in range(gi + ei)]

        def initv(i):
            if i == C0: return 0
            if i == C1: return 1
            if i < pi: return (ini_p >> i) & 1
            return ginit[i - pi]
        state = [initv(i) for _, i in self.dffs]
        out = []
        for c in range(cycles):
            w = [(ini_p >> k) & 1 for k in range(pi)] + ginit
            w += [(inp_p >> (c * px + k)) & 1 for k in range(px)]
            w += [new() for _ in range(gx + ex)]
            w += state
            lo = self.gate_lo
            need = []
            for a, b, t in self.gates:
                x = 0 if a == C0 else 1 if a == C1 else w[a]
                y = 0 if t == NOT else 0 if b == C0 else 1 if b == C1 else w[b]
                tab = False
                if t == NOT:
                    v = 1 - x if isinstance(x, int) else (x[0], x[1] ^ 1)
                elif isinstance(x, int) and isinstance(y, int):
                    v = op(t, x, y)
                elif isinstance(x, int) or isinstance(y, int):
                    if isinstance(x, int):
                        f0, f1, s = op(t, x, 0), op(t, x, 1), y
                    else:
                        f0, f1, s = op(t, 0, y), op(t, 1, y), x
                    v = f0 if f0 == f1 else (s[0], s[1] ^ f0)
                elif x[0] == y[0]:
                    same = x[1] == y[1]
                    f0, f1 = (op(t, 0, 0), op(t, 1, 1)) if same else (op(t, 0, 1), op(t, 1, 0))
                    v = f0 if f0 == f1 else (x[0], x[1] ^ f0)
                elif t in (XOR, XNOR):
                    v = (x[0] ^ y[0], x[1] ^ y[1] ^ (t == XNOR))
                else:
                    v = new()
                    tab = True
                w.append(v)
                need.append(tab)
            # liveness: read by an output, a D input, terminate, or a live undetermined gate
            live = [False] * len(self.gates)
            for x in self.outs + [d for d, _ in self.dffs] + ([self.term] if self.term else []):
                if x >= lo:
                    live[x - lo] = True
            tables = 0
            for i in range(len(self.gates) - 1, -1, -1):
                if not live[i] or isinstance(w[lo + i], int):
                    continue
                tables += need[i]
                a, b, t = self.gates[i]
                for x in ((a,) if t == NOT else (a, b)):
                    if x >= lo:
                        live[x - lo] = True
            out.append((w, tables))
            state = [(0 if d == C0 else 1 if d == C1 else w[d]) for d, _ in self.dffs]
        return out

    def prune(self):
        """removes gates nothing reads (keeps all others)"""
        lo = self.gate_lo
        used = [False] * len(self.gates)
        for x in self.outs + [d for d, _ in self.dffs] + ([self.term] if self.term else []):
            if x >= lo:
                used[x - lo] = True
        for i in range(len(self.gates) - 1, -1, -1):
            if used[i]:
                a, b, t = self.gates[i]
                for x in (a, b):
                    if x >= lo:
                        used[x - lo] = True
        m, gates = {}, []

        def f(x):
            return m[x] if x in m else x
        for i, (a, b, t) in enumerate(self.gates):
            if used[i]:
                m[lo + i] = lo + len(gates)
                gates.append((f(a), f(b), t))
        return Circ(self.sz, [(f(d), i) for d, i in self.dffs], gates, [f(o) for o in self.outs], f(self.term))


def gen_circ(s, comb=False, max_port=12, max_gates=40, max_dff=8, term=False, public=True, special=False, const=True,
             need_secret=False, max_out=24, dangling=True, ports=None):
    """random circuit.  special: operands biased to constants, public wires, equal / inverse wires."""
    if ports is not None:
        sz = list(ports)
    else:
        sz = [0] * 6
        if not comb:
            sz[0] = s.size(6) if public and s.bool(1, 2) else 0
            sz[1] = s.size(8) if s.bool(1, 2) else 0
            sz[2] = s.size(8) if s.bool(1, 2) else 0
        elif s.bool(1, 6):
            sz[:3] = [s.size(3), s.size(3), s.size(3)]
        sz[3] = s.size(max_port) if public and s.bool(1, 2) else 0
        sz[4] = s.size(max_port) if s.bool(7, 8) else 0
        sz[5] = s.size(max_port) if s.bool(7, 8) else 0
        if need_secret and sz[4] + sz[5] + sz[1] + sz[2] == 0:
            sz[4 + s.raw(2)] = 1 + s.size(max_port - 1)
    ninit = sum(sz[:3])
    ndff = 0 if comb else s.size(max_dff, 0)
    base = sum(sz) + ndff
    ng = s.size(max_gates, 0)
    # init wires are inputs of flip-flops only (as the translators produce them); gates
    # may read inputs, flip-flops and earlier gates
    rd_lo = ninit
    if base - rd_lo + ng == 0:
        ng = 1  # an output needs a wire
    gates = []
    for i in range(ng):
        hi = base + i
        t = s.choice(GATES)

        def pick(prev=None):
            k = s.raw(24)
            if const and k == 0:
                return C0
            if const and k == 1:
                return C1
            if hi <= rd_lo:
                return C0 if s.bool() else C1
            if special and k < 6 and prev is not None and prev >= 0:
                return prev
            if special and k < 9 and sz[3]:
                return ninit + s.raw(sz[3])
            if k < 14 and hi - base > 0:
                return hi - 1 - s.raw(min(hi - base, 6))
            return rd_lo + s.raw(hi - rd_lo)
        a = pick()
        b = -1 if t == NOT else pick(a)
        if special and t != NOT and s.bool(1, 6) and gates:
            # look for a NOT/XOR relation: take the input of an earlier NOT and its output
            nots = [j for j, g in enumerate(gates) if g[2] in (NOT, XNOR, XOR, NAND, NOR)]
            if nots:
                j = nots[s.raw(len(nots))]
                a, b = base + j, gates[j][0]
                if b < 0:
                    b = a
                if s.bool():
                    a, b = b, a
        gates.append((a, b, t))
    nw = base + ng
    dffs = []
    for i in range(ndff):
        k = s.raw(12)
        if k == 0 and const:
            d = C0
        elif k == 1 and const:
            d = C1
        elif k == 2 and ndff > 1:
            d = base - ndff + s.raw(ndff)
        else:
            d = rd_lo + s.raw(nw - rd_lo)
        k = s.raw(4)
        if k == 0 or ninit == 0:
            ini = C0 if s.bool() else C1
        else:
            ini = s.raw(ninit)
        dffs.append((d, ini))
    nout = 1 + s.size(max_out - 1)
    outs = []
    for i in range(nout):
        k = s.raw(10)
        if k < 6 and ng:
            outs.append(base + s.raw(ng))
        else:
            outs.append(rd_lo + s.raw(nw - rd_lo))
    tw = 0
    if term and nw > max(1, rd_lo):
        lo = max(1, rd_lo)
        tw = lo + s.raw(nw - lo)
    c = Circ(sz, dffs, gates, outs, tw)
    if not dangling:
        c = c.prune()
    return c


def hexs(v):
    return "%X" % v


def vals(s, c, cycles):
    """random init and input values for all three owners"""
    ini = [s.bits(c.sz[k]) for k in range(3)]
    inp = [s.bits(c.sz[3 + k] * cycles) for k in range(3)]
    return ini, inp


def cat(outs, n):
    v = 0
    for k, o in enumerate(outs):
        v |= o << (k * n)
    return v


_big = {}


def big_circ(n, rs, sz, ndff, nout, kinds=0, term=0):
    """a circuit of n gates that is written down by its parameters only: far and near references,
    depth of a few hundred levels, most gates live.  kinds: 0 all gate types, 1 mostly XOR, 2 no XOR"""
    key = (n, rs, tuple(sz), ndff, nout, kinds, term)
    if key in _big:
        return _big[key]
    import random
    r = random.Random(rs)
    ninit = sum(sz[:3])
    base = sum(sz) + ndff
    types = GATES if kinds == 0 else [XOR] * 12 + [XNOR, NOT, AND, ORN] if kinds == 1 else [g for g in GATES if g not in FREE]
    gates = []
    for i in range(n):
        hi = base + i
        t = r.choice(types)

        def pick():
            k = r.random()
            if k < 0.9 and hi - ninit > 2000:
                return hi - 1 - r.randrange(2000)
            if k > 0.98 or hi == ninit:
                return r.choice([C0, C1])
            return ninit + r.randrange(hi - ninit)
        gates.append((pick(), -1 if t == NOT else pick(), t))
    nw = base + n

    def dsrc():
        """a late gate mostly; else another flip-flop (a shift register), any wire or a constant"""
        k = r.random()
        if k < 0.75:
            return nw - 1 - r.randrange(min(n, 3000))
        if k < 0.9:
            return base - ndff + r.randrange(ndff)
        if k < 0.98:
            return ninit + r.randrange(nw - ninit)
        return r.choice([C0, C1])
    dffs = [(dsrc(), r.randrange(ninit) if ninit and r.random() < 0.7 else r.choice([C0, C1])) for _ in range(ndff)]
    outs = [nw - 1 - r.randrange(min(n, 3000)) if r.random() < 0.8 else ninit + r.randrange(nw - ninit) for _ in range(nout)]
    c = Circ(sz, dffs, gates, outs, base + r.randrange(n) if term else 0)
    c.big = [n, rs, list(sz), ndff, nout, kinds, term]
    _big.clear()
    _big[key] = c
    return c


def gen_big(s, seq=False):
    """more than 2^16 gates, input bits, flip-flops or outputs"""
    m = s.choice([66000, 70000, 90000]) + s.raw(3000)
    k = s.weighted([(0, 4), (1, 2), (2, 2), (3, 2)])
    n = m if k == 0 else 2000 + s.raw(3000)
    sz = [s.size(4) if seq else 0, s.size(6) if seq else 0, s.size(6) if seq else 0, s.size(30), 20 + s.raw(60), 20 + s.raw(60)]
    ndff, nout = 1 + s.raw(40) if seq else 0, 20 + s.raw(100)
    if k == 1:
        p = s.int(0 if seq else 3, 5)
        sz[p] += m
        if p < 3:
            ndff += m + s.raw(1000)
    elif k == 2:
        if seq:
            ndff += m
        else:
            nout += m
    elif k == 3:
        nout += m
    return big_circ(n, s.raw(1 << 16), sz, ndff, nout, s.raw(3))


EDGES = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097]


def lg(s, hi, lo=0):
    """sizes of all magnitudes, and around powers of two"""
    k = s.raw(4)
    if k == 0:
        return lo + s.raw(8)
    if k == 1:
        return max(lo, min(hi, s.choice(EDGES)))
    e = s.raw(hi.bit_length())
    return max(lo, min(hi, (1 << e) + s.raw(1 << e)))


def gen_mid(s, seq=False, term=False, port=5000, gates=6000):
    """a circuit of any middling size, given by its parameters"""
    wide = s.raw(7)
    def p(k):
        return lg(s, port) if wide == k else s.size(40)
    sz = [p(k) if seq or k > 2 else 0 for k in range(6)]
    return big_circ(lg(s, gates, 1), s.raw(1 << 16), sz, lg(s, 1500) if seq else 0, lg(s, 3000, 1), s.raw(3), int(term and seq))


def cyc_for(s, c, work=60000, hi=400):
    """a cycle count that keeps the run affordable"""
    return max(1, min(lg(s, hi, 1), work // (len(c.gates) + 2 * len(c.dffs) + sum(c.sz) + len(c.outs) + 1)))
