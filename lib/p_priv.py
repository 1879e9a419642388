"""C09-C16: what travels between the parties, refusals and input spelling."""
import model, gcrun
from model import Circ, hexs, gen_circ, gen_mid, cyc_for, lg, vals
from pbt import Fail, Inconclusive, Prop, Suite
from p_ot import cut_case, check_cut
from p_cli import CLI, g14prog, check14prog
from p_gc import W, ASSUME, hist, mk, unpack, go, ref, masks, plain, gmidseq, gmid, any_mask

RND = ["With a fixed seed both parties draw from a deterministic OpenSSL RAND_METHOD, so that two runs can be compared byte by byte."]


def hb(x):
    return bytes.fromhex(x)


def ok(r, what=""):
    gcrun.status(r, what)


# --------------------------------------------------------------------- C09
def table_unit(ctx):
    """(bytes of one table) measured on one AND gate"""
    if not hasattr(ctx, "_unit"):
        c1 = Circ([0, 0, 0, 0, 2, 1], [], [(0, 1, model.AND)], [3])
        c0 = Circ([0, 0, 0, 0, 2, 1], [], [], [0])
        L = []
        for c in (c0, c1):
            r = gcrun.run(ctx, c, [0, 0, 0], [0, 3, 1], 1, 1, 0, 0, 1, 0, rngA=5, rngB=6)
            ok(r)
            L.append(int(r["lenAB"]))
        ctx._unit = L[1] - L[0]
        if not 0 < ctx._unit <= 64:
            raise Fail("table-size", "one AND gate adds %d bytes" % ctx._unit)
    return ctx._unit


def g09(s):
    c = gen_circ(s, max_port=6, max_gates=s.choice([8, 20, 60]), max_dff=6, special=s.bool(1, 2), dangling=False)
    if sum(c.sz) - c.ninit == 0:
        c = Circ([0, 0, 0, 1, 1, 0], [], [(0, 1, s.choice([g for g in model.GATES if g != model.NOT]))], [2])
    return mk(s, c, s.weighted([(1, 2), (2, 2), (3, 2), (5, 1)]), low=s.raw(2))


def g09mid(s):
    c = gen_mid(s, s.bool(3, 4), port=1500, gates=3000)
    return mk(s, c, cyc_for(s, c, 15000, 40), low=s.raw(2))


def g09free(s):
    """nothing but XOR/XNOR/NOT and gates with one public operand"""
    sz = [s.size(2), 0, 0, 1 + s.size(2), 1 + s.size(4), 1 + s.size(4)]
    lo = sz[0]
    base = sum(sz)
    nd = s.size(3)
    gates = []
    for i in range(1 + s.size(30)):
        hi = base + nd + i

        def any_():
            return lo + s.raw(hi - lo)
        k = s.raw(6)
        if k == 0:
            gates.append((any_(), -1, model.NOT))
        elif k < 4:
            gates.append((any_(), any_(), s.choice([model.XOR, model.XNOR])))
        else:
            a, b = any_(), (model.C0, model.C1, lo + s.raw(sz[3]))[s.raw(3)]
            if s.bool():
                a, b = b, a
            gates.append((a, b, s.choice([g for g in model.GATES if g != model.NOT])))
    n = base + nd + len(gates)
    dffs = [(lo + s.raw(n - lo), s.choice([model.C0, model.C1] + list(range(sz[0])))) for _ in range(nd)]
    c = Circ(sz, dffs, gates, [lo + s.raw(n - lo) for _ in range(1 + s.size(6))]).prune()
    return mk(s, c, s.int(1, 3), low=s.raw(2))


def check09(ctx, d):
    c, ini, inp = unpack(d)
    if "big" in d["c"]:     # without dangling logic
        c = c.prune()
        d = dict(d, c=c.json())
    d = dict(d, mask=hexs((1 << len(c.outs)) - 1))
    unit = table_unit(ctx)
    r = go(ctx, d)
    ok(r)
    b = Circ(c.sz, [(model.C0, model.C0)] * len(c.dffs), [], [c.ninit])
    b0 = dict(d, c=b.json(), mask="1")
    r0 = go(ctx, b0)
    ok(r0)
    base = int(r0["lenAB"])
    an = c.analyse(ini[0], inp[0], d["cycles"])
    want = sum(t for _, t in an)
    got = int(r["lenAB"]) - base
    two = sum(1 for g in c.gates if g[2] not in model.FREE) * d["cycles"]
    ctx.label("low" if d["low"] else "high", "cycles>1" if d["cycles"] > 1 else "1 cycle")
    if len(c.gates) * d["cycles"] > want:
        ctx.nontrivial()
    if two > want:
        ctx.label("some non-XOR gate is free")
    if got > unit * want:
        raise Fail("traffic", "the gates added %d bytes to the garbler's stream; %d tables of %d bytes are needed (%d gate evaluations)" % (
            got, want, unit, len(c.gates) * d["cycles"]))
    if got < unit * want:
        ctx.label("fewer tables than the model")


def C09():
    return Prop("C09", "The garbler's stream length of a random circuit in which every gate is read (all outputs Alice's) is compared with "
                "that of the gate-free circuit with the same interface plus one table per gate that the public-knowledge analysis calls "
                "necessary; non-trivial: at least one gate evaluation must be free.",
                [Suite("tables", g09, check09, 3000, 300000, 2), Suite("free", g09free, check09, 1500, 150000, 1),
                 Suite("mid", g09mid, check09, 200, 10000, 1)], W, ASSUME)


# --------------------------------------------------------------------- C10
def twin_R(a, b):
    """a, b: byte streams of equal length.  Returns (R or None, number of windows) or raises."""
    if len(a) != len(b):
        raise Fail("length", "stream lengths differ: %d and %d bytes" % (len(a), len(b)))
    i, R, n, pos = 0, None, 0, []
    L = len(a)
    while i < L:
        if a[i] == b[i]:
            i += 1
            continue
        x = bytes(p ^ q for p, q in zip(a[i:i + 16], b[i:i + 16]))
        if R is None:
            R = x
        elif x != R:
            raise Fail("difference", "the streams differ at byte %d by %s; earlier difference (byte %d) was the offset %s" % (
                i, x.hex(), pos[0], R.hex()))
        pos.append(i)
        n += 1
        i += 16
    if R is not None and len(R) < 16:
        raise Fail("difference", "the streams differ in their last %d bytes only" % len(R))
    return R, n


def g10(s):
    k = s.raw(10)
    noot = 0 if k == 0 else 1
    c = gen_circ(s, max_port=8, max_gates=25, max_dff=5, max_out=10, special=s.bool(1, 3), term=s.bool(1, 4))
    if noot == 0 and c.sz[5] > 4:
        c.sz  # keep; OT runs are slower but fine
    if c.sz[1] + c.sz[4] == 0:
        c = Circ([0, 0, 0, 0, 3, 2], [], [(0, 3, model.AND), (1, 5, model.OR)], [6, 5, 0])
    d = mk(s, c, s.weighted([(1, 2), (2, 2), (3, 1)]) if noot else s.int(1, 2), low=s.raw(2), noot=noot, mask=hexs(masks(s, len(c.outs))))
    d["g2"] = [hexs(s.bits(c.sz[1])), hexs(s.bits(c.sz[4] * d["cycles"]))]
    d["mode"] = s.raw(3)
    if c.term:
        d["term"] = s.int(0, 2)
    return d


def fit_term(d):
    """twins that stop in different cycles are compared without the terminate signal"""
    if d["term"] and len(ref(d)) != len(ref(with_vals(d, 1, *d["g2"]))):
        d = dict(d, term=0)
    return d


def executed(d):
    """the input bits of Alice that some executed cycle reads"""
    return (1 << (Circ.of(d["c"]).sz[4] * len(ref(d)))) - 1


def small(s, noot=1):
    """a request of middling size with at least one bit of Alice's"""
    c = gen_mid(s, s.bool(3, 4), port=1000, gates=1500)
    if c.sz[1] + c.sz[4] == 0:
        b = c.big
        c = model.big_circ(b[0], b[1], b[2][:4] + [1 + s.raw(9)] + b[2][5:], *b[3:])
    cyc = cyc_for(s, c, 8000, 60)
    return mk(s, c, cyc, low=s.raw(2), noot=noot, mask=hexs(any_mask(s, len(c.outs))))


def g10mid(s):
    d = small(s)
    c = Circ.of(d["c"])
    d["g2"] = [hexs(s.bits(c.sz[1])), hexs(s.bits(c.sz[4] * d["cycles"]))]
    d["mode"] = s.raw(3)
    return d


def with_vals(d, who, ini, inp):
    e = dict(d)
    e["ini"] = list(d["ini"])
    e["inp"] = list(d["inp"])
    e["ini"][who], e["inp"][who] = ini, inp
    return e


def check10g(ctx, d):
    d = fit_term(d)
    c = Circ.of(d["c"])
    d2 = with_vals(d, 1, *d["g2"])
    r1, r2 = go(ctx, d, rec=1), go(ctx, d2, rec=1)
    ok(r1)
    ok(r2)
    dist = bin(int(d["ini"][1], 16) ^ int(d["g2"][0], 16)).count("1") + bin(int(d["inp"][1], 16) ^ int(d["g2"][1], 16)).count("1")
    ctx.label("low" if d["low"] else "high", "noOT" if d["noot"] else "OT", "changed bits:%s" % (dist if dist < 3 else "3+"))
    R, n = twin_R(hb(r1["AB"]), hb(r2["AB"]))
    if dist:
        ctx.nontrivial()
    ex = dist
    if d["term"]:       # inputs of cycles that are not executed may or may not be sent
        ex -= bin((int(d["inp"][1], 16) ^ int(d["g2"][1], 16)) & ~executed(d)).count("1")
        ctx.label("terminate")
    if not ex <= n <= dist:
        raise Fail("difference", "%d input bits of Alice changed, but %d labels in her stream did" % (dist, n))
    # all outputs to Bob: his stream carries nothing back that could depend on her inputs
    if int(d["mask"], 16) & ((1 << len(c.outs)) - 1) == 0 and not d["term"]:
        ctx.label("mask 0")
        if r1["BA"] != r2["BA"]:
            raise Fail("reply", "all outputs are Bob's, but his stream changed with Alice's inputs")
    elif len(r1["BA"]) != len(r2["BA"]):
        raise Fail("length", "Bob's stream has %d or %d bytes depending on Alice's inputs" % (len(r1["BA"]) // 2, len(r2["BA"]) // 2))


def ports_bits(s, n, cyc):
    """input bits of some cycles, some of which may be all zero, all one or a single bit"""
    v = 0
    for k in range(cyc):
        j = s.raw(6)
        v |= (0 if j == 0 else (1 << n) - 1 if j == 1 else 1 << s.raw(n) if j == 2 else s.bits(n)) << (k * n)
    return v


def g10e(s):
    big = s.bool(2, 5)
    n = s.choice([129, 130, 160, 200]) if big else s.choice([1, 2, 3, 5, 8, 12])
    ei = s.size(3) if not big else 0
    if s.bool(1, 12):
        ei, n = s.choice([129, 140]), 1
    sz = [0, s.size(2), ei, s.size(2), s.size(3), n]
    c = gen_circ(s, ports=sz, max_gates=15, max_dff=3, max_out=6)
    cyc = s.int(1, 2)
    d = mk(s, c, cyc, low=s.raw(2), noot=0, mask=hexs(masks(s, len(c.outs))))
    k = s.raw(6)
    full = (1 << (n * cyc)) - 1
    if k < 2:
        d["inp"][2], e2 = ((hexs(0), hexs(full)), (hexs(full), hexs(0)))[k]
    else:
        d["inp"][2], e2 = hexs(ports_bits(s, n, cyc)), hexs(ports_bits(s, n, cyc))
    d["ini"][2] = hexs(ports_bits(s, ei, 1)) if ei else "0"
    d["e2"] = [hexs(ports_bits(s, ei, 1)) if ei else "0", e2]
    return d


def check10e(ctx, d):
    c = Circ.of(d["c"])
    d2 = with_vals(d, 2, *d["e2"])
    bits = c.sz[2] + c.sz[5] * d["cycles"]
    ctx.label("extension" if max(c.sz[2], c.sz[5]) > 128 else "base OT")
    if d["inp"][2] != d2["inp"][2] or d["ini"][2] != d2["ini"][2]:
        ctx.nontrivial()
    else:
        return
    # Random big numbers are sent without leading zero bytes, so that lengths vary a little with the
    # randomness; only a difference of one sign for every one of many seeds is a dependency.
    signs = set()
    for k in range(24):
        seed = d["seed"] + 1000 * k
        r1 = go(ctx, d, rngA=seed, rngB=seed + 7)
        r2 = go(ctx, d2, rngA=seed, rngB=seed + 7)
        ok(r1)
        ok(r2)
        df = (int(r1["lenAB"]) - int(r2["lenAB"]), int(r1["lenBA"]) - int(r2["lenBA"]))
        signs.add(tuple((x > 0) - (x < 0) for x in df))
        ab = {a for a, _ in signs}
        ba = {b for _, b in signs}
        if (0 in ab or len(ab) > 1) and (0 in ba or len(ba) > 1):
            return
    raise Fail("length", "stream lengths depend on Bob's input bits for 24 seeds (last difference A->B %d, B->A %d bytes)" % df)


def g10v(s):
    """many random evaluator bits; his vector must not be in his stream"""
    n = s.choice([64, 96, 128, 136, 160])
    v = 0
    for i in range(0, n, 32):
        v |= s.raw(1 << 32) << i
    c = Circ([0, 0, 0, 0, 1, n], [], [(0, 1, model.AND)], [n + 1, 1, n])
    d = mk(s, c, 2, low=s.raw(2), noot=0)
    w = 0
    for i in range(0, n, 32):
        w |= s.raw(1 << 32) << i
    d["inp"][2] = hexs((v & ((1 << n) - 1)) | (w & ((1 << n) - 1)) << n)
    return d


def needles(v, nbits):
    """8-byte pieces of the packed vector, in the usual packings"""
    res = set()
    for rev in (0, 1):
        x = v
        if rev:
            x = int(bin(v)[2:].zfill(nbits)[::-1], 2)
        for sh in range(8):
            b = (x << sh).to_bytes(nbits // 8 + 2, "big")
            for e in (b, b[::-1]):
                for i in range(1, len(e) - 9):
                    w = e[i:i + 7]
                    if len(set(w)) >= 5:
                        res.add(w)
                        res.add(bytes(255 - q for q in w))
    return res


def find(hay, ns, size):
    for i in range(len(hay) - size + 1):
        if hay[i:i + size] in ns:
            return i
    return -1


def check10v(ctx, d):
    c = Circ.of(d["c"])
    r = go(ctx, d, rec=1)
    ok(r)
    v = int(d["inp"][2], 16)
    n = c.sz[5] * d["cycles"]
    ns = needles(v, n)
    if len(ns) < 8:
        return
    ctx.nontrivial()
    i = find(hb(r["BA"]), ns, 7)
    if i >= 0:
        raise Fail("vector", "Bob's stream contains part of his input vector in clear at byte %d" % i)
    # one byte (or one word) per bit encodings
    bits = [(v >> k) & 1 for k in range(n)]
    for w in (1, 2, 4, 8):
        for one in (1, 255):
            pat = b"".join((one if b else 0).to_bytes(w, "little") for b in bits[:48])
            if pat in hb(r["BA"]):
                raise Fail("vector", "Bob's stream contains his input bits, one per %d bytes" % w)


def C10():
    return Prop("C10", "Twin runs with fixed randomness: two inputs of Alice (her stream may differ only by R in one 16-byte field per changed "
                "bit), two inputs of Bob under OT (lengths), and Bob's packed input vector searched in his stream; non-trivial: the inputs "
                "of the twins differ (vector: high-entropy vector).",
                [Suite("garbler", g10, check10g, 2500, 200000, 4), Suite("mid", g10mid, check10g, 250, 12000, 2), Suite("evaluator", g10e, check10e, 72, 5000, 3),
                 Suite("vector", g10v, check10v, 24, 2000, 1)], W, ASSUME + RND)


# --------------------------------------------------------------------- C11
def g11(s, mid=False):
    d = g10mid(s) if mid else g10(s)
    c = Circ.of(d["c"])
    # same request, one bit of Alice flipped, to learn R
    n0, n1 = c.sz[1], c.sz[4] * d["cycles"]
    k = s.raw(n0 + n1)
    a, b = int(d["ini"][1], 16), int(d["inp"][1], 16)
    if k < n0:
        a ^= 1 << k
    else:
        b ^= 1 << (k - n0)
    d["g2"] = [hexs(a), hexs(b)]
    return d


def windows(b):
    return [int.from_bytes(b[i:i + 16], "little") for i in range(len(b) - 15)]


def check11(ctx, d):
    d = fit_term(d)
    if d["term"] and (int(d["inp"][1], 16) ^ int(d["g2"][1], 16)) & ~executed(d):
        d = dict(d, term=0)
    d2 = with_vals(d, 1, *d["g2"])
    r1, r2 = go(ctx, d, rec=1), go(ctx, d2, rec=1)
    ok(r1)
    ok(r2)
    ctx.label("low" if d["low"] else "high", "noOT" if d["noot"] else "OT")
    a, b = hb(r1["AB"]), hb(r2["AB"])
    # the first difference is the label of the flipped bit
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), None)
    if i is None or i + 16 > min(len(a), len(b)):
        raise Fail("label", "flipping one bit of Alice did not change a label in her stream")
    R = int.from_bytes(bytes(p ^ q for p, q in zip(a[i:i + 16], b[i:i + 16])), "little")
    if R == 0 or bin(R).count("1") < 20:
        raise Fail("offset", "the labels of one wire differ by %032x" % R)
    ctx.nontrivial()
    for name, st in (("garbler", a), ("evaluator", hb(r1["BA"])), ("twin garbler", b)):
        w = windows(st)
        seen = {}
        for k, x in enumerate(w):
            if x == R:
                raise Fail("disclosed", "the %s's stream contains the offset at byte %d" % (name, k))
            seen.setdefault(x, k)
        for k, x in enumerate(w):
            o = seen.get(x ^ R)
            if o is not None:
                raise Fail("pair", "the %s's stream contains two fields (bytes %d and %d) whose XOR is the offset" % (name, k, o))
    # a big-endian or negated copy
    for v in (int.from_bytes(R.to_bytes(16, "little"), "big"), R ^ ((1 << 128) - 1)):
        for name, st in (("garbler", a), ("evaluator", hb(r1["BA"]))):
            if v.to_bytes(16, "little") in st:
                raise Fail("disclosed", "the %s's stream contains the offset (reversed or complemented)" % name)


def C11():
    return Prop("C11", "The offset is learnt from a twin run that flips one bit of Alice; then every 16-byte window of both streams is compared with "
                "it, alone and pairwise; non-trivial: every completed case.",
                [Suite("offset", g11, check11, 1800, 150000, 3), Suite("mid", lambda s: g11(s, True), check11, 160, 8000, 1)], W, ASSUME + RND)


# --------------------------------------------------------------------- C12
def rich(w):
    return len(set(w)) >= 9


def dup16(st):
    """first pair of equal, non-overlapping, high-entropy 16-byte windows"""
    seen = {}
    for i in range(len(st) - 15):
        w = st[i:i + 16]
        j = seen.get(w)
        if j is not None:
            if i - j >= 16 and rich(w):
                return j, i
        else:
            seen[w] = i
    return None


def g12(s):
    """identical gates, held registers, several cycles, several equal inputs"""
    if s.bool(1, 2):
        c = gen_circ(s, max_port=6, max_gates=20, max_dff=6, max_out=10)
        if c.gates:
            # duplicate gates
            g = list(c.gates)
            outs = list(c.outs)
            for _ in range(1 + s.size(4)):
                g.append(c.gates[s.raw(len(c.gates))])
                outs.append(c.gate_lo + len(g) - 1)
            c = Circ(c.sz, c.dffs, g, outs)
    else:
        n = 2 + s.size(3)
        sz = [0, n, n, 0, s.size(2), s.size(2)]
        base = sum(sz)
        dffs = [(base + k, k) for k in range(2 * n)]      # held
        gates = []
        outs = []
        for _ in range(1 + s.size(5)):
            a, b = base + s.raw(2 * n), base + s.raw(2 * n)
            t = s.choice([g for g in model.GATES if g not in model.FREE])
            for _ in range(1 + s.raw(3)):
                gates.append((a, b, t))
                outs.append(base + 2 * n + len(gates) - 1)
        c = Circ(sz, dffs, gates, outs)
    noot = 0 if s.bool(1, 8) else 1
    d = mk(s, c, s.weighted([(2, 3), (3, 2), (1, 1), (4, 1)]) if noot else 2, low=s.raw(2), noot=noot, mask=hexs(masks(s, len(c.outs))))
    d["mode"] = s.raw(3)
    t = c.outs[s.raw(len(c.outs))] if c.outs and s.bool(1, 3) else 0
    if t > 0:
        d["c"]["term"] = t
        d["term"] = s.int(1, 3)
    return d


def g12big(s):
    """sessions with many gates of the same operands, or held registers over many cycles"""
    k = s.raw(4)
    if k == 0:
        return small(s, 0 if s.bool(1, 10) else 1)
    n = 2 + s.raw(3)
    if k == 1:      # gates
        m = s.choice([300, 1100, 5000, 66000 + s.raw(500)]) if s.bool(1, 3) else lg(s, 5000, 10)
        t = s.choice([g for g in model.GATES if g not in model.FREE])
        p, q = s.raw(n), n + s.raw(n)
        # the operands are the first gate, so that a request of many gates is small to write down
        return dict(same=[n, m, p, q, t], low=s.raw(2), noot=1, cycles=1, seed=1 + s.raw(1 << 16), mode=0, term=0)
    cyc = s.choice([257, 300, 513, 1100, 5000]) if s.bool(9, 10) else 65600 + s.raw(100)
    base = 2 * n
    gates, outs = [], []
    for _ in range(1 if cyc > 9000 else 1 + s.raw(3)):
        gates.append((base + s.raw(n), base + n + s.raw(n), s.choice([g for g in model.GATES if g not in model.FREE])))
        outs.append(base + 2 * n + len(gates) - 1)
    c = Circ([0, n, n, 0, 0, 0], [(base + i, i) for i in range(2 * n)], gates, outs)
    return mk(s, c, cyc, low=s.raw(2), mask=hexs(s.raw(1 << len(outs))))


def check12big(ctx, d):
    if "same" in d:
        n, m, p, q, t = d["same"]
        c = Circ([0, 0, 0, 0, n, n], [], [(p, q, t)] * m, [2 * n + k for k in range(m)])
        ctx.label("many gates")
    else:
        c = Circ.of(d["c"])
        ctx.label("many cycles" if d["cycles"] > 200 else "middling")
    r = gcrun.run(ctx, c, [0, 0, 0] if "same" in d else [int(x, 16) for x in d["ini"]], [0, 2, 1] if "same" in d else [int(x, 16) for x in d["inp"]],
                  d["cycles"], int(d.get("mask", "0"), 16), d["mode"], d["term"], d["noot"], d["low"], rec=1, rngA=d["seed"], rngB=d["seed"] + 1)
    ok(r)
    ctx.nontrivial()
    for name, k in (("garbler", "AB"), ("evaluator", "BA"))[:1 if d["noot"] else 2]:    # without OT Bob's bits travel in clear
        x = dup16(hb(r[k]))
        if x:
            raise Fail("repeat", "bytes %d and %d of the %s's stream hold the same 16-byte field" % (x[0], x[1], name))


def check12(ctx, d):
    c, ini, inp = unpack(d)
    t = sum(t for _, t in c.analyse(ini[0], inp[0], d["cycles"]))
    if t >= 2:
        ctx.nontrivial()
    ctx.label("low" if d["low"] else "high", "noOT" if d["noot"] else "OT", "cycles>1" if d["cycles"] > 1 else "1 cycle")
    real = d["seed"] % 2
    kw = dict(rec=1, rngA=0, rngB=0) if real else dict(rec=1)
    r = go(ctx, d, **kw)
    ok(r)
    for name, k in (("garbler", "AB"), ("evaluator", "BA"))[:1 if d["noot"] else 2]:    # without OT Bob's bits travel in clear
        x = dup16(hb(r[k]))
        if x:
            raise Fail("repeat", "bytes %d and %d of the %s's stream hold the same 16-byte field" % (x[0], x[1], name))
    if not real:
        return
    r2 = go(ctx, d, **kw)       # same inputs, same weak seed, a moment later
    ok(r2)
    for k in ("AB", "BA")[:1 if d["noot"] else 2]:
        a, b = hb(r[k]), hb(r2[k])
        ws = {a[i:i + 16] for i in range(len(a) - 15)}
        for i in range(len(b) - 15):
            w = b[i:i + 16]
            if w in ws and rich(w):
                raise Fail("sessions", "two sessions with the same inputs share a 16-byte field (%s, byte %d)" % (k, i))
    ctx.label("two sessions")


def bm(bits):
    """Berlekamp-Massey: linear complexity over GF(2)"""
    c, b, L, m = 1, 1, 0, -1
    s = 0
    for n, x in enumerate(bits):
        s = (s << 1) | x        # bit i of s = bits[n-i]
        d = bin(c & s).count("1") & 1
        if d:
            t = c
            c ^= b << (n - m)
            if 2 * L <= n:
                L, m, b = n + 1 - L, n, t
    return L


def g12r(s):
    return dict(seed=s.raw(1 << 30), n=256)


def check12r(ctx, d):
    out = []
    for _ in range(2):
        st, r = ctx.worker("opt").calls_([("randblocks", d["n"])], rngA=0, srandA=d["seed"])
        if st != "ok":
            raise Fail("status", "RandomBlock ended with " + st)
        out.append([int.from_bytes(hb(x), "little") for x in r[0].split(",")])
    ctx.nontrivial()
    if set(out[0]) & set(out[1]):
        raise Fail("sessions", "two processes with the same seed drew a common random block")
    if len(set(out[0])) < d["n"]:
        raise Fail("repeat", "a random block repeats within %d draws" % d["n"])
    low = []
    for k in range(128):
        L = bm([(x >> k) & 1 for x in out[0]])
        if L < 96:
            low.append((k, L))
    if low:
        raise Fail("predictable", "bit %d of successive random blocks satisfies a linear recurrence of length %d (256 draws)" % low[0])
    # 32-bit words of one block must not determine the words of the next by one affine map
    for sh in (0, 32, 64, 96):
        w = [(x >> sh) & 0xffffffff for x in out[0]]
        df = [(w[i + 1] - w[i]) & 0xffffffff for i in range(60)]
        if all(x == 0 for x in df):
            raise Fail("predictable", "a word of the random blocks is constant")
        for i in range(40):
            if df[i] & 1:
                a = df[i + 1] * pow(df[i], -1, 1 << 32) & 0xffffffff
                if all((df[j] * a - df[j + 1]) & 0xffffffff == 0 for j in range(40)):
                    raise Fail("predictable", "a word of the random blocks follows x' = %d x + c mod 2^32" % a)
                break


def g12d(s):
    """a small session that is repeated with many different random sources"""
    sz = [0, s.raw(2), s.raw(2), 0, 1 + s.raw(2), 1 + s.raw(2)]
    c = gen_circ(s, ports=sz, max_gates=4, max_dff=2, max_out=3)
    base = c.sz[0] + c.sz[1] + c.sz[2]
    gates = list(c.gates)
    gates.append((base, base + sz[4], s.choice([g for g in model.GATES if g not in model.FREE])))
    c = Circ(c.sz, c.dffs, gates, list(c.outs) + [c.gate_lo + len(gates) - 1])
    return mk(s, c, s.int(1, 2), low=s.raw(2), mask=hexs(masks(s, len(c.outs))))


def g12o(s):
    d = g12d(s)
    d["n"] = 2 + s.raw(3)
    return d


def check12o(ctx, d):
    """sessions of one process whose random sources are set by hand, each twice with one bit of Alice flipped: every session has
    its own secret offset"""
    import p_hist
    d2 = with_vals(d, 1, d["ini"][1], hexs(int(d["inp"][1], 16) ^ 1))
    d, d2 = dict(d, noot=1), dict(d2, noot=1)
    steps = [dict(t="g", d=d, reseed=[1, 2])]
    for k in range(d["n"]):
        z = (d["seed"] * 7919 + k * 104729) % (1 << 30) + 2
        steps += [dict(t="g", d=d, reseed=[z, z + 1]), dict(t="g", d=d2, reseed=[z, z + 1])]
    h = dict(steps=steps, dirs="A" * len(steps), seed=d["seed"])
    r, seq = p_hist.run(ctx, h, rec=1)
    p_hist.judge(ctx, r, seq)
    ctx.label("low" if d["low"] else "high")
    ctx.nontrivial()
    a = hb(r["AB"])
    n = len(a) // len(steps)
    if n * len(steps) != len(a):
        raise Inconclusive("the sessions have different lengths")
    seen = {}
    for k in range(d["n"]):
        x, y = a[n * (2 * k + 1):n * (2 * k + 2)], a[n * (2 * k + 2):n * (2 * k + 3)]
        i = next((j for j in range(n) if x[j] != y[j]), None)
        if i is None or i + 16 > n:
            continue
        R = bytes(p ^ q for p, q in zip(x[i:i + 16], y[i:i + 16]))
        if R in seen:
            raise Fail("offset", "sessions %d and %d of one process use the same secret offset" % (seen[R] + 1, k + 1))
        seen[R] = k


class Space:
    """span of bit vectors"""

    def __init__(self):
        self.piv = {}

    def copy(self):
        n = Space()
        n.piv = dict(self.piv)
        return n

    def add(self, v):
        while v:
            t = v.bit_length()
            w = self.piv.get(t)
            if w is None:
                self.piv[t] = v
                return True
            v ^= w
        return False

    def addall(self, vs):
        for v in vs:
            self.add(v)
        return self


def columns(words):
    """words: one 128-bit value per session -> 128 vectors over the sessions, relative to the first"""
    cols = [0] * 128
    for k, w in enumerate(words[1:]):
        w ^= words[0]
        while w:
            b = w & -w
            cols[b.bit_length() - 1] |= 1 << k
            w ^= b
    return [c for c in cols if c]


SESSIONS = 450


def check12d(ctx, d):
    c = Circ.of(d["c"])
    d2 = with_vals(d, 1, d["ini"][1], hexs(int(d["inp"][1], 16) ^ 1))
    st, Rs = [], []
    for k in range(SESSIONS):
        seed = (d["seed"] * 7919 + k * 104729) % (1 << 30) + 1
        kw = dict(rec=1, rngA=seed, rngB=seed + 1, srandA=seed, srandB=seed + 3)
        r1, r2 = go(ctx, d, **kw), go(ctx, d2, **kw)
        ok(r1)
        ok(r2)
        a, b = hb(r1["AB"]), hb(r2["AB"])
        i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), None)
        if i is None or i + 16 > len(a):
            raise Fail("label", "flipping one bit of Alice did not change a label in her stream")
        Rs.append(int.from_bytes(bytes(p ^ q for p, q in zip(a[i:i + 16], b[i:i + 16])), "little"))
        st.append(a)
    if len({len(a) for a in st}) > 1:
        raise Fail("length", "the length of the garbler's stream depends on her random source")
    ctx.label("low" if d["low"] else "high", "cycles:%d" % d["cycles"])
    offs = range(0, len(st[0]) - 15, 8 if len(st[0]) > 700 else 4)
    cols, rank, space = {}, {}, {}
    for o in offs:
        cs = columns([int.from_bytes(a[o:o + 16], "little") for a in st])
        sp = Space().addall(cs)
        if len(sp.piv) >= 100:      # a random field, or two parts of such
            cols[o], rank[o], space[o] = cs, len(sp.piv), sp
    rc = columns(Rs)
    rs = Space().addall(rc)
    if len(rs.piv) < 100:
        raise Fail("offset", "the offset of %d sessions spans %d dimensions only" % (SESSIONS, len(rs.piv)))
    ctx.nontrivial()
    os_ = sorted(cols)
    for i, o in enumerate(os_):
        m = rank[o] + len(rs.piv) - len(space[o].copy().addall(rc).piv)
        if m >= 40:
            raise Fail("derived", "bytes %d..%d of the garbler's stream and the secret offset satisfy %d linear relations in all of %d sessions" % (
                o, o + 15, m, SESSIONS))
        for q in os_[i + 1:]:
            if q < o + 16:
                continue
            both = space[o].copy().addall(cols[q])
            m = rank[o] + rank[q] - len(both.piv)
            if m >= 40:
                raise Fail("derived", "bytes %d..%d and %d..%d of the garbler's stream satisfy %d linear relations in all of %d sessions" % (
                    o, o + 15, q, q + 15, m, SESSIONS))
            if (q - o) % 16 == 0 or q - o in (8, 24, 40, 48, 56):
                m = len(both.piv) + len(rs.piv) - len(both.addall(rc).piv)
                if m >= 40:
                    raise Fail("derived", "bytes %d..%d and %d..%d of the garbler's stream and the secret offset satisfy %d linear relations in all "
                               "of %d sessions" % (o, o + 15, q, q + 15, m, SESSIONS))
    # additive relations of words
    for sh in (0, 64):
        for o in range(0, len(st[0]) - 7):
            for sg in (1, -1):
                if len({(int.from_bytes(a[o:o + 8], "little") + sg * (R >> sh)) & ((1 << 64) - 1) for a, R in zip(st[:20], Rs)}) == 1:
                    raise Fail("derived", "8 bytes at %d of the garbler's stream and a half of the secret offset have a constant sum or difference" % o)


def C12():
    return Prop("C12", "Sessions over circuits with identical gates and held registers: no high-entropy 16-byte window repeats within a stream or in "
                "a second session with the same weak seed; the block generator's output is tested for repeats, linear recurrences and affine "
                "successor maps; one session repeated with 450 random sources: no two fields of the stream, and no one or two fields and the "
                "secret offset, satisfy common GF(2)-linear relations; non-trivial: at least two tables are sent.",
                [Suite("session", g12, check12, 1500, 120000, 3), Suite("generator", g12r, check12r, 16, 1000, 1),
                 Suite("big", g12big, check12big, 80, 4000, 2), Suite("derived", g12d, check12d, 8, 600, 3), Suite("offset", g12o, check12o, 400, 8000, 1),
                 hist("fresh", 500, 30000)], W,
                ASSUME + ["Unpredictability is only tested against repetition, GF(2)-linear and affine successor relations."])


# --------------------------------------------------------------------- C13
def g13(s):
    c = gen_circ(s, max_port=6, max_gates=20, max_dff=5, max_out=16, special=s.bool(1, 3), term=s.bool(1, 4))
    n = len(c.outs)
    d = mk(s, c, s.weighted([(1, 2), (2, 2), (3, 2)]), low=s.raw(2), mask=hexs(masks(s, n)), noot=0 if s.bool(1, 40) else 1)
    d["mode"] = s.raw(3)
    if c.term and s.bool(1, 2):
        d["term"] = s.int(1, 2)
    return d


def g13mid(s):
    d = small(s)
    d["mode"] = s.raw(3)
    return d


def subseq(small, big):
    """is small obtained from big by deleting pieces?  (greedy)"""
    i = 0
    for x in big:
        if i < len(small) and small[i] == x:
            i += 1
    return i == len(small)


def check13(ctx, d):
    c, ini, inp = unpack(d)
    n = len(c.outs)
    full = (1 << n) - 1
    m = int(d["mask"], 16) & full
    an = c.analyse(ini[0], inp[0], len(ref(d)))
    sec = [[k for k, o in enumerate(c.outs) if not isinstance(w[o], int)] for w, _ in an]
    nA = sum(1 for w in sec for k in w if (m >> k) & 1)
    nB = sum(1 for w in sec for k in w if not (m >> k) & 1)
    ctx.label("low" if d["low"] else "high", "noOT" if d["noot"] else "OT", "mode %d" % d["mode"])
    rm, ra, rb = [go(ctx, d, mask=hexs(x), rec=1) for x in (m, full, 0)]
    for r in (rm, ra, rb):
        ok(r)
    # bytes per decoding field, measured
    AB = [hb(r["AB"]) for r in (rm, ra, rb)]
    BA = [hb(r["BA"]) for r in (rm, ra, rb)]
    tot = nA + nB
    if nA and nB:
        ctx.nontrivial()
    if tot == 0:
        if len(AB[0]) != len(AB[1]) or len(AB[0]) != len(AB[2]) or len(BA[0]) != len(BA[1]) or len(BA[0]) != len(BA[2]):
            raise Fail("public", "no output is secret, yet the mask changes how much is sent")
        return
    da, db = len(AB[2]) - len(AB[1]), len(BA[1]) - len(BA[2])
    if da % tot or db % tot or da // tot not in range(1, 17) or db // tot not in range(1, 17):
        raise Fail("fields", "%d secret output bits: the garbler sends %d bytes for them, the evaluator %d" % (tot, da, db))
    ua, ub = da // tot, db // tot
    if len(AB[0]) - len(AB[1]) != ua * nB:
        raise Fail("garbler", "Bob owns %d secret output bits, the garbler sent %d bytes of decoding information (%d per bit)" % (
            nB, len(AB[0]) - len(AB[1]), ua))
    if len(BA[0]) - len(BA[2]) != ub * nA:
        raise Fail("evaluator", "Alice owns %d secret output bits, the evaluator sent %d bytes about outputs (%d per bit)" % (
            nA, len(BA[0]) - len(BA[2]), ub))
    for small, big, who in ((AB[1], AB[0], "garbler"), (AB[0], AB[2], "garbler"), (BA[2], BA[0], "evaluator"), (BA[0], BA[1], "evaluator")):
        if not subseq(small, big):
            raise Fail("stream", "the %s's stream for the smaller share is not the other one with fields deleted" % who)


def C13():
    return Prop("C13", "Every random request is run with its mask, with the full and with the empty mask on the same randomness; stream lengths must "
                "count exactly the secret bits of the other party and smaller shares must be the larger stream with fields deleted; "
                "non-trivial: both parties own a secret output bit.",
                [Suite("decode", g13, check13, 1800, 150000, 3), Suite("mid", g13mid, check13, 160, 8000, 1)], W, ASSUME + RND)


# --------------------------------------------------------------------- C14
def g14(s):
    k = s.raw(12)
    noot = 0 if k == 0 else 1
    c = gen_circ(s, max_port=5, max_gates=14, max_dff=4, max_out=6, term=s.bool(1, 3))
    d = mk(s, c, s.int(1, 3) if noot else s.int(1, 2), low=s.raw(2), noot=noot, mask=hexs(masks(s, len(c.outs))), mode=s.raw(3))
    d["term"] = 1 if c.term and s.bool() else 0
    d["cuts"] = [[s.raw(2), s.raw(1 << 16)] for _ in range(6)]
    return d


def g14mid(s):
    d = small(s, 0 if s.bool(1, 6) else 1)
    d["mode"] = s.raw(3)
    d["cuts"] = [[s.raw(2), s.raw(1 << 30)] for _ in range(4)]
    return d


def g14ot(s):
    """bigger sessions with OT and OT extension"""
    n = s.choice([1, 2, 5, 129, 131])
    sz = [0, 0, s.size(2), 0, 2, n]
    c = gen_circ(s, ports=sz, max_gates=8, max_dff=2, max_out=4)
    d = mk(s, c, 1 if n > 100 else s.int(1, 2), low=s.raw(2), noot=0, mask=hexs(masks(s, len(c.outs))))
    d["cuts"] = [[s.raw(2), s.raw(1 << 16)] for _ in range(5)]
    return d


def judge_cut(ctx, d, full, exp, way, pos, half=0):
    c = Circ.of(d["c"])
    n = len(c.outs)
    m = int(d["mask"], 16) & ((1 << n) - 1)
    r = go(ctx, d, half=half, **{("cutAB", "cutBA")[way]: pos})
    total = int(full[("lenAB", "lenBA")[way]])
    what = "%s cut after byte %d of %d %s: " % ("one direction" if half else "connection", pos, total, ("from garbler to evaluator", "from evaluator to garbler")[way])
    for p, mm in (("A", m), ("B", ~m & ((1 << n) - 1))):
        st = r[p + ".st"]
        if st != "ok":
            raise Fail("status", what + "party %s ended with %s" % (p, st))
        success = r[p + ".rc"] == "0"
        starved = pos < total and (p == "B") == (way == 0)
        if success and starved:
            raise Fail("success", what + "party %s missed bytes but reports success" % p)
        if success:
            got = gcrun.parse(r[p + ".out"])
            want = gcrun.render([o & mm for o in exp], n, d["mode"])
            if got != want:
                raise Fail("wrong output", what + "party %s reports success with %s instead of %s" % (p, got, want))


def check14(ctx, d):
    full = go(ctx, d)
    ok(full, "uncut run: ")
    exp = ref(d)
    ctx.label("low" if d["low"] else "high", "noOT" if d["noot"] else "OT")
    for way, k in d["cuts"]:
        total = int(full[("lenAB", "lenBA")[way]])
        pos = k % (total + 1)
        if k % 5 == 0:
            pos = total - min(total, k // 5 % 20)
        elif k % 5 == 1:
            pos = min(total, k // 5 % 40)
        if 0 < pos < total:
            ctx.nontrivial()
        judge_cut(ctx, d, full, exp, way, pos, k % 7 < 2)


def sweep():
    """every cut position of a few fixed small sessions"""
    out = []
    A = model.AND
    c1 = Circ([0, 0, 0, 0, 2, 2], [], [(0, 2, A), (1, 3, A), (4, 5, model.XOR)], [6, 4])
    c2 = Circ([0, 1, 1, 1, 1, 1], [(6, 0), (7, 1)], [(5, 3, A), (6, 4, model.OR)], [7, 8, 5], 8)
    for c, cyc, mask, term, low, seed in ((c1, 1, "1", 0, 0, 42), (c2, 2, "3", 0, 0, 42), (c2, 2, "5", 0, 1, 42), (c2, 3, "1", 1, 0, 42), (c2, 3, "4", 1, 1, 42),
                                          (c2, 2, "0", 1, 1, 43), (c2, 2, "7", 1, 1, 44), (c2, 2, "1", 1, 1, 45), (c2, 2, "6", 1, 1, 46), (c2, 2, "0", 1, 1, 47)):
        for way in (0, 1):
            for blockno in range(12):
                out.append(dict(c=c.json(), ini=["0", "1", "0"], inp=["1", "1", "2"], cycles=cyc, mask=mask, mode=0, term=term, noot=1, low=low,
                                seed=seed, way=way, part=blockno))
    return out


def check14s(ctx, d):
    if "way" not in d:
        return check14(ctx, d)
    full = go(ctx, d)
    ok(full, "uncut run: ")
    exp = ref(d)
    total = int(full[("lenAB", "lenBA")[d["way"]]])
    ctx.nontrivial()
    for pos in range(d["part"], total + 1, 12):
        judge_cut(ctx, d, full, exp, d["way"], pos)
        judge_cut(ctx, d, full, exp, d["way"], pos, 1)
        ctx.label("cut position")


def C14():
    return Prop("C14", "Connection cut after k bytes of either direction: every k for ten fixed small sessions, of both directions or of one only, random k (biased to the ends) for random "
                "circuits with and without OT, for single oblivious transfers and between the two programs; non-trivial: a cut strictly inside the session.",
                [Suite("sweep", lambda s: g14(s), check14s, 0, 0, 1, exhaustive=sweep()),
                 Suite("random", g14, check14, 500, 60000, 3), Suite("ot", g14ot, check14, 24, 3000, 2),
                 Suite("mid", g14mid, check14, 60, 4000, 2), Suite("transfer", cut_case, check_cut, 80, 8000, 2),
                 Suite("programs", g14prog, check14prog, 120, 12000, 2)],
                W + CLI, ASSUME + ["SIGPIPE is ignored in the library processes, as a library user who wants error returns must do; a program may end by it."], level="fault_enumeration")


# --------------------------------------------------------------------- C15
def g15(s):
    kind = s.raw(4)
    c = gen_circ(s, max_port=5, max_gates=10, max_dff=3, max_out=6, term=s.bool())
    d = mk(s, c, s.int(1, 4), low=s.raw(2), noot=s.raw(2), mode=s.raw(3), mask=hexs(masks(s, len(c.outs))))
    d["party"] = s.raw(3)
    d["kind"] = ("cycles", "period", "file", "both")[kind]
    if kind == 0:
        d["cycles"] = 0
        d["term"] = s.raw(3) if c.term else 0
    elif kind == 1:
        d["c"]["term"] = 0
        d["term"] = s.choice([1, 2, 5, 1000, 1 << 40, -1, -2, -1000])
    elif kind == 2:
        d["file"] = s.choice(["missing.scd", "no/such/dir/x.scd", ""])
        d["term"] = s.raw(2)
    else:
        d["cycles"] = 0
        d["c"]["term"] = 0
        d["term"] = s.choice([1, 1, -1])
    return d


def check15(ctx, d):
    c, ini, inp = unpack(d)
    p = ctx.write("c.scd", c.text())
    ctx.write("c.scd.map", "terminate\t0\n")
    if d["kind"] == "file":
        p = ctx.path(d["file"]) if d["file"] else ""
    ctx.label(d["kind"] + " " + ("garbler", "evaluator", "plaintext")[d["party"]])
    ctx.nontrivial()
    if d["party"] == 2:
        r = ctx.worker("opt")("plain", scd=p, pinit=hexs(ini[0]), ginit=hexs(ini[1]), einit=hexs(ini[2]), pinput=hexs(inp[0]),
                              ginput=hexs(inp[1]), einput=hexs(inp[2]), cycles=d["cycles"], term=d["term"], mode=d["mode"])
        who, st, rc, out, sent = "plaintext evaluator", r["r.st"], r.get("r.rc"), r.get("r.out"), 0
    else:
        P = "AB"[d["party"]]
        r = ctx.worker("opt")("solo", party=P, scd=p, pinit=hexs(ini[0]), pinput=hexs(inp[0]), init=hexs(ini[1 + d["party"]]),
                              input=hexs(inp[1 + d["party"]]), cycles=d["cycles"], mask=d["mask"], term=d["term"], mode=d["mode"],
                              noot=d["noot"], low=d["low"])
        who, st, rc, out = ("garbler", "evaluator")[d["party"]], r[P + ".st"], r.get(P + ".rc"), r.get(P + ".out")
        sent = int(r["lenAB" if P == "A" else "lenBA"])
    if st != "ok":
        raise Fail("status", "%s: %s ended with %s" % (d["kind"], who, st))
    if rc == "0":
        raise Fail("accepted", "%s: %s reports success for a request it cannot serve" % (d["kind"], who))
    if sent:
        raise Fail("sent", "%s: %s sent %d bytes before refusing" % (d["kind"], who, sent))
    if out not in ("<unset>", ""):
        raise Fail("output", "%s: %s wrote the output %r" % (d["kind"], who, out))


def C15():
    return Prop("C15", "Random requests made impossible in one way (zero cycles, period without terminate signal, missing file), each served by one "
                "party whose peer records what it sends; non-trivial: every case.",
                [Suite("refuse", g15, check15, 2500, 100000, 1), hist("refuse", 2000, 60000)], W, ASSUME)


# --------------------------------------------------------------------- C16
def spell(s, v, width):
    """another spelling of v (of which only the low `width` bits count)"""
    k = s.raw(5)
    t = "%X" % v
    if v == 0 and s.bool(1, 4):
        t = ""
    if k == 1:
        t = t.lower()
    elif k == 2:
        t = "".join(ch.lower() if s.bool() else ch for ch in t)
    if s.bool(1, 2):
        # excess digits
        x = s.bits(s.choice([1, 4, 9, 33, 65, 70, 130, 300, 2000]))
        t = ("%X" if s.bool() else "%x") % ((x << width) | v)
    if s.bool(1, 3) and t:
        t = "0" * (1 + s.size(20)) + t
    return t


def g16(s):
    c = gen_circ(s, max_port=7, max_gates=16, max_dff=6, max_out=12, term=s.bool(1, 4))
    cyc = s.int(1, 4)
    d = mk(s, c, cyc, low=s.raw(2), mode=s.raw(3), mask=hexs(masks(s, len(c.outs))), noot=0 if s.bool(1, 40) else 1)
    d["term"] = 1 if c.term and s.bool() else 0
    # short values are likely to have spare leading digits
    for k in range(3):
        if s.bool(1, 3):
            d["inp"][k] = hexs(int(d["inp"][k], 16) >> s.raw(1 + 4 * c.sz[3 + k]))
    iw = c.sz
    t = {}
    for who in "AB":
        own = 1 if who == "A" else 2
        t["pinit" + who] = spell(s, int(d["ini"][0], 16), iw[0])
        t["pinput" + who] = spell(s, int(d["inp"][0], 16), iw[3] * cyc)
        t["init" + who] = spell(s, int(d["ini"][own], 16), iw[own])
        t["input" + who] = spell(s, int(d["inp"][own], 16), iw[3 + own] * cyc)
        t["mask" + who] = spell(s, int(d["mask"], 16), len(c.outs))
    for k, n in enumerate(("pinit", "ginit", "einit")):
        t["P" + n] = spell(s, int(d["ini"][k], 16), iw[k])
    for k, n in enumerate(("pinput", "ginput", "einput")):
        t["P" + n] = spell(s, int(d["inp"][k], 16), iw[3 + k] * cyc)
    d["spell"] = t
    return d


def g16mid(s):
    d = small(s)
    d["mode"] = s.raw(3)
    c = Circ.of(d["c"])
    cyc = d["cycles"]
    t = {}
    for who in "AB":
        own = 1 if who == "A" else 2
        for k, v, w in (("pinit", d["ini"][0], c.sz[0]), ("pinput", d["inp"][0], c.sz[3] * cyc), ("init", d["ini"][own], c.sz[own]),
                        ("input", d["inp"][own], c.sz[3 + own] * cyc), ("mask", d["mask"], len(c.outs))):
            t[k + who] = spell(s, int(v, 16), w)
    for k, n in enumerate(("pinit", "ginit", "einit")):
        t["P" + n] = spell(s, int(d["ini"][k], 16), c.sz[k])
    for k, n in enumerate(("pinput", "ginput", "einput")):
        t["P" + n] = spell(s, int(d["inp"][k], 16), c.sz[3 + k] * cyc)
    d["spell"] = t
    return d


def check16(ctx, d):
    c, ini, inp = unpack(d)
    t = d["spell"]
    p = ctx.write("c.scd", c.text())
    kw = {k: v for k, v in t.items() if k[0] != "P"}
    r = ctx.worker("opt")("gc", scd=p, cycles=d["cycles"], term=d["term"], mode=d["mode"], noot=d["noot"], low=d["low"], rngA=d["seed"],
                          rngB=d["seed"] + 1, **kw)
    canon = {hexs(int(x, 16)) for x in d["ini"] + d["inp"]}
    if any(v not in canon for v in t.values()):
        ctx.nontrivial()
    ctx.label("low" if d["low"] else "high")
    exp = ref(d)
    gcrun.judge(r, exp, len(c.outs), int(d["mask"], 16), d["mode"], "re-spelled inputs: ")
    r = plain(ctx, d, **{k[1:]: v for k, v in t.items() if k[0] == "P"})
    got = gcrun.parse(r["r.out"])
    if got != gcrun.render(exp, len(c.outs), d["mode"]):
        raise Fail("plain", "re-spelled inputs: plaintext evaluator printed %r, expected %s" % (r["r.out"], [hexs(x) for x in gcrun.render(exp, len(c.outs), d["mode"])]))


def C16():
    return Prop("C16", "Every string of every party (and of the plaintext evaluator) is independently re-spelled: case, leading zeros, empty for zero, "
                "excess high digits; non-trivial: at least one spelling is not canonical.",
                [Suite("spell", g16, check16, 3000, 250000, 3), Suite("mid", g16mid, check16, 300, 12000, 1)], W, ASSUME)
