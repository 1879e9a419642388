"""C01-C16: the two-party engine."""
import random
import model, gcrun
from model import C0, C1, Circ, hexs, big_circ, gen_circ, gen_big, gen_mid, cyc_for, lg, vals, cat
from pbt import Fail, Prop, Suite, Src

W = [("opt", "worker")]
ASSUME = ["The reference simulator in lib/model.py states the circuit semantics (gate codes and file format of scd/README.md).",
          "Garbler and evaluator get the same circuit file, cycle count, mask, mode, terminate period and options.",
          "Gates read inputs, flip-flops and earlier gates; init wires are read only by flip-flop initial values, as the translators produce them."]


def hist(kind, quick, thorough):
    """histories of calls in one process"""
    import p_hist
    return getattr(p_hist, kind + "_history")(quick, thorough)


def mk(s, c, cycles=1, **kw):
    ini, inp = vals(s, c, cycles)
    d = dict(c=c.json(), ini=[hexs(x) for x in ini], inp=[hexs(x) for x in inp], cycles=cycles, mask="0", mode=0, term=0, noot=1,
             low=0, seed=1 + s.raw(1 << 16))
    d.update(kw)
    return d


def unpack(d):
    return Circ.of(d["c"]), [int(x, 16) for x in d["ini"]], [int(x, 16) for x in d["inp"]]


def go(ctx, d, **over):
    c, ini, inp = unpack(d)
    e = dict(d)
    e.update(over)
    kw = {k: e[k] for k in ("frag", "maxfrag", "rngA", "rngB", "srandA", "srandB", "perturb", "rec", "cutAB", "cutBA", "half", "itimer", "sndbuf", "shortw") if k in e}
    kw.setdefault("rngA", d["seed"])
    kw.setdefault("rngB", d["seed"] + 77777)
    kw.setdefault("srandA", d["seed"])
    kw.setdefault("srandB", d["seed"] + 5)
    return gcrun.run(ctx, c, ini, inp, e["cycles"], int(e["mask"], 16), e["mode"], e["term"], e["noot"], e["low"], **kw)


def ref(d, trace=None):
    c, ini, inp = unpack(d)
    return c.run(ini, inp, d["cycles"], d["term"], trace)


def masks(s, n):
    k = s.raw(5)
    if k == 0:
        return 0
    if k == 1:
        return (1 << n) - 1
    return s.bits(n)


def interesting(c, ini, inp, cycles):
    """number of gates that need a table in some cycle"""
    return max(t for _, t in c.analyse(ini[0], inp[0], cycles))


def classify(ctx, d, extra=()):
    c, ini, inp = unpack(d)
    t = interesting(c, ini, inp, d["cycles"])
    ctx.label("tables:" + ("0" if t == 0 else "1-3" if t < 4 else "4+"), "low" if d["low"] else "high",
              "noOT" if d["noot"] else "OT", *extra)
    if d["cycles"] > 1:
        ctx.label("multi-cycle")
    if c.dffs:
        ctx.label("sequential")
    return t


def check_run(ctx, d):
    r = go(ctx, d)
    t = classify(ctx, d)
    if t >= 1:
        ctx.nontrivial()
    c = Circ.of(d["c"])
    gcrun.judge(r, ref(d), len(c.outs), int(d["mask"], 16), d["mode"])
    return r


# --------------------------------------------------------------------- C01
def g01(s):
    big = s.bool(1, 12)
    c = gen_circ(s, comb=True, max_port=80 if big else 14, max_gates=250 if big else 45, max_out=150 if big else 24)
    d = mk(s, c)
    d["mask"] = hexs(masks(s, len(c.outs)))
    if s.bool(1, 4):
        d["frag"], d["maxfrag"] = 1 + s.raw(1 << 16), s.choice([1, 3, 16, 64])
        if big:
            d["maxfrag"] = 512
    return d


def g01ot(s):
    c = gen_circ(s, comb=True, max_port=10, max_gates=40)
    return mk(s, c, noot=0, mask=hexs(masks(s, len(c.outs))))


def gbig(s):
    c = gen_big(s)
    return mk(s, c, mask=hexs(masks(s, len(c.outs))))


def gbigseq(s):
    c = gen_big(s, True)
    return mk(s, c, 2 + s.raw(2), mask=hexs(masks(s, len(c.outs))), mode=s.raw(2), low=s.raw(2))


def wide_cases(ports):
    """each port class in turn wider than 2^16 bits, in both memory modes"""
    return [dict(wide=[p, low, 11 * p + low]) for p in ports for low in (0, 1)]


def check_wide(ctx, d):
    if "wide" in d:
        p, low, rs = d["wide"]
        s = Src(rng=random.Random("wide/%d/%d/%d" % (p, low, rs)))
        sz = [1 + s.size(5), 1 + s.size(5), 1 + s.size(5), 1 + s.size(30), 20 + s.raw(60), 20 + s.raw(60)]
        if p == 6:
            ndff = 66000 + s.raw(3000)
        else:
            sz[p] += 66000 + s.raw(3000)
            ndff = 2000 + s.raw(500)
        lo = [sum(sz[:i]) for i in range(7)]
        base = lo[6] + ndff

        def init():
            k = s.raw(8)
            return s.choice([C0, C1]) if k == 7 else lo[k % 3] + s.raw(sz[k % 3])
        n, gates = 4000, []

        def pick(i):
            k = s.raw(10)
            if k < 3:
                return lo[3 + k] + s.raw(sz[3 + k])
            if k < 6:
                return lo[6] + s.raw(ndff)
            return base + i - 1 - s.raw(min(i, 300)) if i else lo[4]
        for i in range(n):
            t = s.choice(model.GATES)
            gates.append((pick(i), -1 if t == model.NOT else pick(i), t))
        dffs = [(base + s.raw(n) if s.raw(4) else s.choice([lo[3], lo[4], lo[5]]), init()) for _ in range(ndff)]
        outs = [base + n - 1 - s.raw(1500) for _ in range(1200)] + [lo[6] + s.raw(ndff) for _ in range(300)]
        c = Circ(sz, dffs, gates, outs, 0)
        d = mk(s, c, 3, mask=hexs(any_mask(s, len(outs)) | 1), low=low, mode=s.raw(2))
        bits = lambda n: hexs(s.raw(1 << n) if n else 0)
        d["ini"] = [bits(sz[i]) for i in range(3)]
        d["inp"] = [bits(sz[i] * 3) for i in range(3, 6)]
    check_light(ctx, d)


def check_chain(ctx, d):
    """a path of very many gates whose last one has a determined result, so the whole path becomes useless"""
    n, side, k = d["chain"]
    g0 = 4                                          # one public, one garbler, two evaluator bits
    cols = [[1], [2], [8]]                          # the head: AND of g and e
    cols[0 if side == 0 else 1] += range(g0, g0 + n - 1)
    cols[1 if side == 0 else 0] += [3] * (n - 1)
    cols[2] += ([6, 9, 6] if k == 0 else [6]) * ((n + 2) // 3 if k == 0 else n)
    cols = [x[:n] for x in cols]
    last = g0 + n - 1
    for a, b, t in [(last, 0, 8), (g0, last, 6)]:   # AND with the public bit; a use of the whole path
        for x, y in zip(cols, (a, b, t)):
            x.append(y)
    outs = [last + 1, g0] + [last + 2] * d["live"]
    p = ctx.path("chain.scd")
    with open(p, "w") as f:
        f.write("0 0 0 1 1 2 0 %d 0 %d\n" % (len(outs), n + 2))
        if not d["live"]:
            f.seek(0)
            f.write("0 0 0 1 1 2 0 2 0 %d\n" % (n + 1))
            cols = [x[:-1] for x in cols]
        for x in cols:
            f.write(" ".join(map(str, x)) + " \n")
        f.write(" ".join(map(str, outs)) + " \n\n\n")
    flips = cols[2][1:n].count(9)
    ctx.nontrivial()
    for pub, g, e in [(0, 1, 1), (0, 1, 3), (1, 1, 3)][:d["runs"]]:
        head = g & e & 1
        end = head ^ ((n - 1) * (e >> 1) & 1) ^ (flips & 1)
        exp = (end & pub) | head << 1 | ((head ^ end) << 2 if d["live"] else 0)
        r = gcrun.run(ctx, None, [0, 0, 0], [pub, g, e], 1, 0, scd=p, rngA=3, rngB=4, srandA=5, srandB=6)
        gcrun.judge(r, [exp], len(outs), 0, 0)


def chains():
    return [dict(chain=[1300000, side, k], live=0, runs=1) for side in (0, 1) for k in (0, 1)] + \
        [dict(chain=[300000, side, 0], live=1, runs=3) for side in (0, 1)]


def any_mask(s, n):
    """random over the whole width, unlike masks()"""
    m = 0
    for i in range(0, n, 32):
        m |= s.raw(1 << 32) << i
    k = s.raw(6)
    m &= (1 << n) - 1
    return 0 if k == 0 else (1 << n) - 1 if k == 1 else m >> s.raw(n) if k == 2 else m


def gmid(s):
    c = gen_mid(s)
    return mk(s, c, mask=hexs(any_mask(s, len(c.outs))), mode=s.raw(3))


def gmidseq(s, term=False, noot=1):
    c = gen_mid(s, True, term)
    cyc = cyc_for(s, c)
    return mk(s, c, cyc, mask=hexs(any_mask(s, len(c.outs))), mode=s.raw(3), low=s.raw(2), noot=noot)


def glong(s):
    """small circuits over very many cycles"""
    c = gen_circ(s, max_port=3, max_gates=10, max_dff=6, max_out=6)
    low = s.raw(2)
    cyc = s.weighted([(257, 12), (300, 12), (700, 8), (1300, 6), (5000, 1), (66000, 1)]) + s.raw(50)
    return mk(s, c, cyc, low=low, mask=hexs(masks(s, len(c.outs))), mode=s.raw(3))


def check_light(ctx, d):
    """as check_run, without the symbolic analysis"""
    r = go(ctx, d)
    c = Circ.of(d["c"])
    ctx.label("low" if d["low"] else "high", "gates:%d0k" % (len(c.gates) // 10000), "cycles:" + ("1-3" if d["cycles"] < 4 else "257+"))
    ctx.nontrivial()
    gcrun.judge(r, ref(d), len(c.outs), int(d["mask"], 16), d["mode"])


def C01():
    return Prop("C01", "Random acyclic netlists over all 11 gate types with random inputs and masks are run by two real parties; "
                "non-trivial: at least one gate needs a garbled table (secret, not determined, live).",
                [Suite("comb", g01, check_run, 5000, 400000, 3), Suite("comb-ot", g01ot, check_run, 100, 8000, 1),
                 Suite("huge", gbig, check_light, 8, 400, 1), Suite("chain", lambda s: s.choice(chains()), check_chain, 0, 0, 1, exhaustive=chains()),
                 Suite("mid", gmid, check_light, 3000, 100000, 2), hist("gc", 2400, 60000)], W, ASSUME)


# --------------------------------------------------------------------- C02
def g02(s):
    c = gen_circ(s, max_port=8, max_gates=30, max_dff=10)
    cyc = s.weighted([(2, 3), (3, 3), (4, 2), (1, 1), (7, 1), (12, 1), (40, 1)])
    d = mk(s, c, cyc, low=s.raw(2), mask=hexs(masks(s, len(c.outs))), mode=s.raw(2))
    return d


def g02ot(s):
    c = gen_circ(s, max_port=4, max_gates=20, max_dff=6)
    cyc = s.int(1, 4)
    return mk(s, c, cyc, low=s.raw(2), noot=0, mask=hexs(masks(s, len(c.outs))), mode=s.raw(2))


def g02shift(s):
    """flip-flop structures: chains, swaps, rings, counters, with few gates"""
    n = 1 + s.size(9)
    sz = [s.size(n), s.size(n), s.size(n), s.size(2), s.size(2), s.size(2)]
    base = sum(sz)
    kind = s.raw(3)
    dffs, gates = [], []
    perm = s.perm(n)
    for i in range(n):
        ini = s.raw(sum(sz[:3]) + 2)
        ini = model.C0 if ini == 0 else model.C1 if ini == 1 else ini - 2
        if kind == 0:
            dsrc = base + perm[i]
        elif kind == 1:
            dsrc = base + i - 1 if i else (sum(sz[:3]) if sum(sz[3:]) else base + n - 1)
        else:
            dsrc = base + n + i
        dffs.append((dsrc, ini))
    if kind == 2:
        for i in range(n):
            o = s.raw(n + sum(sz[3:]))
            w = base + o if o < n else sum(sz[:3]) + (o - n)
            gates.append((base + i, w, s.choice([g for g in model.GATES if g != model.NOT])))
    outs = [base + i for i in range(n)]
    c = Circ(sz, dffs, gates, outs)
    cyc = s.int(1, 9)
    return mk(s, c, cyc, low=s.raw(2), mask=hexs(masks(s, n)), mode=s.raw(2))


def check02(ctx, d):
    r = go(ctx, d)
    classify(ctx, d)
    c = Circ.of(d["c"])
    if c.dffs and d["cycles"] > 1:
        ctx.nontrivial()
    gcrun.judge(r, ref(d), len(c.outs), int(d["mask"], 16), d["mode"])


def C02():
    return Prop("C02", "Random sequential circuits (all init owners, constant/shared D, chains, permutations) x cycle counts up to 40; "
                "non-trivial: has flip-flops and runs at least two cycles.",
                [Suite("seq", g02, check02, 3000, 300000, 3), Suite("dff", g02shift, check02, 1500, 100000, 1),
                 Suite("seq-ot", g02ot, check02, 80, 6000, 1), Suite("huge", gbigseq, check_light, 6, 200, 1),
                 Suite("wide", gbigseq, check_wide, 0, 100, 1, exhaustive=wide_cases(range(7))), Suite("long", glong, check_light, 160, 4000, 1), Suite("mid", gmidseq, check_light, 1500, 60000, 2), hist("gc", 2400, 60000)], W, ASSUME)


# --------------------------------------------------------------------- C03
def g03(s):
    c = gen_circ(s, max_port=8, max_gates=30, max_dff=8, term=True)
    cyc = s.weighted([(2, 3), (3, 3), (5, 2), (9, 1), (20, 1)])
    term = s.int(1, 3) if c.term and s.bool(1, 3) else 0
    return mk(s, c, cyc, mask=hexs(masks(s, len(c.outs))), mode=s.raw(3), term=term)


def g03ot(s):
    d = g03(s)
    d["noot"] = 0
    if d["cycles"] > 4:
        d["cycles"] = 4
    return d


def check03(ctx, d):
    hi, lo = go(ctx, d, low=0), go(ctx, d, low=1)
    classify(ctx, d, ["mode%d" % d["mode"]] + (["terminating"] if d["term"] else []))
    if d["cycles"] > 1:
        ctx.nontrivial()
    for k in ("A.st", "B.st", "A.rc", "B.rc"):
        if hi.get(k) != lo.get(k):
            raise Fail("status", "%s: default engine %s, low-memory engine %s" % (k, hi.get(k), lo.get(k)))
    for k in ("A.out", "B.out"):
        if hi.get(k) is not None and gcrun.parse(hi[k]) != gcrun.parse(lo[k]):
            raise Fail("output", "%s: default engine %r, low-memory engine %r" % (k, hi[k], lo[k]))
    c = Circ.of(d["c"])
    gcrun.judge(hi, ref(d), len(c.outs), int(d["mask"], 16), d["mode"], "default engine: ")
    gcrun.judge(lo, ref(d), len(c.outs), int(d["mask"], 16), d["mode"], "low-memory engine: ")


def g03big(s):
    k = s.raw(12)
    return dict(gbigseq(s), mode=s.raw(3)) if k == 0 else glong(s) if k < 3 else gmidseq(s)


def check03big(ctx, d):
    hi, lo = go(ctx, d, low=0), go(ctx, d, low=1)
    ctx.label("huge" if "big" in d["c"] else "long")
    ctx.nontrivial()
    c = Circ.of(d["c"])
    exp = ref(d)
    gcrun.judge(hi, exp, len(c.outs), int(d["mask"], 16), d["mode"], "default engine: ")
    gcrun.judge(lo, exp, len(c.outs), int(d["mask"], 16), d["mode"], "low-memory engine: ")


def C03():
    return Prop("C03", "Each random request is run twice, with and without the low-memory option, and compared with each other and the "
                "simulator; non-trivial: more than one cycle (with one cycle both options select the same engine).",
                [Suite("diff", g03, check03, 2000, 200000, 3), Suite("diff-ot", g03ot, check03, 40, 4000, 1),
                 Suite("big", g03big, check03big, 160, 8000, 1)], W, ASSUME)


# --------------------------------------------------------------------- C04
def g04(s):
    kind = s.raw(8)
    low = s.raw(2)
    if kind < 3:
        # many evaluator bits: around the switch to the extension
        ei = s.choice([0, 1, 5, 64, 127, 128, 129, 130, 200, 300]) if s.bool() else s.size(60)
        cyc = s.weighted([(1, 3), (2, 2), (3, 1)])
        ex = s.choice([1, 2, 42, 43, 63, 64, 65, 127, 128, 129, 130, 200])
        if low:
            cyc = max(cyc, 2)
    else:
        ei, ex, cyc = s.size(6), s.size(6), s.int(1, 4)
        if s.bool(1, 6):
            ex = 0
    sz = [0, s.size(5), ei, s.size(3), s.size(8), ex]
    if low and kind < 3:
        sz[5] = min(sz[5], 130)
    n = min(sum(sz[:3]), 40)
    c = gen_circ(s, ports=sz, max_dff=max(1, ei), max_gates=40, max_out=20)
    # make sure that evaluator wires reach the outputs: dedicated flip-flops and outputs
    base = sum(sz)
    rd = sum(sz[:3])
    outs = list(c.outs)
    for k in range(sz[5]):
        outs.append(rd + sz[3] + sz[4] + k)
    # fresh flip-flops for evaluator init bits need an index shift: rebuild
    extra = [(model.C0, sz[0] + sz[1] + k) for k in range(ei)]
    nd = len(c.dffs)

    def f(x):
        return x + len(extra) if x >= base + nd else x
    c2 = Circ(sz, [(f(a), b) for a, b in c.dffs] + extra, [(f(a), f(b), t) for a, b, t in c.gates],
              [f(o) for o in outs] + [base + nd + k for k in range(len(extra))], 0)
    return mk(s, c2, cyc, low=low, mask=hexs(masks(s, len(c2.outs))))


def check04(ctx, d):
    c, ini, inp = unpack(d)
    a = go(ctx, d, noot=1)
    b = go(ctx, d, noot=0)
    n = c.sz[2] + d["cycles"] * c.sz[5]
    classify(ctx, d, ["e-bits:" + ("0" if n == 0 else "1-127" if n < 128 else "128" if n == 128 else "129+"),
                      "e_init" if c.sz[2] else "no e_init"])
    if n:
        ctx.nontrivial()
    gcrun.judge(a, ref(d), len(c.outs), int(d["mask"], 16), d["mode"], "OT disabled: ")
    gcrun.judge(b, ref(d), len(c.outs), int(d["mask"], 16), d["mode"], "with OT: ")


def g04big(s, fix=None):
    """more than 2^16 evaluator bits in one transfer, in one cycle or over several"""
    k = s.raw(3) if fix is None else fix // 2
    m = 65530 + s.raw(12) if s.bool() and fix is None else 66000 + s.raw(2000)
    cyc = s.int(1, 3)
    if fix is not None:
        cyc = 2                 # a single cycle always runs in the default engine
    sz = [s.size(5), s.size(5), s.size(300), s.size(9), 10 + s.raw(30), 10 + s.raw(200)]
    if k == 0:
        sz[5] = m
    elif k == 1:
        sz[2] = m if fix is None else m + 50000
    else:
        cyc = 2 + s.raw(2)
        sz[5] = m // (cyc if fix is None else cyc - 1) + 1      # the last cycle starts after bit 2^16
    c = big_circ(1000 + s.raw(2000), s.raw(1 << 16), sz, sz[2] + 20, 200 + s.raw(300), s.raw(3))
    return mk(s, c, cyc, low=s.raw(2) if fix is None else fix % 2, mask=hexs(masks(s, len(c.outs))))


def g04mid(s):
    d = gmidseq(s, noot=0)
    c = Circ.of(d["c"])
    if d["cycles"] * c.sz[5] > 8000:
        d["cycles"] = max(1, 8000 // c.sz[5])
    return d


def check04big(ctx, d):
    if "fix" in d:
        s = Src(rng=random.Random("ot/%d" % d["fix"]))
        d = g04big(s, d["fix"])
        sz = d["c"]["big"][2] if "big" in d["c"] else Circ.of(d["c"]).sz
        d["ini"][2], d["inp"][2] = hexs(s.raw(1 << sz[2]) if sz[2] else 0), hexs(s.raw(1 << sz[5] * d["cycles"]))
    ctx.nontrivial()
    c = Circ.of(d["c"])
    ctx.label("low" if d["low"] else "high")
    gcrun.judge(go(ctx, d, noot=0), ref(d), len(c.outs), int(d["mask"], 16), d["mode"], "with OT: ")


def C04():
    return Prop("C04", "Circuits that expose every evaluator init/input bit, run with OT and without, in both engines; "
                "non-trivial: at least one evaluator bit is transferred.",
                [Suite("ot", g04, check04, 300, 12000, 3), Suite("big", g04big, check04big, 2, 300, 1, exhaustive=[dict(fix=i) for i in range(6)]), Suite("mid", g04mid, check04big, 80, 3000, 1), hist("ot", 160, 6000)], W, ASSUME)


# --------------------------------------------------------------------- C05
def g05(s):
    c = gen_circ(s, max_port=6, max_gates=18, max_dff=5, max_out=20, special=s.bool(1, 3))
    n = len(c.outs)
    k = s.raw(6)
    m = 0 if k == 0 else (1 << n) - 1 if k == 1 else s.bits(max(1, s.raw(n + 1))) if k == 2 else s.bits(n + 8) if k == 3 else s.bits(n)
    return mk(s, c, gcrun.ncyc(s, 6), low=s.raw(2), mode=s.raw(3), mask=hexs(m), noot=0 if s.bool(1, 40) else 1)


def check05(ctx, d):
    c, ini, inp = unpack(d)
    r = go(ctx, d)
    n = len(c.outs)
    m = int(d["mask"], 16)
    an = c.analyse(ini[0], inp[0], d["cycles"])
    kinds = set()
    for w, _ in an:
        for i, o in enumerate(c.outs):
            kinds.add(("pub%d" % w[o] if isinstance(w[o], int) else "secret") + ("A" if (m >> i) & 1 else "B"))
    ctx.label("mode%d" % d["mode"], "low" if d["low"] else "high", *kinds)
    mm = m & ((1 << n) - 1)
    if mm and mm != (1 << n) - 1:
        ctx.nontrivial()
        ctx.label("split mask")
    if m.bit_length() < n:
        ctx.label("short mask")
    gcrun.judge(r, ref(d), n, m, d["mode"])


def g05big(s):
    if s.bool(9, 10):
        return gmidseq(s) if s.bool() else gmid(s)
    c = gen_big(s, s.bool())
    return mk(s, c, 1 + s.raw(3) if c.dffs else 1, low=s.raw(2), mode=s.raw(3), mask=hexs(any_mask(s, len(c.outs))))


def C05():
    return Prop("C05", "Random circuits with secret, public and constant outputs x masks (empty, full, short, over-long, random) x modes x "
                "engines; non-trivial: both parties own at least one output.",
                [Suite("mask", g05, check05, 4500, 400000, 3), Suite("big", g05big, check_light, 250, 10000, 1)], W, ASSUME)


# --------------------------------------------------------------------- C06
def g06(s):
    c = gen_circ(s, max_port=6, max_gates=14, max_dff=5, max_out=s.choice([1, 3, 4, 8, 9, 17, 40]), term=True)
    cyc = s.weighted([(2, 3), (1, 1), (3, 2), (5, 1), (9, 1), (17, 1)])
    k = s.raw(5)
    n = len(c.outs)
    m = 0 if k < 2 else (1 << n) - 1 if k < 4 else s.bits(n)
    return mk(s, c, cyc, low=s.raw(2), mask=hexs(m), term=s.int(1, 3) if c.term and s.bool(1, 3) else 0)


def check06(ctx, d):
    c, ini, inp = unpack(d)
    exp = ref(d)
    n = len(c.outs)
    if len(exp) > 1:
        ctx.nontrivial()
    ctx.label("low" if d["low"] else "high", "width%4=" + str(n % 4), "terminated early" if len(exp) < d["cycles"] else "ran all")
    for mode in range(3):
        gcrun.judge(go(ctx, d, mode=mode), exp, n, int(d["mask"], 16), mode, "mode %d: " % mode)
        r = plain(ctx, d, mode)
        got = gcrun.parse(r["r.out"])
        if got != gcrun.render(exp, n, mode):
            raise Fail("plain", "mode %d: plaintext evaluator printed %r, expected %s" % (mode, r["r.out"], [hexs(x) for x in gcrun.render(exp, n, mode)]))


def plain(ctx, d, mode=None, want_ok=True, variant="opt", **kw):
    c, ini, inp = unpack(d)
    p = ctx.write("p.scd", c.text())
    ctx.write("p.scd.map", "terminate\t0\n" if kw.pop("map", None) is None else "")
    a = dict(scd=p, pinit=hexs(ini[0]), ginit=hexs(ini[1]), einit=hexs(ini[2]), pinput=hexs(inp[0]), ginput=hexs(inp[1]),
             einput=hexs(inp[2]), cycles=d["cycles"], term=d["term"], mode=d["mode"] if mode is None else mode)
    a.update(kw)
    r = ctx.worker(variant)("plain", **a)
    if want_ok:
        if r["r.st"] != "ok":
            raise Fail("plain-status", "plaintext evaluator ended with " + r["r.st"])
        if r["r.rc"] != "0":
            raise Fail("plain-status", "plaintext evaluator returned failure")
    return r


def g06long(s):
    d = glong(s) if s.bool(1, 3) else gmidseq(s)
    if d["cycles"] > 2000:
        d["cycles"] = 1000
    return d


def C06():
    return Prop("C06", "Random multi-cycle requests rendered in all three modes by both parties and by the plaintext evaluator; "
                "non-trivial: more than one executed cycle.",
                [Suite("modes", g06, check06, 1400, 100000, 3), Suite("long", g06long, check06, 80, 6000, 1)], W, ASSUME)


# --------------------------------------------------------------------- C07
def g07(s):
    kind = s.raw(7)
    c = gen_circ(s, max_port=5, max_gates=20, max_dff=6, term=True, max_out=8)
    cyc = s.weighted([(4, 3), (2, 2), (7, 2), (1, 1), (12, 1)])
    rd = c.ninit
    base = c.gate_lo
    gates = list(c.gates)
    nxt = base + len(gates)
    tw = c.term
    if kind < 4 and nxt > rd:
        # a terminate wire that is rarely one, so that the run ends somewhere in the middle
        def pick():
            return rd + s.raw(base + len(gates) - rd)
        a, b = pick(), pick()
        t = s.choice([model.AND, model.NOR, model.ANDN, model.NORN])
        gates.append((a, b, t))
        tw = base + len(gates) - 1
        if kind == 3:
            gates.append((tw, -1, model.NOT))
            gates.append((base + len(gates) - 1, model.C1, model.XOR))
            tw = base + len(gates) - 1
    elif kind == 4 and sum(c.sz[3:]):
        tw = rd + s.raw(sum(c.sz[3:]))
        if tw == 0:
            tw = c.term
    c2 = Circ(c.sz, c.dffs, gates, c.outs, tw)
    period = s.weighted([(1, 4), (2, 2), (3, 2), (cyc, 1), (0, 1), (7, 1)])
    if tw == 0:
        period = 0
    return mk(s, c2, cyc, low=s.raw(2), mode=s.raw(3), term=period, mask=hexs(masks(s, len(c2.outs))), noot=0 if s.bool(1, 40) else 1)


def check07(ctx, d):
    c, ini, inp = unpack(d)
    exp = ref(d)
    n = len(c.outs)
    an = c.analyse(ini[0], inp[0], d["cycles"])
    if d["term"]:
        sec = any(not isinstance(w[c.term], int) for w, _ in an[:len(exp)])
        ctx.label("secret terminate" if sec else "public terminate", "stops early" if len(exp) < d["cycles"] else "runs out")
        if len(exp) < d["cycles"] and len(exp) > 0:
            ctx.nontrivial()
        if sec and 1 < len(exp) < d["cycles"]:
            ctx.label("secret terminate in the middle")
    else:
        ctx.label("period 0")
    gcrun.judge(go(ctx, d), exp, n, int(d["mask"], 16), d["mode"])
    got = gcrun.parse(plain(ctx, d)["r.out"])
    if got != gcrun.render(exp, n, d["mode"]):
        raise Fail("plain", "plaintext evaluator printed %s, expected %s" % (got, gcrun.render(exp, n, d["mode"])))


def g07long(s):
    """a counter whose terminate wire rises after hundreds of cycles or more"""
    k = s.weighted([(9, 14), (10, 5), (12, 2), (17, 1)])
    stop = s.int(256, (1 << k) - 1) if k < 17 else 65500 + s.raw(100)
    secret = s.bool()
    sz = [0, s.raw(3), s.raw(3), 1, 1, 1]
    ni = sum(sz[:3])
    base = ni + 3
    lo = base + k
    gates = []

    def add(a, b, t):
        gates.append((a, b, t))
        return lo + len(gates) - 1
    carry = model.C1
    nxt, eq = [], model.C1
    for i in range(k):
        q = base + i
        nxt.append(add(q, carry, model.XOR))
        carry = add(q, carry, model.AND) if i else q
        eq = add(eq, q, model.AND if (stop >> i) & 1 else model.ANDN)
    if secret:
        z = add(ni + 1, ni + 2, model.XOR)
        z = add(z, z, s.choice([model.XOR, model.ANDN]))
        x = add(ni + 1, ni + 2, s.choice([model.AND, model.OR]))
        z = add(x, add(x, -1, model.NOT), model.AND) if s.bool() else z
        eq = add(eq, z, model.OR)
    outs = [base + i for i in range(k)] if s.bool() else [nxt[0], base]
    c = Circ(sz, [(n, model.C0) for n in nxt], gates, outs + [ni + 1], eq)
    period = s.weighted([(1, 10), (2, 2), (3, 2), (stop, 2), (stop + 1, 1), (255, 1), (256, 1), (257, 1), (1 << 32, 1), ((1 << 32) + 1, 1), (1 << 40, 1), (65536, 1)])
    return mk(s, c, stop + s.choice([0, 1, 2, 5, 40]) + 1, low=s.raw(2), mode=s.raw(3), term=period, mask=hexs(masks(s, len(c.outs))))


def g07mid(s):
    d = gmidseq(s, term=True)
    return dict(d, term=s.weighted([(1, 3), (2, 2), (3, 1), (7, 1), (20, 1)])) if Circ.of(d["c"]).term else d


def check07long(ctx, d):
    exp = ref(d)
    ctx.label("stops early" if len(exp) < d["cycles"] else "runs out", "low" if d["low"] else "high", "mode%d" % d["mode"])
    ctx.nontrivial()
    n = len(Circ.of(d["c"]).outs)
    gcrun.judge(go(ctx, d), exp, n, int(d["mask"], 16), d["mode"])
    got = gcrun.parse(plain(ctx, d)["r.out"])
    if got != gcrun.render(exp, n, d["mode"]):
        raise Fail("plain", "plaintext evaluator printed %s, expected %s" % (got[-5:], gcrun.render(exp, n, d["mode"])[-5:]))


def C07():
    return Prop("C07", "Random circuits with a terminate wire (secret, public, constant, inverted, input, flip-flop) x periods x cycles; "
                "non-trivial: a run that terminates before the requested cycle count.",
                [Suite("terminate", g07, check07, 4000, 200000, 3), Suite("long", g07long, check07long, 60, 4000, 1), Suite("mid", g07mid, check07long, 150, 8000, 1)], W, ASSUME)


# --------------------------------------------------------------------- C08
def g08(s):
    c = gen_circ(s, max_port=4, max_gates=30, max_dff=6, special=True, max_out=16, term=s.bool(1, 4))
    cyc = s.weighted([(1, 2), (2, 2), (3, 2), (5, 1)])
    return mk(s, c, cyc, low=s.raw(2), mask=hexs(masks(s, len(c.outs))), term=1 if c.term and s.bool() else 0)


def g08cell(s):
    """one gate with a chosen (type, operand knowledge, relation), behind a chain of
    public / inverting logic, observed directly, through another gate and a flip-flop"""
    t = s.choice([g for g in model.GATES if g != model.NOT])
    sz = [0, 1, 1, 2, 3, 3]
    rd = 2
    lo = 2 + 8
    ndff = 3
    base = lo + ndff
    gates = []

    def add(a, b, ty):
        gates.append((a, b, ty))
        return base + len(gates) - 1

    def operand():
        k = s.raw(8)
        if k == 0: return model.C0
        if k == 1: return model.C1
        if k == 2: return rd + s.raw(2)
        if k == 3: return rd + 2 + s.raw(3)
        if k == 4: return rd + 5 + s.raw(3)
        if k == 5: return add(rd + 2 + s.raw(6), rd + 2 + s.raw(6), model.XOR)
        if k == 6: return add(rd + 2, rd + 5, model.AND)
        return lo + s.raw(ndff)

    def wrap(x):
        for _ in range(s.raw(3)):
            k = s.raw(5)
            if k == 0: x = add(x, -1, model.NOT)
            elif k == 1: x = add(x, model.C1, model.AND)
            elif k == 2: x = add(x, rd + s.raw(2), model.XOR)
            elif k == 3: x = add(x, model.C0, model.NOR)
            else: x = add(model.C1, x, model.NAND)
        return x
    a0 = operand()
    a = wrap(a0)
    b = wrap(a0) if s.bool() else wrap(operand())
    g = add(a, b, t)
    h = add(g, rd + 4, s.choice(model.GATES[:10]))
    dffs = [(g, s.choice([0, 1, model.C0, model.C1])), (h, s.choice([0, 1, model.C0])), (lo if s.bool() else a if a >= 0 else model.C1, 1)]
    outs = [g, h, lo, lo + 1, lo + 2] if s.bool() else [h, lo]
    c = Circ(sz, dffs, gates, outs)
    return mk(s, c, s.int(1, 3), low=s.raw(2), mask=hexs(masks(s, len(outs))))


def g08affine(s):
    """wires that are the same sum of secret wires up to inversion, each derived along a way of its own, into every gate type"""
    sz = [1, 1, 1, 2, 2, 2]
    ndff = 3
    rd, lo = 3, 3 + 6
    base = lo + ndff
    gates = []

    def add(a, b, ty):
        gates.append((a, b, ty))
        return base + len(gates) - 1
    pub, sec = [rd, rd + 1], [rd + 2, rd + 3, rd + 4, rd + 5]
    roots = [s.choice(sec + [lo, lo + 1, lo + 2]) for _ in range(2)] + [add(rd + 2, rd + 4, s.choice(model.GATES[:8]))]
    done = {}

    def form(m):
        """a wire that is the sum of the roots in m, or its inverse"""
        k = s.raw(8)
        if k < 2 and m in done:
            x = s.choice(done[m])
        elif m & m - 1:
            l = [i for i in range(3) if m >> i & 1]
            a = 1 << s.choice(l)
            if len(l) == 2 and s.bool(1, 4):
                a |= 1 << s.raw(3)
                x, y = form(a), form(a ^ m) if a ^ m else 0
                if not a ^ m:
                    return x
            else:
                x, y = form(a), form(a ^ m)
            x = add(*((x, y) if s.bool() else (y, x)), s.choice([model.XOR, model.XNOR]))
        else:
            x = roots[[1, 2, 4].index(m)]
        for _ in range(s.choice([0, 0, 0, 1, 1, 2])):
            k = s.raw(8)
            if k < 3: x = add(x, -1, model.NOT)
            elif k == 3: x = add(x, model.C1, s.choice([model.AND, model.XOR, model.NAND]))
            elif k == 4: x = add(model.C0, x, s.choice([model.OR, model.XNOR, model.ORN]))
            elif k == 5: x = add(x, s.choice(pub), s.choice([model.XOR, model.XNOR]))
            else: x = add(s.choice(pub), x, s.choice([model.AND, model.ORN, model.NAND]))
        done.setdefault(m, []).append(x)
        return x
    outs = []
    for _ in range(s.int(1, 4)):
        m = s.int(1, 7)
        a, b = form(m), form(m)
        if s.bool(1, 5):
            b = form(s.int(1, 7))
        g = add(a, b, s.choice([g for g in model.GATES if g != model.NOT]))
        outs.append(g)
        if s.bool(1, 3):
            outs.append(add(g, s.choice(sec + [a, b]), s.choice(model.GATES[:10])))
    last = list(range(base, base + len(gates)))
    dffs = [(s.choice(last), s.choice([0, 1, 2, model.C0, model.C1])) for _ in range(ndff)]
    c = Circ(sz, dffs, gates, outs + [lo, lo + 1])
    return mk(s, c, s.int(1, 4), low=s.raw(2), mask=hexs(masks(s, len(c.outs))))


def check08(ctx, d):
    c, ini, inp = unpack(d)
    an = c.analyse(ini[0], inp[0], d["cycles"])
    hit = 0
    for w, _ in an:
        for i, (a, b, t) in enumerate(c.gates):
            x = 0 if a == -2 else 1 if a == -3 else w[a]
            y = "not" if t == model.NOT else 0 if b == -2 else 1 if b == -3 else w[b]
            if y == "not":
                continue
            xi, yi = isinstance(x, int), isinstance(y, int)
            if xi != yi:
                hit += 1
            elif not xi and x[0] == y[0]:
                hit += 1
                ctx.label("%s equal" % model.NAMES[t] if x[1] == y[1] else "%s inverse" % model.NAMES[t])
    if hit:
        ctx.nontrivial()
    gcrun.judge(go(ctx, d), ref(d), len(c.outs), int(d["mask"], 16), d["mode"])


def C08():
    return Prop("C08", "Circuits biased to constant/public/equal/inverse operands, plus one-gate cells behind inverting chains; "
                "non-trivial: some two-input gate has exactly one known operand or two equal/complementary secret operands.",
                [Suite("mix", g08, check08, 2500, 250000, 1), Suite("cell", g08cell, check08, 3000, 300000, 1),
                 Suite("affine", g08affine, check08, 2500, 250000, 1)], W, ASSUME)
