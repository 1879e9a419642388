"""Memory and descriptors: what a call takes it gives back (C36); the low-memory mode's need does not grow with the run (C35).

Measured in a worker that counts every heap byte (malloc and free are interposed) around each library call."""
import p_hist, gcrun
from model import Circ, hexs, gen_circ
from pbt import Fail, Prop, Suite
from p_gc import mk, masks
from p_util import phases27, log_check, expect, lens

HEAP = [("heap", "worker")]


def ints(s):
    return [int(x) for x in s.split(",")] if s else []


# ------------------------------------------------------------------- C36: nothing accumulates
def repeat(gen, lo=6, hi=8):
    def g(s):
        st = gen(s)
        n = s.int(lo, hi)
        w = "AB"[s.raw(2)]
        return dict(steps=[st] * n, dirs=w * n if s.bool(3, 4) else ("AB" * n)[:n], seed=1 + s.raw(1 << 16), period=1)
    return g


def rounds(*kinds):
    def g(s):
        k = s.int(2, 3)
        steps = [s.weighted([(x, w) for x, w in kinds])(s) for _ in range(k)]
        dirs = "".join("AB"[s.raw(2)] for _ in steps)
        return dict(steps=steps * 4, dirs=dirs * 4, seed=1 + s.raw(1 << 16), period=k)
    return g


def check36(ctx, d):
    ctx.force = "heap"
    r, seq = p_hist.run(ctx, d)
    p_hist.judge(ctx, r, seq)
    ctx.nontrivial()
    n = len(seq) // (len(d["steps"]) // d["period"])        # library calls per round
    for p in "AB":
        kept, fds = ints(r[p + ".kepts"]), ints(r[p + ".fds"])
        calls = "".join(c for c, _, _ in seq)
        per = [sum(fds[i:i + n]) for i in range(0, len(fds), n)]
        if sum(1 for x in per[1:] if x > 0) >= 2 and sum(per[1:]) > 0:
            raise Fail("descriptors", "party %s: open descriptors grow by %s in the rounds of %s" % (p, per, calls[:n]))
        per = [sum(kept[i:i + n]) for i in range(0, len(kept), n)][-max(2, len(kept) // n - 2):]
        # the first rounds may set things up; after that a round that is repeated leaves the heap as it was
        if sum(1 for x in per if x > 0) >= 2 and sum(per) > 0:
            raise Fail("heap", "party %s: the heap in use grows by %s bytes in the last rounds of %s (one round repeated %d times, all calls successful; "
                       "per call: %s)" % (p, per, calls[:n], len(kept) // n, kept))


def varied(*kinds):
    """different calls of the same kinds, one after the other"""
    def g(s):
        k, n = s.int(1, 2), s.int(5, 6)
        gens = [s.weighted([(x, w) for x, w in kinds]) for _ in range(k)]
        steps = [gens[i % k](s) for i in range(n * k)]
        dirs = "".join("AB"[s.raw(2)] for _ in range(k))
        # a translation may be followed by a run of its result: the same for all
        for st in steps:
            st.pop("garble", None)
        return dict(steps=steps, dirs=dirs * n, seed=1 + s.raw(1 << 16), period=k)
    return g


def g_ot_one(base):
    def g(s):
        return p_hist.g_ot(s, base)
    return g


def g_otrun(s):
    st = p_hist.g_run(s, True)
    st["d"]["noot"] = 0
    return st


def g_noot(s):
    st = p_hist.g_run(s)
    st["d"]["noot"] = 1
    return st


def g_tcp(s):
    A, B = phases27(s, False, 2)
    return dict(A=A, B=B, patA=s.raw(1 << 30), patB=s.raw(1 << 30), rounds=s.int(4, 6), step=s.raw(2), swap=s.raw(2),
                ip=s.choice(["127.0.0.1", "localhost"]))


def check_tcp(ctx, d):
    ctx.force = "heap"
    ctx.nontrivial()
    for attempt in range(6):
        for _ in range(d["rounds"]):
            ctx.next_port()
        r = ctx.worker("heap")("reconnect", port=ctx.port, step=-8 * d["step"], swap=d["swap"], rounds=d["rounds"], ip=d["ip"], scriptA=" ".join(d["A"]),
                               scriptB=" ".join(d["B"]), patA=d["patA"], patB=d["patB"])
        if any(r.get("%s.log%d" % (p, i)) == "INITFAIL" for p in "AB" for i in range(d["rounds"])) or "hang" in (r["A.st"], r["B.st"]):
            why = r
            continue
        break
    else:
        raise Fail("connect", "no %d connections in a row on six ports: %s" % (d["rounds"], {k: v for k, v in why.items() if len(v) < 80}))
    for p in "AB":
        if r[p + ".st"] != "ok":
            raise Fail("status", "party %s ended with %s" % (p, r[p + ".st"]))
        for i in range(d["rounds"]):
            host = (p == "A") != bool(d["swap"] and i & 1)
            me, he, pat = ("A", "B", "patB") if host else ("B", "A", "patA")
            log_check("server" if host else "client", d[me], r["%s.log%d" % (p, i)], expect(lens(d[me], "r"), sum(lens(d[he], "s")), d[pat]), True)
        fds = ints(r[p + ".fds"])
        if sum(fds) > 0:
            raise Fail("descriptors", "party %s: open descriptors grow by %s in %d connections that were opened and closed" % (p, fds, d["rounds"]))
        kept = ints(r[p + ".kepts"])[2:]
        if sum(1 for x in kept if x > 0) >= 2 and sum(kept) > 0:
            raise Fail("heap", "party %s: the heap grows by %s bytes with connections that were opened and closed" % (p, kept))


def C36():
    r = repeat
    return Prop("C36", "One random valid call - a garbled run (both memory modes, with and without transfers), a base or extended transfer, a plaintext run, a translation of either "
                "format, opening and closing a connection - or a round of 2-3 different calls is repeated 4-8 times by the same two processes, or 5-12 "
                "different calls of one or two kinds follow each other. Heap bytes in use (malloc "
                "interposed, exact) and open descriptors are taken around every library call; after the first two rounds a round may not grow either one (twice or more). Results are compared "
                "with the models as in the history suites. Non-trivial: every case (each consists of at least four repetitions).",
                [Suite("runs", r(g_noot), check36, 500, 12000, 2),
                 Suite("runs-ot", r(g_otrun, 4, 5), check36, 60, 1500, 3),
                 Suite("transfers", r(g_ot_one(1), 4, 5), check36, 50, 1500, 3),
                 Suite("plaintext", r(p_hist.g_plain), check36, 250, 6000, 1),
                 Suite("translations", r(lambda s: (p_hist.g_bristol if s.bool(1, 3) else p_hist.g_verilog)(s)), check36, 250, 8000, 2),
                 Suite("rounds", rounds((g_noot, 4), (p_hist.g_plain, 2), (p_hist.g_verilog, 3), (p_hist.g_bristol, 1), (g_ot_one(9), 1)), check36, 150, 5000, 2),
                 Suite("varied", varied((g_noot, 4), (p_hist.g_plain, 2), (p_hist.g_verilog, 3), (p_hist.g_bristol, 1), (g_ot_one(9), 1)), check36, 200, 6000, 2),
                 Suite("connections", g_tcp, check_tcp, 40, 800, 1)],
                HEAP, ["A call that is refused or fails may keep what it took; such calls are not counted."])


# ------------------------------------------------------------------- C35: low-memory footprint
def g35(ot):
    def g(s):
        mp = s.weighted([(3, 2), (12, 2), (40, 1)]) if not ot else 5
        c = gen_circ(s, max_port=mp, max_gates=s.weighted([(12, 2), (60, 1)]), max_dff=s.weighted([(4, 2), (20, 1)]), max_out=s.weighted([(4, 2), (20, 1)]),
                     term=s.bool(1, 3))
        d = mk(s, c, 1, low=1, mode=s.raw(3), mask=hexs(masks(s, len(c.outs))), term=0)
        if c.term and s.bool(2, 3):
            d["term"] = s.int(1, 3)
        n1 = s.int(2, 4)
        d["n"] = [n1, n1 + (s.int(400, 1500) if not ot else s.int(8, 20))]
        d["noot"] = 0 if ot else 1
        d["long"] = s.raw(2)
        if not d["long"]:       # short numbers: what follows is zero
            d["inp"] = [hexs(int(x, 16) & 0xFF) for x in d["inp"]]
        else:
            sz = d["c"]["sz"]
            d["inp"] = [hexs(s.bits(sz[3 + i] * d["n"][1])) for i in range(3)]
        return d
    return g


def check35(ctx, d):
    ctx.force = "heap"
    c = Circ.of(d["c"])
    n1, n2 = d["n"]
    io = sum(d["c"]["sz"][3:6]) + len(c.outs)
    sec = sum(d["c"]["sz"][4:6])
    if sec + len(c.dffs) > 0:
        ctx.nontrivial()
    ctx.label("secret inputs" if sec else "no secret inputs", "mode %d" % d["mode"], "flip-flops" if c.dffs else "no flip-flops")
    steps = [dict(t="g", d=dict(d, cycles=n)) for n in (n1, n1, n2, n2)]
    r, seq = p_hist.run(ctx, dict(steps=steps, dirs="AAAA", seed=d["seed"]))
    p_hist.judge(ctx, r, seq)
    for p in "AB":
        pk = ints(r[p + ".peaks"])
        grow = pk[3] - pk[1]
        # the numbers that go in and come out, and a copy of them while they grow
        per = sum(d["c"]["sz"][3:6]) / 4 * d["long"] + (0 if d["mode"] == 2 else len(c.outs) + (8 if d["mode"] == 1 else 0))
        allow = (n2 - n1) * per + (256 if d["noot"] else 1024)
        kept = ints(r[p + ".kepts"])
        if kept[2] > max(kept[1], 0) and kept[3] > max(kept[1], 0):
            raise Fail("keeps", "party %s: a low-memory run of %d cycles leaves %d bytes allocated, one of %d cycles %d bytes" % (p, n1, kept[1], n2, kept[3]))
        if grow > allow:
            raise Fail("grows", "party %s: the low-memory run needs %d bytes of heap for %d cycles and %d for %d cycles: %.0f bytes more per cycle, with %d input and "
                       "output bits per cycle" % (p, pk[1], n1, pk[3], n2, grow / (n2 - n1), io))


def C35():
    return Prop("C35", "Random sequential circuits run in the low-memory mode for n1 = 2-4 and for n2 = n1 + 400-1500 (with transfers 8-20) cycles by the same two processes (after a first run), all output "
                "modes, long and short input numbers, with and without transfers. The highest heap use during each call (malloc interposed, exact) . Non-trivial: the circuit has secret inputs or flip-flops.",
                [Suite("long", g35(False), check35, 500, 12000, 2), Suite("long-ot", g35(True), check35, 40, 1000, 2)], HEAP,
                ["Memory is heap memory; the library has no other storage that depends on the run."])
