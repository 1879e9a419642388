"""Running two-party evaluations through the worker and judging them."""
import model
from model import Circ, hexs, cat
from pbt import Fail, Inconclusive


def spell(v):
    return model.hexs(v)


def run(ctx, c, ini, inp, cycles, mask=0, mode=0, term=0, noot=1, low=0, variant="opt", scd=None, **kw):
    """ini, inp: [p, g, e].  Returns the worker's answer."""
    p = scd or ctx.write("c.scd", c.text())
    args = dict(scd=p, pinit=hexs(ini[0]), pinput=hexs(inp[0]), initA=hexs(ini[1]), inputA=hexs(inp[1]),
                initB=hexs(ini[2]), inputB=hexs(inp[2]), cycles=cycles, mask=hexs(mask), term=term, mode=mode,
                noot=noot, low=low)
    args.update(kw)
    return ctx.worker(variant)("gc", **args)


def status(r, what=""):
    """both parties must have finished with success"""
    for p in "AB":
        if r[p + ".st"] != "ok":
            raise Fail("status", "%sparty %s ended with %s" % (what, p, r[p + ".st"]))
    for p in "AB":
        if r[p + ".rc"] != "0":
            raise Fail("status", "%sparty %s returned failure" % (what, p))


def render(outs, nout, mode):
    """list of integers the output string must show, one per line"""
    if mode == 0:
        return [cat(outs, nout)]
    if mode == 1:
        return list(outs)
    return [outs[-1]]


def parse(s):
    try:
        return [int(x, 16) for x in s.split("\n")]
    except ValueError:
        return ["unparsable output %r" % s[:200]]


def judge(r, outs, nout, mask, mode=0, what=""):
    """outs: per-cycle reference outputs"""
    status(r, what)
    full = (1 << nout) - 1
    exp = dict(A=render([o & mask & full for o in outs], nout, mode), B=render([o & ~mask & full for o in outs], nout, mode))
    for p in "AB":
        got = parse(r[p + ".out"])
        if got != exp[p]:
            raise Fail("output", "%sparty %s printed %s, expected %s" % (
                what, p, [hexs(x) if isinstance(x, int) else x for x in got], [hexs(x) for x in exp[p]]))


def ncyc(s, hi=8):
    return s.weighted([(2, 4), (1, 3), (3, 3), (4, 2), (5, 2)] + ([(hi, 1), (hi - 1, 1)] if hi > 5 else [])) if hi >= 5 else s.int(1, hi)
