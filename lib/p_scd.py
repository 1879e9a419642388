"""C17-C23: netlist translation, the SCD format and the plaintext evaluator."""
import collections, copy, os, random, sys, threading
import model, gcrun, netlist
from model import Circ, hexs, gen_circ, cat, lg
from netlist import PORTS, Sim, gen_netlist, gen_bristol
from pbt import Fail, Prop, Src, Suite
from p_gc import W, hist, mk, unpack, ref, plain

SASSUME = ["The reference semantics of the cell library and of Bristol gates is the one in lib/netlist.py.",
           "Netlists drive every wire once and use the documented cells, ports and declarations ([n-1:0])."]


def translate(ctx, text, kind="verilog", want=True, variant="opt"):
    src = ctx.write("in.v", text)
    out, mp = ctx.path("out.scd"), ctx.path("out.scd.map")
    for f in (out, mp):
        if os.path.exists(f):
            os.unlink(f)
    r = ctx.worker(variant)("trans", kind=kind, **{"in": src, "map": mp, "out": out})
    if r["r.st"] != "ok":
        raise Fail("status", "the translator ended with " + r["r.st"])
    if want is None:
        return r["r.rc"] == "0"
    if want and r["r.rc"] != "0":
        raise Fail("refused", "the translator refused a valid netlist")
    with open(out) as f:
        t = f.read()
    try:
        c = Circ.parse(t)
    except (ValueError, IndexError) as e:
        raise Fail("malformed", "unreadable SCD file: %s" % e)
    return c, t


def nl_vals(s, P, cycles):
    return [hexs(s.bits(P.get(p, 0))) for p in PORTS[:3]], [hexs(s.bits(P.get(p, 0) * cycles)) for p in PORTS[3:]]


def huge(make, size=lambda s: 66000 + 1000 * s.raw(20)):
    """a case too long to be written down: the generator's seed stands for it"""
    def gen(s):
        return dict(big=s.raw(1 << 30), n=size(s))

    def expand(d):
        if "big" not in d:
            return d
        k = (make.__name__, d["big"], d["n"])
        if k not in _huge:
            _huge.clear()
            _huge[k] = make(Src(random.Random(d["big"])), d["n"])
        return _huge[k]
    return gen, expand


def middling(make):
    return huge(make, lambda s: lg(s, 8000, 1))


_huge = {}


def deep(f):
    """runs f with room for deep recursion"""
    def g(*a):
        res = []

        def h():
            try:
                f(*a)
            except BaseException as e:
                res.append(e)
        sys.setrecursionlimit(400000)
        old = threading.stack_size(512 << 20)
        t = threading.Thread(target=h)
        t.start()
        threading.stack_size(old)
        t.join()
        if res:
            raise res[0]
    return g


# --------------------------------------------------------------------- C17
def g17(s, n=0):
    big = s.bool(1, 10)
    W8 = ["g_input", "e_input", "p_input", "o", "dff", "g_init", "e_init", "p_init"]
    if 0 < n < 10000:
        w = s.choice(W8) if s.bool() else None
        nl = gen_netlist(s, max_port=40, max_cells=lg(s, 600, 30) if w else n + 20, max_dff=lg(s, 60), max_out=lg(s, 200, 1),
                         min_cells=20 if w else n, win=s.choice([3, 20, 200]), wide=(w, n) if w else None)
    elif n and s.bool(1, 2):
        w = s.choice(W8)
        nl = gen_netlist(s, max_port=40, max_cells=4000, max_dff=60, max_out=200, min_cells=2000, win=1000, wide=(w, n))
    elif n:
        nl = gen_netlist(s, max_port=40, max_cells=n + 3000, max_dff=60, max_out=200, min_cells=n, win=2000)
    else:
        nl = gen_netlist(s, max_port=20 if big else 6, max_cells=150 if big else 22, max_dff=20 if big else 5, max_out=30 if big else 8)
    nl = netlist.shuffle(s, nl)
    cyc = s.int(1, 4)
    ini, inp = nl_vals(s, nl["ports"], cyc)
    return dict(nl=nl, v=netlist.verilog(s, nl), ini=ini, inp=inp, cycles=cyc, seed=1 + s.raw(1000))


g17h, e17h = huge(g17)
g17m, _ = middling(g17)


def ival(d):
    return [int(x, 16) for x in d["ini"]], [int(x, 16) for x in d["inp"]]


def label_nl(ctx, nl):
    for t in {t for t, _ in nl["cells"]}:
        ctx.label(t)
    if nl["assigns"]:
        ctx.label("assign")
    if any(r.startswith("1'b") for _, r in nl["assigns"]):
        ctx.label("constant assign")


def check17(ctx, d):
    d = e17h(d)
    nl = d["nl"]
    P = nl["ports"]
    label_nl(ctx, nl)
    c, _ = translate(ctx, d["v"])
    want = [P.get(p, 0) for p in PORTS]
    if c.sz != want or len(c.outs) != P["o"]:
        raise Fail("ports", "port widths %s and %d outputs, the netlist has %s and %d" % (c.sz, len(c.outs), want, P["o"]))
    e = c.wellformed()
    if e:
        raise Fail("malformed", e)
    ini, inp = ival(d)
    sim = Sim(nl)
    nets = []
    exp = sim.run(ini, inp, d["cycles"], nets=nets)
    if len(nl["cells"]) >= 2:
        ctx.nontrivial()
    # several input assignments: the given one and some derived ones
    for k in range(6):
        if k:
            ini = [(x * 0x9E3779B1 + k * 0x85EBCA6B) & ((1 << P.get(p, 0)) - 1) for x, p in zip(ini, PORTS)]
            inp = [(x * 0xC2B2AE3D27D4EB4F + k * 0x165667B19E3779F9) & ((1 << P.get(p, 0) * d["cycles"]) - 1) for x, p in zip(inp, PORTS[3:])]
            exp = sim.run(ini, inp, d["cycles"], nets=nets)
        got = c.run(ini, inp, d["cycles"])
        if got != exp:
            raise Fail("function", "init %s input %s: the SCD circuit yields %s per cycle, the netlist %s" % (
                [hexs(x) for x in ini], [hexs(x) for x in inp], [hexs(x) for x in got], [hexs(x) for x in exp]))
        if P.get("terminate"):
            tr = []
            c.run(ini, inp, d["cycles"], trace=tr)
            for cy in range(d["cycles"]):
                if tr[cy][c.term] != nets[cy]["terminate"]:
                    raise Fail("terminate", "cycle %d: wire %d is %d, the terminate port %d" % (cy, c.term, tr[cy][c.term], nets[cy]["terminate"]))
        elif c.term != 0:
            raise Fail("terminate", "terminate index %d without a terminate port" % c.term)
        nets.clear()


def check17run(ctx, d):
    """the same, through the library's own consumers"""
    d = e17h(d)
    nl = d["nl"]
    c, t = translate(ctx, d["v"])
    if c.term == 0 and nl["ports"].get("terminate"):
        raise Fail("terminate", "terminate index 0 for a netlist with a terminate port")
    ini, inp = ival(d)
    period = 1 if nl["ports"].get("terminate") and d["seed"] % 2 else 0
    exp = Sim(nl).run(ini, inp, d["cycles"], period)
    no = nl["ports"]["o"]
    ctx.nontrivial()
    r = ctx.worker("opt")("plain", scd=ctx.path("out.scd"), pinit=d["ini"][0], ginit=d["ini"][1], einit=d["ini"][2], pinput=d["inp"][0],
                          ginput=d["inp"][1], einput=d["inp"][2], cycles=d["cycles"], term=period, mode=1)
    if r["r.st"] != "ok" or r["r.rc"] != "0":
        raise Fail("plain-status", "plaintext evaluation ended with %s %s" % (r["r.st"], r.get("r.rc")))
    if gcrun.parse(r["r.out"]) != exp:
        raise Fail("plain", "plaintext evaluation of the translated netlist printed %r, the netlist computes %s" % (r["r.out"], [hexs(x) for x in exp]))
    m = int(d["inp"][1] + "5", 16) & ((1 << no) - 1)
    r = gcrun.run(ctx, c, ini, inp, d["cycles"], m, 1, period, 1, d["seed"] % 2, scd=ctx.path("out.scd"), rngA=d["seed"], rngB=d["seed"] + 1)
    gcrun.judge(r, exp, no, m, 1, "garbled run: ")


def check17chain(ctx, d):
    """a path of very many cells"""
    n, order = d["chain"]
    r = random.Random(n)
    L, kinds = [], []
    for i in range(n):
        a = "w%d" % (i - 1) if i else "g_input"
        t = r.choice(["XOR", "XNOR", "IV", "XOR"])
        kinds.append(t)
        z = "w%d" % i if i < n - 1 else "o"
        L.append("%s u%d(.A(%s), .Z(%s));" % (t, i, a, z) if t == "IV" else
                 "%s u%d(.A(%s), .B(%s), .Z(%s));" % ((t, i) + ((a, "e_input") if r.random() < 0.8 else ("e_input", a)) + (z,)))
    if order == "back":
        L.reverse()
    elif order == "mixed":
        L = L[n // 2:][::-1] + L[:n // 2]
    c, _ = translate(ctx, "module top(g_input, e_input, o);\ninput g_input;\ninput e_input;\noutput o;\nwire " +
                     ", ".join("w%d" % i for i in range(n - 1)) + ";\n" + "\n".join(L) + "\nendmodule\n")
    e = c.wellformed()
    if e:
        raise Fail("malformed", e)
    ctx.nontrivial()
    for g in (0, 1):
        for e in (0, 1):
            x = g
            for t in kinds:
                x ^= e if t == "XOR" else 1 - e if t == "XNOR" else 1
            got = c.run([0, 0, 0], [0, g, e], 1)
            if got != [x]:
                raise Fail("function", "g %d e %d: the SCD circuit yields %s, the netlist %d" % (g, e, got, x))


def chains17():
    return [dict(chain=[n, o]) for n, o in ((350000, "back"), (300000, "mixed"), (60000, "forth"))]


def C17():
    return Prop("C17", "Random structural netlists (all 15 cells, assigns, constants, bus/scalar nets, any instance order and layout) are translated; "
                "the SCD circuit is simulated and, in the second suite, evaluated by the plaintext evaluator and by two parties, against the "
                "netlist's own semantics; non-trivial: at least two cells.",
                [Suite("sim", g17, check17, 4000, 400000, 3), Suite("run", g17, check17run, 1200, 80000, 2),
                 Suite("mid", g17m, deep(check17run), 500, 30000, 1), Suite("huge", g17h, deep(check17run), 12, 400, 1),
                 Suite("chain", lambda s: s.choice(chains17()), check17chain, 0, 0, 1, exhaustive=chains17()),
                 hist("verilog", 2500, 60000)], W, SASSUME)


# --------------------------------------------------------------------- C18
def g18(s, n=0):
    d = g17(s, n)
    nl2 = netlist.rename(s, netlist.shuffle(s, d["nl"]))
    d["v2"] = netlist.verilog(s, nl2)
    d["nl2"] = nl2
    return d


g18h, e18h = huge(g18)
g18m, _ = middling(g18)


def check18(ctx, d):
    d = e18h(d)
    nl = d["nl"]
    P = nl["ports"]
    label_nl(ctx, nl)
    cs = []
    for v in (d["v"], d["v2"]):
        c, t = translate(ctx, v)
        want = [P.get(p, 0) for p in PORTS]
        if c.sz != want:
            raise Fail("counts", "header says ports %s, the netlist has %s" % (c.sz, want))
        if len(c.outs) != P["o"]:
            raise Fail("counts", "header says %d outputs, the netlist has %d" % (len(c.outs), P["o"]))
        if len(c.dffs) != sum(1 for t_, _ in nl["cells"] if t_ == "DFF"):
            raise Fail("counts", "header says %d flip-flops" % len(c.dffs))
        if (c.term != 0) != bool(P.get("terminate")):
            raise Fail("counts", "terminate index %d" % c.term)
        e = c.wellformed()
        if e:
            raise Fail("malformed", e)
        cs.append(c)
    if len(nl["cells"]) >= 3:
        ctx.nontrivial()
    m = [collections.Counter(g[2] for g in c.gates) for c in cs]
    if m[0] != m[1]:
        raise Fail("multiset", "gate types %s, after permuting and renaming %s" % (dict(m[0]), dict(m[1])))
    ini, inp = ival(d)
    a, b = [c.run(ini, inp, d["cycles"]) for c in cs]
    if a != b:
        raise Fail("function", "permuting instances and renaming wires changes the outputs")


def g18b(s):
    b = gen_bristol(s)
    return dict(b=b, t=netlist.bristol_text(s, b))


def check18b(ctx, d):
    b = d["b"]
    c, t = translate(ctx, d["t"], "bris")
    if c.sz != [0, 0, 0, 0, b["n1"], b["n2"]] or len(c.outs) != b["no"] or c.dffs or c.term:
        raise Fail("counts", "header %s, outputs %d" % (c.sz, len(c.outs)))
    e = c.wellformed()
    if e:
        raise Fail("malformed", e)
    if len(c.gates) != len(b["gates"]):
        raise Fail("counts", "%d gates for %d Bristol gates" % (len(c.gates), len(b["gates"])))
    if len(c.gates) > 2:
        ctx.nontrivial()


def C18():
    return Prop("C18", "Every SCD file written for a random netlist (and for the same netlist with instances permuted and wires renamed) and for random "
                "Bristol files is checked for well-formedness; non-trivial: at least three cells.",
                [Suite("verilog", g18, check18, 3000, 250000, 2), Suite("bristol", g18b, check18b, 1500, 100000, 1),
                 Suite("mid", g18m, check18, 300, 25000, 1), Suite("huge", g18h, check18, 8, 200, 1)], W, SASSUME)


# --------------------------------------------------------------------- C19
def g19(s, n=0):
    big = s.bool(1, 10)
    w = s.raw(4) if n else 0
    k = lg(s, 300, 30) if 0 < n < 10000 else 0
    b = gen_bristol(s, k, k, k, 1, s.choice([3, 50, 1000]), (w, n)) if k and w else gen_bristol(s, k, n + 20, k, n, s.choice([3, 50, 1000])) if k else gen_bristol(s, 200, 3000, 300, 1500, 2000, (w, n)) if w else gen_bristol(s, 200, n + 3000, 300, n, 2000) if n else gen_bristol(s, 70, 300, 70) if big else gen_bristol(s)
    return dict(b=b, t=netlist.bristol_text(s, b), x=hexs(s.bits(b["n1"])), y=hexs(s.bits(b["n2"])), run=s.raw(4), mask=hexs(s.bits(b["no"])))


g19h, e19h = huge(g19)
g19m, _ = middling(g19)


def check19(ctx, d):
    d = e19h(d)
    b = d["b"]
    c, t = translate(ctx, d["t"], "bris")
    if c.sz[4:] != [b["n1"], b["n2"]] or sum(c.sz[:4]) or len(c.outs) != b["no"]:
        raise Fail("ports", "header %s, %d outputs; the Bristol circuit has %d and %d inputs, %d outputs" % (c.sz, len(c.outs), b["n1"], b["n2"], b["no"]))
    e = c.wellformed()
    if e:
        raise Fail("malformed", e)
    ctx.nontrivial()
    x0, y0 = int(d["x"], 16), int(d["y"], 16)
    x, y = x0, y0
    for k in range(8):
        exp = netlist.bristol_run(b, x, y)
        got = c.run([0, 0, 0], [0, x, y], 1)[0]
        if got != exp:
            raise Fail("function", "inputs %X, %X: the SCD circuit yields %X, the Bristol circuit %X" % (x, y, got, exp))
        x = (x * 0xC2B2AE3D27D4EB4F + k * 0x165667B19E3779F9 + 1) & ((1 << b["n1"]) - 1)
        y = (y * 0x9E3779B97F4A7C15 + k * 0x85EBCA77C2B2AE63 + 7) & ((1 << b["n2"]) - 1)
    if d["run"] == 0:
        exp = netlist.bristol_run(b, x0, y0)
        m = int(d["mask"], 16)
        r = gcrun.run(ctx, c, [0, 0, 0], [0, x0, y0], 1, m, 0, 0, 1, 0, scd=ctx.path("out.scd"), rngA=3, rngB=4)
        gcrun.judge(r, [exp], b["no"], m, 0, "garbled run: ")
        ctx.label("garbled")
    ctx.label("permuted gates" if d["b"]["order"] != sorted(d["b"]["order"]) else "in order")


def C19():
    return Prop("C19", "Random Bristol circuits (AND/XOR/INV, gates in any topological order) translated and evaluated on 8 inputs each, a quarter also "
                "garbled; non-trivial: every case.",
                [Suite("bristol", g19, check19, 3000, 300000, 1), Suite("mid", g19m, deep(check19), 800, 50000, 1),
                 Suite("huge", g19h, check19, 24, 800, 1), hist("bristol", 2000, 50000)], W, SASSUME)


# --------------------------------------------------------------------- C20
def live_pins(nl):
    return [(k, p) for k, (t, pins) in enumerate(nl["cells"]) for p in pins if p in ("A", "B", "D", "IN0", "IN1", "CIN", "SEL", "I")]


def g20(s):
    nl = gen_netlist(s, max_port=5, max_cells=15, max_dff=3, max_out=5)
    k = s.raw(10)
    kind = ("loop", "undriven", "unknown cell", "missing file", "truncated", "loop", "missing pin", "missing pin", "unknown port", "missing pin")[k]
    nl = copy.deepcopy(nl)
    d = dict(kind=kind)
    if kind == "loop":
        # a ring of 1..4 cells somewhere, feeding an output, a flip-flop or nothing
        n = 1 + s.size(4)
        names = ["lp%d" % i for i in range(n)]
        sigs = ["1'b1", "1'b0"] + [p[x] for t, p in nl["cells"] for x in ("Z", "Q", "F", "SUM", "COUT") if p.get(x)]
        for i in range(n):
            ins = names[(i + 1) % n]
            t = s.choice(["AND", "XOR", "NORN", "IV", "MUX", "FADDER"])
            if t == "IV":
                nl["cells"].append([t, {"A": ins, "Z": names[i]}])
            elif t == "MUX":
                ps = {"IN0": s.choice(sigs), "IN1": s.choice(sigs), "SEL": s.choice(sigs), "F": names[i]}
                ps[s.choice(["IN0", "IN1", "SEL"])] = ins
                nl["cells"].append([t, ps])
            elif t == "FADDER":
                ps = {"IN0": s.choice(sigs), "IN1": s.choice(sigs), "CIN": s.choice(sigs), s.choice(["SUM", "COUT"]): names[i]}
                ps[s.choice(["IN0", "IN1", "CIN"])] = ins
                nl["cells"].append([t, ps])
            else:
                ab = [ins, s.choice(sigs)]
                if s.bool():
                    ab.reverse()
                nl["cells"].append([t, {"A": ab[0], "B": ab[1], "Z": names[i]}])
        pins = live_pins(nl)
        pins = [x for x in pins if x[1] != "I" and x[0] < len(nl["cells"]) - n]
        if pins and s.bool(2, 3):
            c, p = pins[s.raw(len(pins))]
            nl["cells"][c][1][p] = names[0]
    elif kind == "undriven":
        pins = live_pins(nl)
        if pins and s.bool(3, 4):
            c, p = pins[s.raw(len(pins))]
            P = nl["ports"]
            bad = ["nowhere", "w[99999]", "o_x", "1'bx"]
            for q in PORTS:
                if P.get(q):
                    bad.append("%s[%d]" % (q, P[q] + s.raw(3)))
                elif not P.get(q):
                    bad.append(q + "[0]")
            if p == "I":
                bad = bad[:4] + [b for b in bad[4:] if "_init" in b]
            nl["cells"][c][1][p] = s.choice(bad)
            d["pin"] = p
        else:
            # an output bit nobody drives
            name = netlist.Sim(nl).out_names()[s.raw(nl["ports"]["o"])]
            if nl["ports"].get("terminate") and s.bool(1, 4):
                name = "terminate"
            drv = [i for i, a in enumerate(nl["assigns"]) if netlist.canon(nl, a[0]) == name]
            if drv:
                if s.bool():
                    nl["assigns"][drv[0]][1] = "nowhere"
                else:
                    del nl["assigns"][drv[0]]
            else:
                for t, p in nl["cells"]:
                    for x in ("Z", "Q", "F", "SUM", "COUT"):
                        if p.get(x) and netlist.canon(nl, p[x]) == name:
                            p[x] = "elsewhere"
            for a in nl["assigns"]:
                if netlist.canon(nl, a[1]) == name:
                    a[1] = "1'b0"
            for t, p in nl["cells"]:
                for x in p:
                    if x not in ("Z", "Q", "F", "SUM", "COUT") and netlist.canon(nl, p[x]) == name:
                        p[x] = "1'b0"
    elif kind == "missing pin":
        t = s.choice(list(netlist.TWO) + ["IV", "DFF", "MUX", "HADDER", "FADDER"] * 2)
        net = lambda: s.choice(["1'b0", "1'b1"])
        ins = dict(IV=["A"], DFF=["D", "I"], MUX=["IN0", "IN1", "SEL"], HADDER=["IN0", "IN1"], FADDER=["IN0", "IN1", "CIN"]).get(t, ["A", "B"])
        outs = dict(DFF=["Q"], MUX=["F"], HADDER=["SUM", "COUT"], FADDER=["SUM", "COUT"]).get(t, ["Z"])
        drop = s.choice(ins + outs[:1])
        for m in range(1 + s.raw(2)):       # a complete cell of the kind, and one that lacks a pin
            pins = {x: net() for x in ins}
            pins.update({x: "mp%d%s" % (m, x) for x in outs})
            nl["cells"].append([t, pins])
        if drop in outs:
            for x in outs:
                del pins[x]
        else:
            del pins[drop]
        d["pin"] = t + "." + drop
    elif kind == "unknown cell":
        # replace the type of a cell whose output something reads
        OUT = ("Z", "Q", "F", "SUM", "COUT")
        ports = set(netlist.Sim(nl).out_names()) | {"terminate"}
        read = ports | {netlist.canon(nl, r) for l, r in nl["assigns"] if netlist.canon(nl, l) in ports}
        cand = []
        for k, (t, p) in enumerate(nl["cells"]):
            # read by another cell, an assign or a port
            rd = read | {netlist.canon(nl, n) for j, (t2, p2) in enumerate(nl["cells"]) if j != k for q, n in p2.items() if q not in OUT}
            if any(p.get(x) and netlist.canon(nl, p[x]) in rd for x in OUT):
                cand.append(k)
        if not cand:
            nl["cells"].append(["BUFX2", {"A": "1'b1", "Z": "ukn"}])
            nl["cells"].append(["IV", {"A": "ukn", "Z": "ukn2"}])
        else:
            k = cand[s.raw(len(cand))]
            nl["cells"][k][0] = s.choice(["BUFX2", "AOI21", "NAND3", "LATCH", "and", "AND2", "FOO"])
    nl = netlist.shuffle(s, nl)
    v = netlist.verilog(s, nl, endmodule=True)
    if kind == "unknown port":
        i = v.index("\n", v.index(");") if ");" in v else 0)
        v = v[:i] + s.choice(["\n  input x;", "\n  input [3:0] g_inputs;", "\n  output q;", "\n  output [7:0] o1;", "\n  output [1:0] terminate;", "\n input [4:0] G_init;",
                                 "\n  input clk2;", "\n  input rst_n;", "\n  input [1:0] p_input_2;", "\n  input clock;", "\n  input e_ini;", "\n  input init;",
                                 "\n  output terminated;", "\n  output [3:0] out;", "\n  output o_valid;", "\n  input g;", "\n  output [7:0] O;"]) + v[i:]
    if kind == "truncated":
        cut = v.index("endmodule")
        k = s.raw(3)
        v = v[:cut + s.raw(9)] if k == 0 else v[:s.raw(cut + 1)] if k == 1 else v[:cut]
    d["v"] = v
    d["path"] = s.raw(3)
    return d


def check20(ctx, d):
    ctx.label(d["kind"])
    ctx.nontrivial()
    if d["kind"] == "missing file":
        out = ctx.path("out.scd")
        p = [ctx.path("nope.v"), ctx.path("no/dir/nope.v"), ""][d["path"]]
        for kind in ("verilog", "bris"):
            r = ctx.worker("opt")("trans", kind=kind, **{"in": p, "map": ctx.path("out.map"), "out": out})
            if r["r.st"] != "ok":
                raise Fail("status", "missing file: the translator ended with " + r["r.st"])
            if r["r.rc"] == "0":
                raise Fail("accepted", "the translator reports success for a missing %s file" % kind)
        return
    if translate(ctx, d["v"], want=None):
        raise Fail("accepted", "the translator reports success for a netlist with: " + d["kind"])


def g20b(s):
    """Bristol files with a loop or an undriven wire"""
    b = gen_bristol(s, max_gates=15)
    n = b["n1"] + b["n2"]
    if s.bool():
        kind = "undriven"
        # drop a gate whose output is read or is an output wire
        used = {x for g in b["gates"] for x in g[1]} | set(range(b["nw"] - b["no"], b["nw"]))
        cand = [i for i, g in enumerate(b["gates"]) if g[2] in used]
        k = cand[s.raw(len(cand))]
        b["order"] = [i for i in b["order"] if i != k]
        t = "%d %d\n%d %d %d\n\n" % (len(b["gates"]) - 1, b["nw"], b["n1"], b["n2"], b["no"])
        if len(b["gates"]) < 2:
            b["order"] = [0]
            b["gates"][0][1] = [b["nw"] - 1] * len(b["gates"][0][1])
            kind = "loop"
            t = "1 %d\n%d %d %d\n\n" % (b["nw"], b["n1"], b["n2"], b["no"])
    else:
        kind = "loop"
        k = s.raw(len(b["gates"]))
        # make gate k read itself or a later gate that depends on it
        dep = {b["gates"][k][2]}
        for g in b["gates"][k + 1:]:
            if any(x in dep for x in g[1]):
                dep.add(g[2])
        dep = sorted(dep)
        b["gates"][k][1][s.raw(len(b["gates"][k][1]))] = dep[s.raw(len(dep))]
        t = "%d %d\n%d %d %d\n\n" % (len(b["gates"]), b["nw"], b["n1"], b["n2"], b["no"])
    for i in b["order"]:
        ty, ins, o = b["gates"][i]
        t += "%d 1 %s %d %s\n" % (len(ins), " ".join(map(str, ins)), o, ty)
    return dict(kind=kind, t=t)


def check20b(ctx, d):
    ctx.label("bristol " + d["kind"])
    ctx.nontrivial()
    if translate(ctx, d["t"], "bris", want=None):
        raise Fail("accepted", "the translator reports success for a Bristol circuit with: " + d["kind"])


def C20():
    return Prop("C20", "Valid random netlists broken in one way: ring of cells, undriven pin/output/terminate, unknown cell type whose output is read, missing "
                "file, text cut before endmodule; non-trivial: every case.",
                [Suite("verilog", g20, check20, 15000, 250000, 3), Suite("bristol", g20b, check20b, 3000, 50000, 1), hist("bad", 2500, 60000)], W, SASSUME)


# --------------------------------------------------------------------- C21
def g21(s, n=0):
    big = s.bool(1, 20)
    hi = 400 if big else 12
    sz = [s.size(hi) for _ in range(6)]
    nd, no, ng = s.size(hi), s.size(hi), s.size(3 * hi)
    if n:
        k = s.raw(3)
        sz[s.raw(6)] += n
        nd, no, ng = (n, no, ng) if k == 0 else (nd, n, ng) if k == 1 else (nd, no, n)
    nw = sum(sz) + nd + ng

    def wire():
        k = s.raw(8)
        return -2 if k == 0 else -3 if k == 1 else s.raw(max(1, nw)) if k < 7 else s.raw(1 << 40)
    gates = []
    for _ in range(ng):
        t = s.choice(model.GATES)
        gates.append([wire(), -1 if t == model.NOT else wire(), t])
    return dict(sz=sz, gates=gates, outs=[s.raw(max(1, nw)) if s.raw(6) else s.raw(1 << 40) for _ in range(no)],
                dffs=[[wire(), wire()] for _ in range(nd)], term=s.raw(1 << 40) if s.raw(8) == 0 else s.raw(max(1, nw)) if s.bool() else 0, order=s.perm(ng) if s.bool() else list(range(ng)), ws=s.raw(3), cut=s.raw(1 << 20))


g21h, e21h = huge(g21)
g21m, _ = huge(g21, lambda s: lg(s, 40000, 100))


def read_back(ctx, path):
    r = ctx.worker("opt")("readscd", scd=path)
    if r["r.st"] != "ok":
        raise Fail("status", "reading ended with " + r["r.st"])
    return r


def same(d, r, gates, what):
    lo = sum(d["sz"]) + len(d["dffs"])
    exp = dict(head=" ".join(map(str, d["sz"] + [len(d["dffs"]), len(d["outs"]), d["term"], len(gates)])),
               gates="".join("%d,%d,%d,%d " % (a, b, t, lo + i) for i, (a, b, t) in enumerate(gates)),
               outputs="".join("%d " % o for o in d["outs"]), dffs="".join("%d,%d " % (a, b) for a, b in d["dffs"]))
    for k, v in exp.items():
        if r["r." + k] != v:
            raise Fail("content", "%s: %s read as %s, written as %s" % (what, k, r["r." + k][:300], v[:300]))


def check21(ctx, d):
    d = e21h(d)
    if d["gates"]:
        ctx.nontrivial()
    p = ctx.path("w.scd")
    # writing
    r = ctx.worker("opt")("writescd", scd=p, head=" ".join(map(str, d["sz"] + [len(d["dffs"]), len(d["outs"]), d["term"], len(d["gates"])])),
                          in0=" ".join(str(g[0]) for g in d["gates"]), in1=" ".join(str(g[1]) for g in d["gates"]),
                          type=" ".join(str(g[2]) for g in d["gates"]), order=" ".join(map(str, d["order"])),
                          outputs=" ".join(map(str, d["outs"])), D=" ".join(str(x[0]) for x in d["dffs"]), I=" ".join(str(x[1]) for x in d["dffs"]))
    if r["r.st"] != "ok" or r["r.rc"] != "0":
        raise Fail("write", "writing ended with %s, status %s" % (r["r.st"], r.get("r.rc")))
    with open(p) as f:
        text = f.read()
    gates = [d["gates"][i] for i in d["order"]]
    c = Circ.parse(text)
    if (c.sz, [list(g) for g in c.gates], c.outs, [list(x) for x in c.dffs], c.term) != (d["sz"], gates, d["outs"], d["dffs"], d["term"]):
        raise Fail("written", "the file does not contain the circuit that was written")
    r = read_back(ctx, p)
    if r["r.rc"] != "0":
        raise Fail("read", "a file that was just written cannot be read")
    same(d, r, gates, "write and read")
    # a file written by hand, other white space
    own = Circ(d["sz"], d["dffs"], gates, d["outs"], d["term"]).text()
    if d["ws"] == 1:
        own = own.replace(" ", "\n")
    elif d["ws"] == 2:
        own = own.replace(" ", "  ").rstrip()
    r = read_back(ctx, ctx.write("h.scd", own))
    if r["r.rc"] != "0":
        raise Fail("read", "a well-formed file cannot be read")
    same(d, r, gates, "read")
    # a file that ends early
    own = Circ(d["sz"], d["dffs"], gates, d["outs"], d["term"]).text()
    ntok = len(own.split())
    cut = own[:d["cut"] % (len(own) + 1)]
    if len(cut.split()) < ntok:
        ctx.label("cut")
        r = read_back(ctx, ctx.write("t.scd", cut))
        if r["r.rc"] == "0":
            raise Fail("truncated", "a file with %d of %d numbers is read successfully" % (len(cut.split()), ntok))
    r = read_back(ctx, ctx.path("not-there.scd"))
    if r["r.rc"] == "0":
        raise Fail("missing", "a missing file is read successfully")
    r = ctx.worker("opt")("writescd", scd=ctx.path("no/dir/x.scd"), head="0 0 0 0 1 0 0 1 0 0", outputs="0")
    if r["r.st"] != "ok" or r["r.rc"] == "0":
        raise Fail("missing", "writing to a directory that does not exist: %s %s" % (r["r.st"], r.get("r.rc")))


def C21():
    return Prop("C21", "Random circuit records (any wire numbers, gate order permutation, counts incl. zero) are written, parsed independently, read back, "
                "re-spaced and truncated at a random character; non-trivial: the circuit has gates.",
                [Suite("roundtrip", g21, check21, 2500, 250000, 1), Suite("mid", g21m, check21, 100, 8000, 1), Suite("huge", g21h, check21, 6, 300, 1)], W,
                ["A cut inside the last number cannot be told from a shorter number and is not generated."])


# --------------------------------------------------------------------- C22
def g22(s):
    k = s.raw(12)
    c = gen_circ(s, max_port=60 if k == 0 else 8, max_gates=300 if k == 0 else 30, max_dff=40 if k == 0 else 8, term=True,
                 max_out=100 if k == 0 else 16, special=s.bool(1, 4))
    cyc = s.weighted([(1, 2), (2, 3), (3, 3), (6, 2), (30, 1)])
    term = s.int(1, 3) if c.term and s.bool() else 0
    return mk(s, c, cyc, term=term, mode=s.raw(3))


def g22h(s):
    """many gates, or many cycles"""
    if s.bool():
        c = model.gen_big(s, True)
        return mk(s, c, s.int(1, 3), mode=s.raw(3))
    c = gen_circ(s, max_port=3, max_gates=10, max_dff=6, max_out=6, term=True)
    cyc = s.weighted([(257, 6), (700, 6), (5000, 2), (66000, 1)]) + s.raw(50)
    return mk(s, c, cyc, term=s.raw(4) if c.term else 0, mode=s.raw(3))


def g22m(s):
    c = model.gen_mid(s, True, s.bool())
    return mk(s, c, model.cyc_for(s, c, 200000, 300), term=lg(s, 400) if c.term and s.bool() else 0, mode=s.raw(3))


def check22(ctx, d):
    c = Circ.of(d["c"])
    exp = ref(d)
    if d["cycles"] > 1 and c.dffs and c.gates:
        ctx.nontrivial()
    ctx.label("mode%d" % d["mode"], "stops early" if len(exp) < d["cycles"] else "all cycles")
    r = plain(ctx, d)
    got = gcrun.parse(r["r.out"])
    want = gcrun.render(exp, len(c.outs), d["mode"])
    if got != want:
        raise Fail("output", "plaintext evaluator printed %r, the simulation gives %s" % (r["r.out"], [hexs(x) for x in want]))


def C22():
    return Prop("C22", "Random circuits x cycles x termination x modes in the plaintext evaluator against the reference simulation; non-trivial: gates, "
                "flip-flops and several cycles.", [Suite("plain", g22, check22, 6000, 500000, 1), Suite("huge", g22h, check22, 24, 1500, 1),
                 Suite("mid", g22m, check22, 500, 40000, 1), hist("plain", 3000, 60000)], W,
                ["The reference simulator in lib/model.py states the circuit semantics.", "The map file that the evaluator wants next to the SCD file exists."])


# --------------------------------------------------------------------- C23
def g23(s, n=0):
    d = g17(s, n)
    if 0 < n and d["nl"]["ports"].get("p_input", 0) + d["nl"]["ports"].get("g_input", 0) + d["nl"]["ports"].get("e_input", 0) < 60 and len(d["nl"]["cells"]) < 1000 and s.bool():
        d["cycles"] = lg(s, 60, 1)
        d["ini"], d["inp"] = nl_vals(s, d["nl"]["ports"], d["cycles"])
    d["period"] = s.raw(3) if d["nl"]["ports"].get("terminate") else 0
    return d


def g23l(s):
    """hundreds of cycles, so that the cycle numbers of the trace need more than a byte"""
    d = g17(s)
    P = d["nl"]["ports"]
    d["cycles"] = s.choice([127, 255, 256, 257, 300, 500]) + s.raw(300)
    d["ini"], d["inp"] = nl_vals(s, P, d["cycles"])
    d["period"] = s.choice([0, 0, 1, 2, 7, 100]) if P.get("terminate") else 0
    return d


g23h, e23h = huge(g23, lambda s: s.choice([33000, 66000]) + s.raw(500))
g23m, _ = middling(g23)


def check23(ctx, d):
    d = e23h(d)
    nl = d["nl"]
    c, t = translate(ctx, d["v"])
    with open(ctx.path("out.scd.map")) as f:
        ents = [l.split() for l in f.read().split("\n") if l]
    sim = Sim(nl)
    names = [p[x] for ty, p in nl["cells"] for x in ("Z", "Q", "F", "SUM", "COUT") if p.get(x)]
    if len(names) > 2:
        ctx.nontrivial()
    if any(len(e) != 2 or not e[1].lstrip("-").isdigit() for e in ents):
        raise Fail("map", "map file has the line %r" % [e for e in ents if len(e) != 2][:1])
    mp = {}
    for n, i in ents:
        mp.setdefault(n, int(i))
    missing = [n for n in names if n not in mp]
    if missing:
        raise Fail("map", "the map file does not name %s" % missing[0])
    if nl["ports"].get("terminate"):
        if "terminate" not in mp:
            raise Fail("map", "the map file does not name the terminate wire")
        if any(int(i) != c.term for n, i in ents if n == "terminate"):
            raise Fail("map", "the map file gives another terminate wire than the circuit")
    ini, inp = ival(d)
    nets = []
    exp = sim.run(ini, inp, d["cycles"], d["period"], nets=nets)
    tr = []
    c.run(ini, inp, d["cycles"], d["period"], tr)
    known = set(sim.drv)
    for n, i in ents:
        k = netlist.canon(nl, n)
        if k not in known:
            continue        # helper wires of composite cells
        i = int(i)
        if not 0 <= i < c.nwires:
            raise Fail("map", "%s is mapped to wire %d of %d" % (n, i, c.nwires))
        for cy in range(len(exp)):
            if tr[cy][i] != nets[cy][k]:
                raise Fail("map", "cycle %d: %s is %d in the netlist, but its wire %d carries %d" % (cy, n, nets[cy][k], i, tr[cy][i]))
    # trace
    csv = ctx.path("out.scd.csv")
    if os.path.exists(csv):
        os.unlink(csv)
    r = ctx.worker("opt")("plain", scd=ctx.path("out.scd"), pinit=d["ini"][0], ginit=d["ini"][1], einit=d["ini"][2], pinput=d["inp"][0],
                          ginput=d["inp"][1], einput=d["inp"][2], cycles=d["cycles"], term=d["period"], mode=0)
    if r["r.st"] != "ok" or r["r.rc"] != "0":
        raise Fail("plain-status", "plaintext evaluation ended with %s %s" % (r["r.st"], r.get("r.rc")))
    with open(csv) as f:
        lines = [l for l in f.read().split("\n") if l.strip()]
    stopped = bool(d["period"]) and len(exp) <= d["cycles"] and sim_stop(nl, nets, exp, d["period"])
    full = len(exp) - (1 if stopped else 0)
    ctx.label("stops early" if stopped else "all cycles")
    if full == 0 and not lines:
        return
    cols = [e for e in ents if e[0] != "terminate"]
    if lines:
        h = lines[0].replace("\t", " ").replace(",", " ").split()
        if h[1:] != [e[0] for e in cols] and h[1:] != [e[0] for e in ents]:
            raise Fail("trace", "the header of the trace names %s, the map %s" % (h[1:][:8], [e[0] for e in cols][:8]))
        if h[1:] == [e[0] for e in ents]:
            cols = ents
    if not full <= len(lines) - 1 <= len(exp):
        raise Fail("trace", "%d rows for %d executed cycles" % (len(lines) - 1, len(exp)))
    for cy, l in enumerate(lines[1:]):
        v = [x.strip() for x in l.split(",") if x.strip() != ""]
        want = [str(cy)] + [str(tr[cy][int(i)]) for _, i in cols]
        if v != want:
            raise Fail("trace", "row %d is %s, the signals are %s" % (cy, v[:12], want[:12]))


def sim_stop(nl, nets, exp, period):
    last = len(exp) - 1
    return last % period == 0 and nets[last].get("terminate") == 1


def C23():
    return Prop("C23", "Random netlists: every name of the map file must carry the netlist's value in every cycle on the wire it gives, and the CSV trace must "
                "show those values; non-trivial: more than two mapped names.",
                [Suite("map", g23, check23, 2500, 200000, 1), Suite("mid", g23m, deep(check23), 250, 20000, 1), Suite("long", g23l, check23, 60, 6000, 1),
                 Suite("huge", g23h, deep(check23), 4, 100, 1)], W,
                SASSUME + ["The trace row of the cycle in which the circuit terminates may be absent."])
