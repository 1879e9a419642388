"""Structural Verilog and Bristol netlists: generators and reference semantics,
independent of the translator.

A netlist is a dict: ports {name: width}, cells [[type, {pin: net}]], assigns [[left, right]].
"""
import model

PORTS = ["p_init", "g_init", "e_init", "p_input", "g_input", "e_input"]
TWO = {"AND": model.AND, "ANDN": model.ANDN, "NAND": model.NAND, "NANDN": model.NANDN, "OR": model.OR, "ORN": model.ORN,
       "NOR": model.NOR, "NORN": model.NORN, "XOR": model.XOR, "XNOR": model.XNOR}


def canon(nl, net):
    """name[0] of a one-bit port is the port"""
    if net.endswith("[0]") and nl["ports"].get(net[:-3]) == 1:
        return net[:-3]
    return net


class Sim:
    def __init__(self, nl):
        self.nl = nl
        self.drv = {}
        for k, (ty, pins) in enumerate(nl["cells"]):
            for pin in ("Z", "Q", "F", "SUM", "COUT"):
                if pins.get(pin):
                    self.drv[canon(nl, pins[pin])] = ("cell", k, pin)
        for l, r in nl["assigns"]:
            self.drv[canon(nl, l)] = ("assign", r)
        self.dffs = [(canon(nl, p["Q"]), p["D"], p["I"]) for ty, p in nl["cells"] if ty == "DFF"]

    def bit(self, port, v, width, net):
        if net == port:
            return v & 1
        if net.startswith(port + "["):
            i = int(net[len(port) + 1:-1])
            if i >= width:
                raise ValueError("undriven " + net)
            return (v >> i) & 1
        return None

    def value(self, net, env, memo):
        net = canon(self.nl, net)
        if net in memo:
            v = memo[net]
            if v is None:
                raise ValueError("combinational loop at " + net)
            return v
        if net == "1'b0": return 0
        if net == "1'b1": return 1
        memo[net] = None
        v = None
        d = self.drv.get(net)
        if d is None:
            for port, (val, width) in env.items():
                b = self.bit(port, val, width, net)
                if b is not None:
                    v = b
                    break
            else:
                raise ValueError("undriven " + net)
        elif d[0] == "assign":
            v = self.value(d[1], env, memo)
        else:
            ty, p = self.nl["cells"][d[1]]
            g = lambda pin: self.value(p[pin], env, memo)
            if ty in TWO:
                v = model.op(TWO[ty], g("A"), g("B"))
            elif ty == "IV":
                v = 1 - g("A")
            elif ty == "MUX":
                v = g("IN1") if g("SEL") else g("IN0")
            elif ty == "HADDER":
                s = g("IN0") + g("IN1")
                v = s & 1 if d[2] == "SUM" else s >> 1
            elif ty == "FADDER":
                s = g("IN0") + g("IN1") + g("CIN")
                v = s & 1 if d[2] == "SUM" else s >> 1
            else:
                raise ValueError("cell " + ty)
        memo[net] = v
        return v

    def out_names(self):
        n = self.nl["ports"]["o"]
        return ["o"] if n == 1 else ["o[%d]" % i for i in range(n)]

    def run(self, ini, inp, cycles, period=0, nets=None):
        """per-cycle outputs; nets: list that receives per-cycle dicts of all nets"""
        P = self.nl["ports"]
        ienv = {p: (ini[k], P.get(p, 0)) for k, p in enumerate(PORTS[:3]) if P.get(p)}
        state = {}
        for q, d, i in self.dffs:
            state[q] = self.value(i, ienv, {})
        outs = []
        for c in range(cycles):
            env = {}
            for k, p in enumerate(PORTS[3:]):
                w = P.get(p, 0)
                if w:
                    env[p] = ((inp[k] >> (c * w)) & ((1 << w) - 1), w)
            memo = dict(state)
            o = 0
            for i, n in enumerate(self.out_names()):
                o |= self.value(n, env, memo) << i
            outs.append(o)
            if nets is not None:
                for n in list(self.drv):
                    self.value(n, env, memo)
                nets.append(dict(memo))
            if period and P.get("terminate") and c % period == 0 and self.value("terminate", env, memo):
                break
            state = {q: self.value(d, env, memo) for q, d, i in self.dffs}
        return outs


def gen_netlist(s, max_port=8, max_cells=30, max_dff=6, max_out=12, seq=True, term=True, min_cells=0, win=6, wide=None):
    P = {}
    seq = seq and s.bool(2, 3)
    for p in PORTS[:3]:
        if seq and s.bool(1, 2):
            P[p] = 1 + s.size(max_port - 1)
    for p in PORTS[3:]:
        if s.bool(3, 4):
            P[p] = 1 + s.size(max_port - 1)
    has_term = term and s.bool(1, 3)
    if has_term and not any(P.get(p) for p in PORTS):
        P["g_input"] = 1        # an SCD file cannot name wire 0 as its terminate wire
    P["o"] = 1 + s.size(max_out - 1)
    if wide and wide[0] != "dff" and (seq or not wide[0].endswith("init")):
        P[wide[0]] = P.get(wide[0], 0) + wide[1]
    cells, assigns = [], []
    style = s.raw(7)
    perm = s.raw(1000)
    words = dictionary() if style == 6 else ()

    def wname(k):
        if style == 1:
            return "w[%d]" % k
        if style == 2:
            return "U%d_n" % ((k * 7919 + perm) % 100003)
        if style == 3:
            return ("n%d", "w[%d]", "sum_%d_", "N%d")[k % 4] % k
        if style == 4:
            return ("partial_result_of_stage[%d]", "\\blk/u1/n%d", "o_%d", "g_input_%d", "dff_q_reg_%d__bit", "terminate%d", "_%d_")[(k + perm) % 7] % k
        if style == 6:      # with a word of the translator in it
            w = words[(k * 31 + perm) % len(words)]
            return ("%s_n%d", "n%d_%s", "U%d_%s_Z", "%s%dx")[k % 4] % ((k, w) if k % 4 in (1, 2) else (w, k))
        return "n%d" % k

    def pbit(p):
        w = P[p]
        if w == 1:
            return p if s.bool(2, 3) else p + "[0]"
        return "%s[%d]" % (p, s.raw(w))
    inputs = [p for p in PORTS[3:] if P.get(p)]
    inits = [p for p in PORTS[:3] if P.get(p)]
    nd = s.size(max_dff) if seq else 0
    if wide and wide[0] == "dff" and seq:
        nd += wide[1]
    # output bits that a cell drives directly
    names = 0

    def fresh():
        nonlocal names
        names += 1
        return wname(names)
    free_o = ["o"] if P["o"] == 1 and s.bool(2, 3) else ["o[%d]" % i for i in range(P["o"])]
    direct = list(free_o) + (["terminate"] if has_term else [])
    dq = [direct.pop(0) if direct and direct[0] != "terminate" and s.bool(1, 6) else fresh() for _ in range(nd)]
    sig = list(dq)          # nets that may be read

    def src():
        k = s.raw(14)
        if k == 0:
            return "1'b0" if s.bool() else "1'b1"
        if k < 6 and inputs:
            return pbit(s.choice(inputs))
        if sig:
            if k < 11:
                return sig[len(sig) - 1 - s.raw(min(len(sig), win))]
            return s.choice(sig)
        if inputs:
            return pbit(s.choice(inputs))
        return "1'b1"

    def dst():
        if direct and s.bool(1, 6):
            return direct.pop(s.raw(len(direct)))
        return fresh()
    nc = s.size(max_cells) if not min_cells else s.int(min_cells, max_cells)
    for _ in range(nc):
        k = s.raw(20)
        if k < 12:
            ty = s.choice(list(TWO))
            a, b = src(), src()
            z = dst()
            cells.append([ty, {"A": a, "B": b, "Z": z}])
            sig.append(z)
        elif k < 14:
            a = src()
            z = dst()
            cells.append(["IV", {"A": a, "Z": z}])
            sig.append(z)
        elif k < 16:
            a, b, c = src(), src(), src()
            z = dst()
            cells.append(["MUX", {"IN0": a, "IN1": b, "SEL": c, "F": z}])
            sig.append(z)
        elif k < 19:
            full = s.bool()
            pins = {"IN0": src(), "IN1": src()}
            if full:
                pins["CIN"] = src()
            w = s.raw(4)
            new = []
            if w != 1:
                pins["SUM"] = dst()
                new.append(pins["SUM"])
            if w != 2:
                pins["COUT"] = dst()
                new.append(pins["COUT"])
            cells.append(["FADDER" if full else "HADDER", pins])
            sig += new
        else:
            a = src()
            z = dst()
            if z == "terminate":        # wire 0 cannot be a terminate signal; a cell drives it
                cells.append(["IV", {"A": a, "Z": z}])
            else:
                assigns.append([z, a])
            sig.append(z)
    for q in dq:
        i = ("1'b0" if s.bool() else "1'b1") if not inits or s.bool(1, 4) else pbit(s.choice(inits))
        cells.append(["DFF", {"D": q if s.bool(1, 12) else src(), "I": i, "Q": q}])
    for n in direct:
        if n == "terminate":
            cells.append([s.choice(list(TWO)), {"A": src(), "B": src(), "Z": n}])
        else:
            assigns.append([n, src()])
    if has_term:
        P["terminate"] = 1
    return dict(ports=P, cells=cells, assigns=assigns)


def shuffle(s, nl):
    """same netlist, other order of instances and assigns"""
    c = [nl["cells"][i] for i in s.perm(len(nl["cells"]))]
    a = [nl["assigns"][i] for i in s.perm(len(nl["assigns"]))]
    return dict(ports=nl["ports"], cells=c, assigns=a)


_WORDS = []


def dictionary():
    """words in the translator's string literals, as a fuzzer's dictionary: parts of names, never a whole name"""
    if not _WORDS:
        import glob, os, re
        repo = os.environ.get("VP_REPO", "/repo")
        w = {"MUX_MID_1_", "FADDER_MID_1_", "AND", "DFF", "assign", "CONST", "input", "terminate"}
        for p in sorted(glob.glob(os.path.join(repo, "scd", "*.cpp")) + glob.glob(os.path.join(repo, "scd", "*.h"))):
            with open(p, errors="replace") as f:
                for l in re.findall(r'"([^"\\\n]{2,24})"', f.read()):
                    if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", l):
                        w.add(l)
        _WORDS.extend(sorted(w)[:400])
    return _WORDS


def rename(s, nl):
    """renames internal wires"""
    m = {}
    base = s.raw(1000)

    def f(n):
        r = n.split("[")[0]
        if r in nl["ports"] or n in ("1'b0", "1'b1") or n == "":
            return n
        if n not in m:
            m[n] = "x%dz%d" % (base, len(m)) if base % 2 else "bus[%d]" % len(m)
        return m[n]
    return dict(ports=nl["ports"], cells=[[t, {k: f(v) for k, v in p.items()}] for t, p in nl["cells"]],
                assigns=[[f(l), f(r)] for l, r in nl["assigns"]])


def verilog(s, nl, endmodule=True):
    """prints a netlist in the style of a synthesis tool, with varying layout"""
    P = nl["ports"]
    tight = s.raw(3)
    lines = []
    names = ["clk", "rst"] + [p for p in PORTS if P.get(p)] + ["o"] + (["terminate"] if P.get("terminate") else [])
    lines.append("module top%d ( %s );" % (s.raw(100), ", ".join(names)))

    def rng(w, p):
        if w == 1:
            return "" if p == "terminate" or s.bool(2, 3) else "[0:0] "
        return "[%d:0] " % (w - 1)
    decl = []
    join = s.bool(1, 3)      # several names in one declaration
    names = {}
    for p in PORTS:
        if P.get(p):
            r = rng(P[p], p)
            if join and r in names and s.bool(3, 4):
                names[r].append(p)
            else:
                names[r] = [p]
                decl.append(("input", r, names[r]))
    if join and "" in names and s.bool():
        k = names[""]
        k[:] = ["clk"] + k + ["rst"] if s.bool() else k + ["clk", "rst"]
    else:
        decl.append(("input", "", ["clk", "rst"]))
    r = rng(P["o"], "o")
    decl.append(("output", r, ["o"]))
    if P.get("terminate"):
        if join and r == "" and s.bool():
            decl[-1][2].insert(s.raw(2), "terminate")
        else:
            decl.append(("output", "", ["terminate"]))
    decl = ["  %s %s%s;" % (x, y, ", ".join(z)) for x, y, z in decl]
    lines += [decl[i] for i in s.perm(len(decl))]
    def esc(n):
        if n.startswith("\\"):
            return n + " "
        return n.replace("[", " [") if gap and (gap == 1 or s.bool()) else n
    gap = s.raw(8) if s.bool() else 0      # 1: always a space before an index (in pins), 2: sometimes
    gap = gap if gap < 3 else 0
    internal = sorted({n for n in [x for _, p in nl["cells"] for x in p.values()] + [x for a in nl["assigns"] for x in a] if n and n.split("[")[0] not in P and not n.startswith("1'b")})
    plain = [n for n in internal if "[" not in n]
    for i in range(0, len(plain), 8):
        lines.append("  wire   %s;" % ", ".join(esc(n) for n in plain[i:i + 8]))
    for b in sorted({n.split("[")[0] for n in internal if "[" in n}):
        lines.append("  wire   [%d:0] %s;" % (max(int(n.split("[")[1][:-1]) for n in internal if n.startswith(b + "[")), b))
    for l, r in nl["assigns"]:
        lines.append("  assign %s = %s;" % tuple(n + " " if n.startswith("\\") else n for n in (l, r)))
    for k, (ty, pins) in enumerate(nl["cells"]):
        ps = [".%s(%s)" % (p, esc(n)) if tight == 0 else ".%s( %s )" % (p, esc(n)) for p, n in pins.items()]
        if ty == "DFF":
            ps += [".CLK(clk)", ".RST(rst)"]
        if ty in ("HADDER", "FADDER") and s.bool(1, 4):
            for p in ("SUM", "COUT"):
                if p not in pins:
                    ps.append(".%s()" % p)
        if tight:
            ps = [ps[i] for i in s.perm(len(ps))]
        if tight == 2 and s.bool(1, 3):
            body = (",\n        ").join(ps)
        else:
            body = ", ".join(ps)
        lines.append("  %s %s%d ( %s );" % (ty, s.choice(["U", "g", "inst_"]), k, body))
    # assigns may stand between instances, too
    head = 1 + len(decl)
    if s.bool(1, 3):
        body = lines[head:]
        # keep wire declarations first
        w = [x for x in body if x.startswith("  wire")]
        o = [x for x in body if not x.startswith("  wire")]
        o = [o[i] for i in s.perm(len(o))]
        lines = lines[:head] + w + o
    if endmodule:
        lines.append("endmodule")
    k = s.raw(8)
    if k == 1:
        lines = HEADER + lines + [""]
    elif k == 2:        # several statements in a line, and statements over several lines
        sep = [s.choice(["\n", "\n", " ", "\t"]) for _ in range(17)]
        lines = [sep[i % 17].join(l.split()) for i, l in enumerate(lines)]
        out = ""
        for i, l in enumerate(lines):
            out += l + (" " if s.bool() and i + 2 < len(lines) else "\n")
        lines = [out]
    elif k == 3:
        return "\r\n".join(lines) + "\r\n"
    return "\n".join(lines) + ("\n" if s.bool(3, 4) else "")


HEADER = ["/////////////////////////////////////////////////////////////", "// Created by: Synopsys DC Ultra(TM) in wire load mode",
          "// Version   : H-2013.03-SP4", "// Date      : Tue Jul 28 13:21:47 2015", "/////////////////////////////////////////////////////////////", "", ""]


# ------------------------------------------------------------------- Bristol
def gen_bristol(s, max_in=10, max_gates=40, max_out=10, min_gates=0, win=8, wide=(0, 0)):
    n1, n2 = 1 + s.size(max_in - 1), 1 + s.size(max_in - 1)
    no = 1 + s.size(max_out - 1)
    n1, n2, no = (x + wide[1] * (wide[0] == k + 1) for k, x in enumerate((n1, n2, no)))
    ng = no + (s.size(max_gates) if not min_gates else s.int(min_gates, max_gates))
    base = n1 + n2
    gates = []
    for g in range(ng):
        hi = base + g

        def pick():
            return hi - 1 - s.raw(min(hi, win)) if s.bool() else s.raw(hi)
        t = s.choice(["XOR", "AND", "INV", "XOR", "AND"])
        gates.append([t, [pick()] if t == "INV" else [pick(), pick()], hi])
    return dict(n1=n1, n2=n2, no=no, nw=base + ng, gates=gates, order=topo_perm(s, gates, base) if not min_gates and s.bool(1, 3) else any_order(s, gates, base) if 0 < min_gates < 10000 and s.bool() else list(range(ng)))


def topo_perm(s, gates, base):
    done = set(range(base))
    left = list(range(len(gates)))
    res = []
    while left:
        ready = [i for i in left if all(x in done for x in gates[i][1])][:6]
        i = ready[s.raw(len(ready))]
        res.append(i)
        left.remove(i)
        done.add(gates[i][2])
    return res


def any_order(s, gates, base):
    """topological order in linear time"""
    need = [len({x for x in g[1] if x >= base}) for g in gates]
    readers = {}
    for i, g in enumerate(gates):
        for x in {x for x in g[1] if x >= base}:
            readers.setdefault(x, []).append(i)
    ready = [i for i, n in enumerate(need) if not n]
    res = []
    while ready:
        k = s.raw(len(ready))
        ready[k], ready[-1] = ready[-1], ready[k]
        i = ready.pop()
        res.append(i)
        for j in readers.get(gates[i][2], ()):
            need[j] -= 1
            if not need[j]:
                ready.append(j)
    return res


def bristol_text(s, b):
    t = "%d %d\n%d %d %d\n\n" % (len(b["gates"]), b["nw"], b["n1"], b["n2"], b["no"])
    for i in b["order"]:
        ty, ins, o = b["gates"][i]
        t += "%d 1 %s %d %s\n" % (len(ins), " ".join(map(str, ins)), o, ty)
    return t


def bristol_run(b, x, y):
    w = [(x >> i) & 1 for i in range(b["n1"])] + [(y >> i) & 1 for i in range(b["n2"])] + [0] * len(b["gates"])
    for ty, ins, o in b["gates"]:
        a = [w[i] for i in ins]
        w[o] = a[0] ^ a[1] if ty == "XOR" else a[0] & a[1] if ty == "AND" else 1 - a[0]
    return sum(w[b["nw"] - b["no"] + i] << i for i in range(b["no"]))
