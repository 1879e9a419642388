"""C32 (programs), C33 (example programs), C34 (memory)."""
import glob, hashlib, math, os, re, select, shutil, socket, subprocess, threading, time
import aes_ref, gcrun, netlist
from model import Circ, hexs
from netlist import PORTS, Sim, gen_netlist, gen_bristol
from pbt import Fail, Inconclusive, Prop, Suite

M32 = 0xFFFFFFFF

# ---------------------------------------------------------------- C33
# name -> (size of g, size of e, size of o)
A23 = {"aes": (4, 4, 4), "bubble-sort": (32, 32, 32), "compare": (32, 32, 1), "cordic": (1, 1, 2),
       "dijkstra": (64, 64, 8), "hamming": (1, 1, 1), "matrix-mul": (9, 9, 9), "mem-test": (1, 1, 64),
       "merge-sort": (32, 32, 32), "mul": (1, 1, 1), "sbox": (1, 1, 1), "sha3": (2, 2, 8), "sum": (32, 32, 32)}
PI2 = 1686629713      # pi/2 with 30 fraction bits
INF = 32767


def sgn(x):
    return x - (1 << 32) if x >> 31 else x


def le(ws):
    return b"".join(w.to_bytes(4, "little") for w in ws)


def words(b):
    return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]


def want33(name, g, e):
    """list of expected words, or a predicate"""
    x = [a ^ b for a, b in zip(g, e)]
    if name == "aes":
        return words(bytes(aes_ref.encrypt(list(le(g)), list(le(e)))))
    if name in ("bubble-sort", "merge-sort"):
        return [w & M32 for w in sorted(sgn(w) for w in x)]
    if name == "compare":
        return [int(list(reversed(g)) < list(reversed(e)))]
    if name == "dijkstra":
        d = [INF] * 8
        d[0] = 0
        for _ in range(8):
            for u in range(8):
                for v in range(8):
                    w = x[8 * u + v]
                    if w and d[u] + w < d[v]:
                        d[v] = d[u] + w
        return d
    if name == "hamming":
        return [bin(x[0]).count("1")]
    if name == "matrix-mul":
        return [sum(g[3 * i + k] * e[3 * k + j] for k in range(3)) & M32 for i in range(3) for j in range(3)]
    if name == "mem-test":
        return list(range(64))
    if name == "mul":
        return [g[0] * e[0] & M32]
    if name == "sbox":
        return [aes_ref.S[x[0] & 255]]
    if name == "sha3":
        return words(hashlib.sha3_256(le(g) + le(e)).digest())
    if name == "sum":
        s = int.from_bytes(le(g), "little") + int.from_bytes(le(e), "little")
        return words((s & ((1 << 1024) - 1)).to_bytes(128, "little"))
    raise KeyError(name)


def word(s):
    k = s.raw(8)
    if k < 4:
        return s.bits(32)
    if k == 4:
        return s.raw(4)
    if k == 5:
        return M32 - s.raw(4)
    if k == 6:
        return (0x80000000 + s.raw(4) - 2) & M32
    return s.raw(256)


def gen33(s, name=None):
    name = name or s.choice(sorted(A23))
    ng, ne, _ = A23[name]
    if name in ("bubble-sort", "merge-sort"):
        k = s.raw(6)
        if k == 0:
            a = [s.raw(3) for _ in range(32)]
        elif k == 1:
            a = sorted(word(s) for _ in range(32))
        elif k == 2:
            a = sorted((word(s) for _ in range(32)), reverse=True)
        elif k == 3:
            a = [word(s)] * 32
            a[s.raw(32)] = word(s)
        else:
            a = [word(s) for _ in range(32)]
        g = [s.raw(1 << 32) for _ in range(32)] if s.bool() else [0] * 32
        e = [p ^ q for p, q in zip(a, g)]
    elif name == "dijkstra":
        lim = s.choice([10, 100, 3000, 20000, 32767, 1 << 30])
        dens = s.int(1, 8)
        a = [(s.raw(lim) + 1 if s.raw(8) < dens else 0) for _ in range(64)]
        g = [s.raw(1 << 32) for _ in range(64)] if s.bool() else [0] * 64
        e = [p ^ q for p, q in zip(a, g)]
    elif name == "cordic":
        t = s.int(-PI2, PI2) if s.bool(3, 4) else s.choice([0, 1, -1, PI2, -PI2, PI2 // 2, -PI2 // 2, PI2 - 1, 1 - PI2])
        g = [s.raw(1 << 32)]
        e = [g[0] ^ (t & M32)]
    elif name in ("compare", "sum"):
        g = [word(s) for _ in range(32)]
        e = [word(s) for _ in range(32)]
        k = s.raw(6)
        if k == 0:
            e = list(g)
            if s.bool():
                e[s.raw(32)] = word(s)
        elif k == 1:                      # equal from some word upwards
            i = s.raw(33)
            e = e[:i] + g[i:]
        elif k == 2 and name == "sum":    # long carries
            e = [w ^ M32 for w in g]
            i = s.raw(32)
            e[i] = (e[i] + 1) & M32
    else:
        g = [word(s) for _ in range(ng)]
        e = [word(s) for _ in range(ne)]
    pad = [s.raw(1 << 32), s.raw(1 << 32)] if s.bool() else [0, 0]
    return dict(p=name, g=g, e=e, pad=pad)


def a23_run(ctx, name, g, e, variant="opt"):
    procs = ctx.__dict__.setdefault("a23_procs", {})
    p = procs.get((name, variant))
    if p is None:
        path = ctx.bins[(variant, "a23")].get(name)
        if path is None:
            raise Inconclusive("example program %s does not build" % name)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1")
        size = [str(x) for x in A23[name]] if variant == "asan" else []
        p = procs[name, variant] = subprocess.Popen([path] + size, stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=ctx.dir, env=env,
                                                    stderr=open(os.path.join(ctx.dir, "a23.err"), "w"))
    p.stdin.write((" ".join("%x" % w for w in g + e) + "\n").encode())
    p.stdin.flush()
    r = p.stdout.readline().decode().strip()
    if r == "timeout" or not r:
        procs.pop((name, variant)).kill()
        raise Inconclusive("%s: no result" % name)
    return r


def check33m(ctx, c):
    check33(ctx, c, "asan")


def check33(ctx, c, variant="opt"):
    name, g, e = c["p"], c["g"], c["e"]
    ng, ne, no = A23[name]
    ctx.label(name)
    ctx.nontrivial()
    r = a23_run(ctx, name, g + [c["pad"][0]] * (64 - ng), e + [c["pad"][1]] * (64 - ne), variant)
    if r == "crash" and variant == "asan":
        err = open(os.path.join(ctx.dir, "a23.err")).read()
        m = list(re.finditer(r"(runtime error: .*|ERROR: AddressSanitizer: .*)", err))
        raise Fail("memory", "%s: g=%s e=%s: %s" % (name, g, e, m[-1].group(1)[:200] if m else "the program crashed"))
    if r in ("crash", "overrun"):
        raise Fail(r, "%s: g=%s e=%s: %s" % (name, g, e, "the program crashed" if r == "crash" else "memory outside the output array changed"))
    o = [int(x, 16) for x in r.split()]
    if name == "cordic":
        t = sgn(g[0] ^ e[0]) / 2.0 ** 30
        for v, w, f in ((sgn(o[0]), math.sin(t), "sin"), (sgn(o[1]), math.cos(t), "cos")):
            d = min(abs(v - w * 2 ** 30), abs(v + 2 ** 32 - w * 2 ** 30), abs(v - 2 ** 32 - w * 2 ** 30))
            if d > TOL:
                raise Fail("value", "cordic: %s(%f) is %f instead of %f" % (f, t, v / 2.0 ** 30, w))
        return
    w = want33(name, g, e)
    if o[:no] != w:
        raise Fail("value", "%s: g=%s e=%s: output %s, expected %s" % (name, g, e, o[:no], w))


TOL = 64.0            # units of 2^-30: 32 rounding steps of at most one unit each, twice


def ex33():
    """all values of the S-box; every power of two through mul and hamming"""
    l = [dict(p="sbox", g=[i ^ 0x5A], e=[0x5A], pad=[0, 0]) for i in range(256)]
    l += [dict(p=p, g=[1 << i], e=[3], pad=[0, 0]) for p in ("mul", "hamming") for i in range(32)]
    l += [dict(p="mem-test", g=[0], e=[0], pad=[0, 0])]
    l += [dict(p="aes", g=words(bytes(range(16))), e=words(bytes.fromhex("00112233445566778899aabbccddeeff")), pad=[0, 0])]
    for i in range(32):                   # the deciding word, in both directions
        for a, b in ((0, 0x80000000), (M32, 1), (5, 6), (6, 5)):
            g, e = [7] * 32, [7] * 32
            g[i], e[i] = a, b
            l.append(dict(p="compare", g=g, e=e, pad=[0, 0]))
    return l


def C33():
    return Prop("C33", "Random and boundary inputs for all 13 example programs, each run in a process of its own, against independent reference implementations "
                "(FIPS-197 AES and S-box, hashlib SHA3-256, Python sort, shortest paths by relaxation, big-integer sum and comparison, sin/cos with tolerance 2^-24). "
                "Words past the documented array sizes are random. Memory suite: the same programs built with AddressSanitizer and UBSan. Exhaustive: the 256 S-box inputs, the deciding word of compare. Non-trivial: every case.",
                [Suite("programs", gen33, check33, 30000, 3000000, 3, exhaustive=ex33()), Suite("memory", gen33, check33m, 4000, 100000, 1)],
                [("opt", "a23"), ("asan", "a23")],
                ["The native branch of each program runs (the ARM one: C43).",
                 "CORDIC angles are within -pi/2..pi/2; edge weights are positive and below 2^30, distances of 32767 or more mean unreachable."])


# ---------------------------------------------------------------- C32
V2SCD, EVAL, TG, OTM = "v_2_scd_main.cpp", "scd_evaluator_main.cpp", "garbled_circuit_main.cpp", "OT_main.cpp"
CLI = [("rel", "cli")]


class Box:
    """A scratch directory for the programs of one case; logs land in it."""
    def __init__(self, ctx):
        self.ctx, self.d = ctx, os.path.join(ctx.dir, "cli")
        shutil.rmtree(self.d, ignore_errors=True)
        for x in ("", "a", "b", "t"):
            os.makedirs(os.path.join(self.d, x), exist_ok=True)
        self.live = []

    def path(self, n):
        return os.path.join(self.d, n)

    def write(self, n, t):
        with open(self.path(n), "w") as f:
            f.write(t)
        return self.path(n)

    def start(self, prog, args, who="t"):
        exe = self.path(who + "/prog_" + prog[:3])
        if not os.path.exists(exe):
            os.symlink(self.ctx.bins[("rel", "cli")][prog], exe)
        p = subprocess.Popen([exe] + args, cwd=self.path(who), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE)
        self.live.append(p)
        return p

    def end(self, p, t=40):
        try:
            o, e = p.communicate(timeout=t)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Inconclusive("a program did not end in time")
        return p.returncode, o.decode(errors="replace")

    def run(self, prog, args, who="t", t=40):
        return self.end(self.start(prog, args, who), t)

    def close(self):
        for p in self.live:
            if p.poll() is None:
                p.kill()
                p.communicate()
        shutil.rmtree(self.d, ignore_errors=True)


def listening(port):
    h = ":%04X " % port
    try:
        with open("/proc/net/tcp") as f:
            for l in f:
                x = l.split()
                if len(x) > 3 and x[1].endswith(h.strip()) and x[3] == "0A":
                    return True
    except OSError:
        time.sleep(0.3)
        return True
    return False


def pair(box, prog, argsA, argsB, popt, refused=False, t=40, span=0):
    """server and client over TCP; another port if the first ones are taken.
    refused: the server may end with an error instead of listening.
    Returns (rcA, outA, rcB, outB)."""
    a = None
    for k in range(2 if refused else 5):
        port = box.ctx.next_port(span if k < 3 else 0)
        if listening(port):
            continue
        a = box.start(prog, argsA + [popt, str(port)], "a")
        t0 = time.time()
        up = False
        while a.poll() is None and time.time() - t0 < 20:
            if listening(port):
                up = True
                break
            time.sleep(0.002)
        if up:
            b = box.start(prog, argsB + [popt, str(port)], "b")
            rb, ob = box.end(b, t)
            ra, oa = box.end(a, t)
            return ra, oa, rb, ob
        if a.poll() is None:
            a.kill()
            a.communicate()
            raise Inconclusive("the server does not listen")
    if a is None:
        raise Inconclusive("no free port")
    if refused:
        return a.returncode, "", 1, ""
    raise Fail("server", "the server program ended with status %s before listening, on five ports" % a.returncode)


def lines_of(s, v, width):
    """hexadecimal file: the first line is the least significant"""
    h = "%X" % v
    n = max(len(h), (width + 3) // 4)
    h = h.zfill(n)
    out = []
    top = s.choice([12, 12, 12, 70, 9000])
    while h:
        k = min(len(h), 1 + s.raw(top))
        out.append(h[-k:])
        h = h[:-k]
    return "\n".join(out) + ("\n" if s.bool() else "")


def spell(s, v, width):
    """how an input is given: (kind, text)"""
    k = s.raw(4)
    if k == 0:
        return ["file", lines_of(s, v, width)]
    h = "%X" % v
    if k == 1:
        h = h.lower()
    if k == 2:
        h = h.zfill((width + 3) // 4)
    return ["arg", h]


MODES = [["0", "consecutive"], ["1", "separated_clock"], ["2", "last_clock"]]


def g32(s):
    bris = s.bool(1, 5)
    cyc = 1
    d = dict()
    if bris:
        b = gen_bristol(s, max_gates=25)
        d["b"], d["text"] = b, netlist.bristol_text(s, b)
        P = {"g_input": b["n1"], "e_input": b["n2"], "o": b["no"]}
    else:
        nl = netlist.shuffle(s, gen_netlist(s, max_port=9, max_cells=25, max_dff=5, max_out=9))
        d["nl"], d["text"] = nl, netlist.verilog(s, nl)
        P = nl["ports"]
        cyc = s.weighted([(1, 10), (2, 10), (3, 10), (5, 5), (40, 1)])
    d["P"], d["cycles"] = P, cyc
    ini = [s.bits(P.get(p, 0)) for p in PORTS[:3]]
    inp = [s.bits(P.get(p, 0) * cyc) for p in PORTS[3:]]
    d["ini"], d["inp"] = [hexs(x) for x in ini], [hexs(x) for x in inp]
    d["args"] = {p: spell(s, v, P.get(p, 0) * (1 if i < 3 else cyc)) for i, (p, v) in enumerate(zip(PORTS, ini + inp)) if P.get(p)}
    d["term"] = s.int(1, 2) if P.get("terminate") and s.bool(2, 3) else 0
    d["mode"] = s.raw(3)
    d["modetext"] = s.choice(MODES[d["mode"]]) if d["mode"] or s.bool() else ""
    d["mask"] = hexs(s.bits(P["o"]))
    d["ot"] = int(s.bool(1, 8))
    d["low"] = s.raw(2)
    d["short"] = s.raw(2)
    d["std"] = s.raw(3)
    d["span"] = s.raw(3)
    return d


def g32w(s):
    """thousands of input bits, given as files of many lines and long strings"""
    n1, n2 = s.int(500, 9000), s.int(1, 9000)
    if s.bool(1, 4):
        n1, n2 = (n1 + s.int(8000, 40000), n2) if s.bool() else (n1, n2 + s.int(8000, 40000))
    b = gen_bristol(s, 2, 25)
    sh = n1 + n2 - b["n1"] - b["n2"]
    w = lambda i: (i if i < b["n1"] else n1 + i - b["n1"]) if i < b["n1"] + b["n2"] else i + sh
    for g in b["gates"]:
        g[1] = [w(i) if s.bool() else s.raw(n1 + n2) for i in g[1]]
        g[2] += sh
    b.update(n1=n1, n2=n2, nw=b["nw"] + sh)
    x, y = s.bits(n1), s.bits(n2)
    d = dict(b=b, text=netlist.bristol_text(s, b), P={"g_input": n1, "e_input": n2, "o": b["no"]}, cycles=1, ini=["0"] * 3, inp=["0", hexs(x), hexs(y)])
    d["args"] = {p: ["file", lines_of(s, v, k)] if s.bool(3, 4) else spell(s, v, k) for p, v, k in (("g_input", x, n1), ("e_input", y, n2))}
    d.update(term=0, mode=s.raw(3), mask=hexs(s.bits(b["no"])), ot=0, low=s.raw(2), short=s.raw(2), std=s.raw(3), span=s.raw(3))
    d["modetext"] = s.choice(MODES[d["mode"]])
    return d


def check32(ctx, d):
    box = Box(ctx)
    try:
        pipeline(ctx, d, box)
    finally:
        box.close()


def exp32(d):
    ini, inp = [int(x, 16) for x in d["ini"]], [int(x, 16) for x in d["inp"]]
    if "b" in d:
        return [netlist.bristol_run(d["b"], inp[1], inp[2])]
    return Sim(d["nl"]).run(ini, inp, d["cycles"], d["term"])


def flags(d, box, ren):
    """input options; ren: port -> option name"""
    r = []
    for p, o in ren.items():
        if p in d["args"]:
            kind, t = d["args"][p]
            r += ["--" + o, box.write(p + ".txt", t) if kind == "file" else t]
    return r


def common(d, scd):
    r = ["-i" if d["short"] else "--scd_file", scd]
    if d["cycles"] != 1 or d["short"]:
        r += ["-c" if d["short"] else "--clock_cycles", str(d["cycles"])]
    if d["term"]:
        r += ["-t" if d["short"] else "--terminate_period", str(d["term"])]
    if d["modetext"]:
        r += ["--output_mode", d["modetext"]]
    return r


def shown(out):
    return gcrun.parse(out[:-1] if out.endswith("\n") else out + "?")


def pipeline(ctx, d, box):
    ctx.label("bristol" if "b" in d else "verilog", "ot" if d["ot"] else "no ot", "low" if d["low"] else "high", "mode%d" % d["mode"])
    if any(k == "file" for k, _ in d["args"].values()):
        ctx.label("file input")
    ctx.nontrivial()
    no = d["P"]["o"]
    src, scd = box.write("in.txt", d["text"]), box.path("out.scd")
    i = ("-b" if d["short"] else "--brist_netlist") if "b" in d else ("-i" if d["short"] else "--netlist")
    rc, out = box.run(V2SCD, [i, src, "-o" if d["short"] else "--scd", scd])
    if rc != 0:
        raise Fail("translator", "the translator program ended with status %d on a valid netlist" % rc)
    exp = exp32(d)
    rc, out = box.run(EVAL, common(d, scd) + flags(d, box, {p: p for p in PORTS}))
    if rc != 0:
        raise Fail("evaluator", "the plaintext evaluator program ended with status %d" % rc)
    want = gcrun.render(exp, no, d["mode"])
    if shown(out) != want:
        raise Fail("evaluator", "the plaintext evaluator program printed %r, expected %s" % (out[-300:], [hexs(x) for x in want]))
    both = common(d, scd) + (["--output_mask", d["mask"]] if d["mask"] != "0" else [])
    if not d["ot"]:
        both.append("--disable_OT")
    if d["low"]:
        both.append("--low_mem_foot")
    pub = flags(d, box, {"p_init": "p_init", "p_input": "p_input"})
    a = ["-a" if d["short"] else "--alice"] + both + pub + flags(d, box, {"g_init": "init", "g_input": "input"})
    b = ["-b" if d["short"] else "--bob"] + both + pub + flags(d, box, {"e_init": "init", "e_input": "input"})
    if d["std"]:
        b += ["-s" if d["short"] else "--server_ip", "127.0.0.1" if d["std"] == 1 else "localhost"]
    ra, oa, rb, ob = pair(box, TG, a, b, "-p" if d["short"] else "--port", span=d.get("span", 0))
    m = int(d["mask"], 16)
    full = (1 << no) - 1
    for who, rc, out, mask in (("Alice", ra, oa, m), ("Bob", rb, ob, ~m & full)):
        if rc != 0:
            raise Fail("party", "%s's program ended with status %d" % (who, rc))
        want = gcrun.render([o & mask for o in exp], no, d["mode"])
        if shown(out) != want:
            raise Fail("party", "%s's program printed %r, expected %s" % (who, out[-300:], [hexs(x) for x in want]))


def g32ot(s):
    def msg():
        v = s.bits(128)
        h = "%x" % v if s.bool() else "%032X" % v
        if s.bool(1, 3) and len(h) > 8:
            h = h[:-8] + "_" + h[-8:]
        return [v, h]
    return dict(m=[msg(), msg()], c=s.raw(2), defaults=int(s.bool(1, 8)), span=s.raw(3))


def check32ot(ctx, d):
    box = Box(ctx)
    ctx.nontrivial()
    try:
        a = ["-a", "--message0", d["m"][0][1], "--message1", d["m"][1][1]]
        b = ["-b"]
        if d["c"] or not d["defaults"]:
            b += ["--select", str(d["c"])]
        ra, oa, rb, ob = pair(box, OTM, a, b, "--port", span=d.get("span", 0))
        if ra != 0 or rb != 0:
            raise Fail("ot", "the programs ended with status %d (Alice), %d (Bob)" % (ra, rb))
        text = ob
        for n in sorted(os.listdir(box.path("b"))):
            if n.endswith(".log"):
                with open(box.path("b/" + n), errors="replace") as f:
                    text += f.read()
        text = text.replace(" ", "").replace("_", "").lower()
        v, w = d["m"][d["c"]][0], d["m"][1 - d["c"]][0]
        if "%032x" % v not in text:
            raise Fail("ot", "Bob selected message %d and did not obtain it" % d["c"])
        if v != w and "%032x" % w in text:
            raise Fail("ot", "Bob selected message %d and obtained the other one" % d["c"])
    finally:
        box.close()


BAD = ["v2scd missing", "v2scd no output option", "v2scd no input", "v2scd bad directory", "v2scd broken", "eval missing", "eval truncated", "eval zero cycles",
       "eval bad mode", "eval no file", "gc no role", "gc no peer", "gc bad mode", "gc zero cycles", "gc missing", "gc truncated", "gc terminate",
       "gc peer closes A", "gc peer closes B", "ot no role", "ot no peer"]


def g32bad(s):
    import p_scd
    d = g32(s)
    d["kind"] = BAD[s.raw(len(BAD))]
    if d["kind"] == "v2scd broken":
        while True:
            x = p_scd.g20(s)
            if x["kind"] != "missing file":
                break
        d["text"] = x["v"]
        d.pop("b", None)
    d["cut"] = s.raw(1000)
    d["word"] = s.choice(["3", "4", "last", "x", "separated"])
    return d


def check32bad(ctx, d):
    box = Box(ctx)
    k = d["kind"]
    ctx.label(k)
    ctx.nontrivial()
    try:
        src, scd = box.write("in.txt", d["text"]), box.path("out.scd")
        i = "-b" if "b" in d else "-i"
        nope = box.path("no/such/file")

        def refuse(rc, what):
            if rc == 0:
                raise Fail("exit status", "%s: %s exits with status 0" % (k, what))
        if k.startswith("v2scd"):
            args = {"v2scd missing": [i, nope, "-o", scd], "v2scd no output option": [i, src], "v2scd no input": ["-o", scd],
                    "v2scd bad directory": [i, src, "-o", box.path("no/such/out.scd")], "v2scd broken": [i, src, "-o", scd]}[k]
            return refuse(box.run(V2SCD, args)[0], "the translator program")
        if k.startswith("ot"):
            if k == "ot no role":
                return refuse(box.run(OTM, [])[0], "OT_Main")
            port = ctx.next_port()
            if listening(port):
                raise Inconclusive("port in use")
            return refuse(box.run(OTM, ["-b", "--port", str(port)])[0], "OT_Main")
        rc, _ = box.run(V2SCD, [i, src, "-o", scd])
        if rc != 0:
            raise Fail("translator", "the translator program ended with status %d on a valid netlist" % rc)
        if k.endswith("truncated"):
            with open(scd) as f:
                t = f.read().split()
            n = d["cut"] % max(1, len(t) - 1)
            box.write("out.scd", " ".join(t[:n]) + " ")
        d = dict(d)
        e = dict(cycles=0) if k.endswith("zero cycles") else dict(modetext=d["word"]) if k.endswith("bad mode") else {}
        e["short"] = 1
        d.update(e)
        f = nope if k.endswith("missing") else scd
        com = common(d, f)
        if k.startswith("eval"):
            if k == "eval no file":
                com = com[2:]
            return refuse(box.run(EVAL, com + flags(d, box, {p: p for p in PORTS}))[0], "the plaintext evaluator program")
        com.append("--disable_OT")
        if d["low"]:
            com.append("--low_mem_foot")
        if k == "gc no role":
            return refuse(box.run(TG, com)[0], "TinyGarble")
        if k == "gc bad mode":
            ra, oa, rb, ob = pair(box, TG, ["-a"] + com, ["-b"] + com, "-p", True)
            refuse(ra, "TinyGarble -a")
            return refuse(rb, "TinyGarble -b")
        if k == "gc no peer":
            port = ctx.next_port()
            if listening(port):
                raise Inconclusive("port in use")
            return refuse(box.run(TG, ["-b"] + com + ["-p", str(port)])[0], "TinyGarble -b")
        if k == "gc terminate":
            if d["P"].get("terminate"):
                return
            com += ["-t", "1"] if "-t" not in com else []
        if k.startswith("gc peer closes"):
            if k.endswith("B"):
                with socket.socket() as l:
                    l.bind(("127.0.0.1", 0))
                    l.listen(1)
                    p = box.start(TG, ["-b"] + com + ["-p", str(l.getsockname()[1])], "b")
                    l.settimeout(20)
                    try:
                        c, _ = l.accept()
                    except OSError:
                        raise Inconclusive("no connection")
                    c.close()
                    rc, out = box.end(p)
            else:
                port = ctx.next_port()
                if listening(port):
                    raise Inconclusive("port in use")
                p = box.start(TG, ["-a"] + com + ["-p", str(port)], "a")
                t0 = time.time()
                while not listening(port):
                    if p.poll() is not None or time.time() - t0 > 20:
                        raise Inconclusive("the server does not listen")    # the port may be taken
                    time.sleep(0.002)
                c = socket.create_connection(("127.0.0.1", port))
                c.close()
                rc, out = box.end(p)
            return refuse(rc, "TinyGarble")
        ra, oa, rb, ob = pair(box, TG, ["-a"] + com, ["-b"] + com, "-p", True)
        refuse(ra, "TinyGarble -a")
        refuse(rb, "TinyGarble -b")
    finally:
        box.close()


# ---------------------------------------------------------------- C14, whole programs
class Cutter(threading.Thread):
    """relays one connection to port `to` and cuts it when the byte after the `pos`-th of one direction arrives"""
    def __init__(self, to, way, pos, half):
        super().__init__(daemon=True)
        self.to, self.way, self.pos, self.half = to, way, pos, half     # way 0: Alice to Bob
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(1)
        self.l.settimeout(30)
        self.port = self.l.getsockname()[1]
        self.n, self.withheld, self.err = [0, 0], False, None
        self.start()

    def run(self):
        socks = []
        try:
            b, _ = self.l.accept()
            socks.append(b)
            a = socket.create_connection(("127.0.0.1", self.to))
            socks.append(a)
            for x in socks:
                x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            src, open_ = [a, b], {0, 1}
            while open_:
                r, _, _ = select.select([src[i] for i in open_], [], [], 60)
                if not r:
                    raise OSError("nothing arrives")
                for i in sorted(open_):
                    if src[i] not in r:
                        continue
                    try:
                        t = src[i].recv(65536)
                    except OSError:
                        t = b""
                    dst = src[1 - i]
                    if not t:
                        open_.discard(i)
                        try:
                            dst.shutdown(socket.SHUT_WR)
                        except OSError:
                            pass
                        continue
                    if i == self.way and self.withheld:
                        continue
                    k = len(t)
                    if i == self.way and self.pos is not None and self.n[i] + k > self.pos:
                        k = self.pos - self.n[i]
                        self.withheld = True
                    self.n[i] += k
                    try:
                        dst.sendall(t[:k])
                        if self.withheld and i == self.way:
                            if not self.half:
                                return
                            dst.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
        except OSError as e:
            self.err = e
        finally:
            for x in socks + [self.l]:
                x.close()


def g14prog(s):
    if s.bool(1, 5):
        d = g32ot(s)
        d["prog"] = "ot"
    else:
        d = g32(s)
        d["prog"] = "gc"
        d["ot"] = int(s.bool(1, 12))
    d["cuts"] = [[s.raw(2), s.raw(1 << 16), int(s.bool(1, 3))] for _ in range(3)]
    return d


def relayed(box, prog, a, b, popt, way, pos, half):
    """server, client and a cutter between them; (status, output) of each and the cutter"""
    for k in range(5):
        port = box.ctx.next_port()
        if listening(port):
            continue
        pa = box.start(prog, a + [popt, str(port)], "a")
        t0 = time.time()
        while pa.poll() is None and time.time() - t0 < 20 and not listening(port):
            time.sleep(0.002)
        if pa.poll() is not None or not listening(port):
            box.end(pa, 1)
            continue
        cut = Cutter(port, way, pos, half)
        pb = box.start(prog, b + [popt, str(cut.port)], "b")
        r = []
        for p in (pb, pa):
            try:
                o, e = p.communicate(timeout=25)
                r.append((p.returncode, o.decode(errors="replace"), p))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                r.append(("hang", "", p))
        cut.join(30)
        if cut.err is not None or cut.is_alive():
            raise Inconclusive("relay: %s" % cut.err)
        return r[1], r[0], cut
    raise Inconclusive("no free port")


def check14prog(ctx, d):
    box = Box(ctx)
    ctx.label("programs " + d["prog"])
    try:
        if d["prog"] == "ot":
            prog, popt = OTM, "--port"
            a, b = ["-a", "--message0", d["m"][0][1], "--message1", d["m"][1][1]], ["-b", "--select", str(d["c"])]
        else:
            prog, popt = TG, "-p"
            src, scd = box.write("in.txt", d["text"]), box.path("out.scd")
            rc, out = box.run(V2SCD, ["-b" if "b" in d else "-i", src, "-o", scd])
            if rc != 0:
                return              # C32 decides this
            both = common(d, scd) + ["--output_mask", d["mask"]] + ([] if d["ot"] else ["--disable_OT"]) + (["--low_mem_foot"] if d["low"] else [])
            pub = flags(d, box, {"p_init": "p_init", "p_input": "p_input"})
            a = ["-a"] + both + pub + flags(d, box, {"g_init": "init", "g_input": "input"})
            b = ["-b"] + both + pub + flags(d, box, {"e_init": "init", "e_input": "input"})
            exp, no = exp32(d), d["P"]["o"]
            m = int(d["mask"], 16)
        A, B, cut = relayed(box, prog, a, b, popt, 0, None, 0)
        if A[0] != 0 or B[0] != 0:
            return                  # C32 decides this
        total = cut.n
        for way, k, half in d["cuts"]:
            if not total[way]:
                continue
            pos = k % (total[way] + 1)
            if k % 5 == 0:
                pos = total[way] - 1 - (k // 5) % min(total[way], 20)
            elif k % 5 == 1:
                pos = min(total[way], k // 5 % 40)
            A, B, cut = relayed(box, prog, a, b, popt, way, pos, half)
            if 0 < pos < total[way]:
                ctx.nontrivial()
            what = "%s cut after byte %d of %d %s: " % ("one direction" if half else "connection", pos, total[way], ("from Alice to Bob", "from Bob to Alice")[way])
            for i, (rc, out, p) in enumerate((A, B)):
                who = "%s's program" % ("Alice", "Bob")[i]
                if rc == "hang":
                    raise Fail("hang", what + who + " does not end")
                if rc < 0 and rc != -13:                # SIGPIPE ends a program that has no one to write to
                    raise Fail("crash", what + who + " ended with signal %d" % -rc)
                if rc != 0:
                    continue
                if cut.withheld and i == 1 - way:
                    raise Fail("success", what + who + " missed bytes but exits with status 0")
                if d["prog"] == "gc":
                    want = gcrun.render([o & (m if i == 0 else ~m & ((1 << no) - 1)) for o in exp], no, d["mode"])
                    if shown(out) != want:
                        raise Fail("wrong output", what + who + " exits with status 0 and printed %r" % out[-300:])
    finally:
        box.close()


def C32():
    return Prop("C32", "Random netlists (Verilog and Bristol) through the translator program, the plaintext evaluator program and two TinyGarble processes over loopback TCP, "
                "with inputs as strings or multi-line files, cycles, masks, modes by number or name, terminate periods, OT on/off, low memory, long and short options; "
                "OT_Main with random messages; and 21 kinds of requests a program cannot fulfil. Non-trivial: every case.",
                [Suite("pipeline", g32, check32, 500, 40000, 4), Suite("wide", g32w, check32, 40, 3000, 1), Suite("ot", g32ot, check32ot, 40, 3000, 1), Suite("refused", g32bad, check32bad, 500, 40000, 2)],
                CLI, ["The programs run on one machine over the loopback interface; an input option that names no readable file is a hexadecimal string.",
                      "OT_Main reports the message in its log file; the log must contain the selected message's 32 digits and not the other's."])


# ---------------------------------------------------------------- C34
def under_asan(name, gen, check):
    """the same case under AddressSanitizer; only its reports count"""
    def chk(ctx, d):
        ctx.force = "asan"
        w = ctx.worker()
        ep = os.path.join(w.scratch, "worker.err")
        if w.p is not None and w.p.poll() is None:
            w.err.seek(0)
            w.err.truncate()
        inc = None
        try:
            check(ctx, d)
        except Fail:
            pass            # other properties decide this
        except Inconclusive as e:
            inc = e
        finally:
            ctx.force = None
        ctx.nontrivial()
        ctx.label(name)
        try:
            with open(ep, "rb") as f:
                t = f.read().decode(errors="replace")
        except OSError:
            t = ""
        for mark in ("ERROR: AddressSanitizer", "runtime error:", "AddressSanitizer:"):
            if mark in t:
                i = t.index(mark)
                raise Fail("memory", t[max(0, i - 200):i + 1200])
        if inc:
            raise inc
    return chk


VG = ("uninitialised", "Invalid read", "Invalid write", "Invalid free", "overlap", "definitely points to unaddressable", "unaddressable byte")


def under_memcheck(name, gen, check):
    """the same case under Memcheck, which follows every byte to the place where a branch, an address or a system call depends on it"""
    def chk(ctx, d):
        if shutil.which("valgrind") is None:
            ctx.label("no valgrind")
            return
        ctx.force = "vg"
        w = ctx.worker()
        for p in glob.glob(os.path.join(w.scratch, "vg.*")):
            if w.p is None or p != os.path.join(w.scratch, "vg.%d" % w.p.pid):
                os.unlink(p)
        inc = None
        try:
            check(ctx, d)
        except Fail:
            pass            # other properties decide this
        except Inconclusive as e:
            inc = e
        finally:
            ctx.force = None
        ctx.nontrivial()
        ctx.label(name)
        for p in sorted(glob.glob(os.path.join(w.scratch, "vg.*"))):
            with open(p, errors="replace") as f:
                t = re.sub(r"==\d+== ?", "", f.read())
            for rep in t.split("\n\n"):
                l = rep.strip().split("\n")
                if any(m in l[0] for m in VG):
                    raise Fail("uninitialised" if "uninit" in l[0] else "memory", "\n".join(x[:160] for x in l[:12]))
        if inc:
            raise inc
    return chk


def twin(ctx, op, args, files=()):
    """the same request in processes whose fresh memory holds different bytes"""
    res = []
    for fill in (0, 0x5A, 0xFF):
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
        a = dict(args)
        if fill:
            a["perturb"] = fill
        r = dict(ctx.worker()(op, **a))
        for f in files:
            if os.path.exists(f):
                with open(f, "rb") as fo:
                    r[f] = fo.read()
        res.append((fill, r))
    r0 = res[0][1]
    for fill, r in res[1:]:
        for k in sorted(set(r0) | set(r)):
            if k.endswith((".st", ".rc", ".out")) or k in ("AB", "BA") or k in files:
                if r.get(k) != r0.get(k):
                    x, y = str(r0.get(k)), str(r.get(k))
                    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    raise Fail("leftover", "%s depends on what unused memory holds (fill %02x), from character %d of %d: %s... / %s..." % (
                        {"AB": "what Alice sends", "BA": "what Bob sends"}.get(k, k), fill, i, len(x), x[i:i + 40], y[i:i + 40]))
    return r0


def gtwin(s):
    import p_gc
    g = s.choice([p_gc.g01, p_gc.g02, p_gc.g02shift, p_gc.g05, p_gc.g07, p_gc.g08, p_gc.g08cell])
    d = g(s)
    d["noot"] = 0 if s.bool(1, 25) else 1
    if not d["noot"]:
        d["cycles"] = min(d["cycles"], 3)
    return d


def chk_twin(ctx, d):
    import p_gc
    c, ini, inp = p_gc.unpack(d)
    ctx.label("gc-twin", "OT" if not d["noot"] else "no OT", "low" if d["low"] else "high")
    if p_gc.interesting(c, ini, inp, d["cycles"]):
        ctx.nontrivial()
    p = ctx.write("c.scd", c.text())
    twin(ctx, "gc", dict(scd=p, pinit=hexs(ini[0]), pinput=hexs(inp[0]), initA=hexs(ini[1]), inputA=hexs(inp[1]), initB=hexs(ini[2]),
                         inputB=hexs(inp[2]), cycles=d["cycles"], mask=d["mask"], term=d["term"], mode=d["mode"], noot=d["noot"], low=d["low"],
                         rec=1, rngA=d["seed"], rngB=d["seed"] + 9, srandA=d["seed"], srandB=d["seed"] + 4))


def gtwin_ot(s):
    import p_ot
    d = (p_ot.g24 if s.bool() else p_ot.g25)(s)
    d["rngA"], d["rngB"] = 1 + s.raw(1 << 20), 1 + s.raw(1 << 20)
    for k in ("frag", "maxfrag", "sndbuf"):
        d.pop(k, None)
    return d


def chk_twin_ot(ctx, d):
    import p_ot
    ctx.nontrivial()
    ctx.label("ot-twin " + d["kind"])
    f = p_ot.le16 if d["repr"] == "block" else (lambda x: x)
    twin(ctx, "ot", dict(kind=d["kind"], repr=d["repr"], bits=d["bits"], m0=",".join(f(x) for x in d["m0"]), m1=",".join(f(x) for x in d["m1"]),
                         sel=d["sel"], rec=1, rngA=d["rngA"], rngB=d["rngB"]))


def chk_twin_scd(ctx, d):
    ctx.nontrivial()
    ctx.label("scd-twin")
    src, out = ctx.write("in.v", d["v"]), ctx.path("out.scd")
    twin(ctx, "trans", {"kind": "verilog", "in": src, "map": out + ".map", "out": out}, [out, out + ".map"])
    nl = d["nl"]
    r = twin(ctx, "plain", dict(scd=out, pinit=d["ini"][0], ginit=d["ini"][1], einit=d["ini"][2], pinput=d["inp"][0], ginput=d["inp"][1],
                                einput=d["inp"][2], cycles=d["cycles"], term=1 if nl["ports"].get("terminate") else 0, mode=1))


def C34():
    import p_gc, p_hist, p_scd, p_ot, p_util
    S = []

    def add(name, gen, check, quick, w=1.0):
        S.append(Suite("asan-" + name, gen, under_asan(name, gen, check), quick, quick * 80, w))
    hist = p_hist.history((lambda s: p_hist.g_run(s), 4), (p_hist.g_refused, 1), (p_hist.g_plain, 1), (p_hist.g_verilog, 1), (p_hist.g_bristol, 1), (p_hist.g_badnet, 1))
    add("comb", p_gc.g01, p_gc.check_run, 200, 2)
    add("history", hist, p_hist.check, 80)
    add("seq", p_gc.g02, p_gc.check_run, 200, 2)
    add("shift", p_gc.g02shift, p_gc.check_run, 80)
    add("ot", p_gc.g04, p_gc.check04, 16)
    add("mask", p_gc.g05, p_gc.check_run, 80)
    add("term", p_gc.g07, p_gc.check_run, 80)
    add("skip", p_gc.g08cell, p_gc.check_run, 80)
    add("netlist", p_scd.g17, p_scd.check17run, 150)
    add("bristol", p_scd.g19, p_scd.C19().suites[0].check, 60)
    add("scd", p_scd.g21, p_scd.check21, 80)
    add("plain", p_scd.g22, p_scd.check22, 150)
    add("trace", p_scd.g23, p_scd.check23, 60)
    add("base-ot", p_ot.g24, p_ot.check24, 24)
    add("ext-ot", p_ot.g25, p_ot.check25, 16)
    for pr in (p_util.C28(), p_util.C29(), p_util.C31()):
        for su in pr.suites:
            add(pr.id + "-" + su.name, su.gen, su.check, 120)
    def no_ot(gen):
        def g(s):
            d = gen(s)
            if "noot" in d:
                d["noot"] = 1
            return d
        return g

    def vg(name, gen, check, quick, w=1.0):
        S.append(Suite("memcheck-" + name, gen, under_memcheck(name, gen, check), quick, quick * 60 or 80, w))
    vg("comb", no_ot(p_gc.g01), p_gc.check_run, 24)
    vg("seq", no_ot(p_gc.g02), p_gc.check_run, 40)
    vg("shift", no_ot(p_gc.g02shift), p_gc.check_run, 16)
    vg("mask", no_ot(p_gc.g05), p_gc.check_run, 24)
    vg("term", no_ot(p_gc.g07), p_gc.check_run, 40)
    vg("skip", no_ot(p_gc.g08cell), p_gc.check_run, 16)
    vg("netlist", no_ot(p_scd.g17), p_scd.check17run, 12)
    vg("bristol", no_ot(p_scd.g19), p_scd.C19().suites[0].check, 12)
    vg("scd", p_scd.g21, p_scd.check21, 16)
    vg("plain", p_scd.g22, p_scd.check22, 30)
    vg("trace", p_scd.g23, p_scd.check23, 12)
    vg("history", hist, p_hist.check, 16)
    vg("base-ot", lambda s: p_ot.case(s, "base", s.choice(["block", "bn"]), 1 + s.raw(2), 128, 128), p_ot.check24, 6)
    vg("ext-ot", lambda s: p_ot.case(s, "ext", s.choice(["block", "bn"]), 1 + s.raw(3), 128, 128), p_ot.check25, 0, 0.5)
    for pr in (p_util.C28(), p_util.C29(), p_util.C31()):
        for su in pr.suites:
            vg(pr.id + "-" + su.name, su.gen, su.check, 8)
    S += [Suite("twin-gc", gtwin, chk_twin, 500, 40000, 3), Suite("twin-ot", gtwin_ot, chk_twin_ot, 40, 3000, 1),
          Suite("twin-scd", p_scd.g17, chk_twin_scd, 300, 20000, 1)]
    return Prop("C34", "The generators of C01, C02, C04, C05, C07, C08, C17, C19, C21-C25, C28, C29, C31 and histories of calls in an AddressSanitizer/bounds-checked build (a case fails on a sanitizer report only); "
                "the same generators in a worker under Memcheck (a case fails when a branch, an address, a file or a byte sent depends on memory nothing was written to); and identical requests with identical random sources in processes whose fresh heap and stack memory is filled with different bytes: transcripts, outputs "
                "and files must be equal. Non-trivial: every sanitizer case; for the second kind those with at least one garbled table.",
                S, [("opt", "worker"), ("asan", "worker")],
                ["Memory leaks are not claimed. Uninitialised reads count when they influence a transcript, an output or a file."])
