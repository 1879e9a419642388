"""Histories: several library calls by the same two processes over one connection.

State that outlives a call (static buffers, counters, registries, a key set up once) shows only here."""
import os
import model, gcrun, netlist
from model import Circ, hexs, gen_circ
from netlist import PORTS, Sim, gen_netlist, gen_bristol
from pbt import Fail, Suite
from p_gc import mk, masks, unpack, ref
from p_ot import case as ot_case, le16, result as ot_result
from p_scd import g20, g20b, nl_vals, ival


def g_run(s, ot=False, term=True):
    k = s.raw(4)
    if k == 0:
        c = gen_circ(s, comb=True, max_port=8, max_gates=20, max_out=12)
        cyc = 1
    else:
        c = gen_circ(s, max_port=5, max_gates=14, max_dff=5, max_out=8, term=term and s.bool())
        cyc = s.int(1, 4)
    d = mk(s, c, cyc, low=s.raw(2), mode=s.raw(3), mask=hexs(masks(s, len(c.outs))), term=s.int(1, 3) if c.term and s.bool() else 0)
    if ot:
        d["noot"] = s.raw(2)
    return dict(t="g", d=d)


def g_refused(s):
    st = g_run(s, term=False)
    st["refused"] = 1
    if s.bool():
        st["d"]["cycles"] = 0
    else:
        st["d"]["c"]["term"] = 0
        st["d"]["term"] = s.int(1, 3)
    return st


def g_plain(s):
    st = g_run(s)
    st["t"] = "p"
    return st


def g_ot(s, base=1):
    if s.bool(base, base + 1):
        n = s.weighted([(1, 2), (2, 2), (5, 1)])
        d = ot_case(s, "base", "block", n, 128, 128) if s.bool() else ot_case(s, "base", "bn", n, 0, lambda s: s.choice([8, 128, 1000]))
    else:
        n = s.weighted([(1, 2), (3, 2), (40, 1), (129, 1)])
        d = ot_case(s, "ext", "block", n, 128, 128) if s.bool() else ot_case(s, "ext", "bn", n, 64, 64)
    return dict(t="o", d={k: d[k] for k in ("kind", "repr", "bits", "m0", "m1", "sel")})


def g_verilog(s):
    nl = gen_netlist(s, max_port=6, max_cells=22, max_dff=5, max_out=8)
    nl = netlist.shuffle(s, nl)
    cyc = s.int(1, 3)
    ini, inp = nl_vals(s, nl["ports"], cyc)
    return dict(t="v", d=dict(nl=nl, v=netlist.verilog(s, nl), ini=ini, inp=inp, cycles=cyc, seed=1), garble=s.raw(3))


def g_bristol(s):
    b = gen_bristol(s)
    return dict(t="b", d=dict(b=b, v=netlist.bristol_text(s, b), x=hexs(s.bits(b["n1"])), y=hexs(s.bits(b["n2"]))), garble=s.raw(3))


def g_badnet(s):
    if s.bool(3, 4):
        d = g20(s)
        return dict(t="v", bad=d["kind"], d=dict(v=d["v"], path=d["kind"] == "missing file"))
    d = g20b(s)
    return dict(t="b", bad=d["kind"], d=dict(v=d["t"], path=0))


def history(*kinds, must=None, lo=2, hi=4):
    """kinds: (generator, weight); must: a generator that occurs at least once, at the end"""
    def gen(s):
        n = s.int(lo, hi)
        steps = [s.weighted([(k, w) for k, w in kinds])(s) for _ in range(n - (1 if must else 0))]
        if steps and s.bool(1, 4):      # the same call again
            steps.append(steps[s.raw(len(steps))])
        if must:
            steps.append(must(s))
        d = dict(steps=steps, dirs="".join("AB"[s.raw(2)] for _ in steps), seed=1 + s.raw(1 << 16))
        if s.bool(1, 5):
            d["frag"], d["maxfrag"] = 1 + s.raw(1 << 16), s.choice([3, 40, 700])
        return d
    return gen


def run(ctx, d, **kw):
    """one 'session' request; returns the answer and the list of (step, index, kind) that were made of d"""
    a, seq = {}, []

    def put(k, **f):
        for n, v in f.items():
            a["%s%d" % (n, k)] = v

    def circ(k, e, scd):
        put(k, scd=scd, pinit=e["ini"][0], pinput=e["inp"][0], ginit=e["ini"][1], ginput=e["inp"][1], einit=e["ini"][2], einput=e["inp"][2],
            cycles=e["cycles"], mask=e["mask"], term=e["term"], mode=e["mode"], noot=e["noot"], low=e["low"])

    def add(ch, who, what):
        seq.append((ch, who, what))
        return len(seq) - 1
    for i, (st, who) in enumerate(zip(d["steps"], d["dirs"])):
        e = st["d"]
        t = st["t"]
        if "reseed" in st:
            put(len(seq), reseedA=st["reseed"][0], reseedB=st["reseed"][1])
        if t in "gp":
            p = ctx.write("s%d.scd" % i, Circ.of(e["c"]).text())
            k = add(t, who, (st, e, p))
            ctx.write("s%d.scd.map" % i, "terminate\t0\n")
            circ(k, e, p)
        elif t == "o":
            k = add(t, who, (st, e, ""))
            f = le16 if e["repr"] == "block" else (lambda x: x)
            put(k, kind=e["kind"], repr=e["repr"], bits=e["bits"], sel=e["sel"], m0=",".join(f(x) for x in e["m0"]), m1=",".join(f(x) for x in e["m1"]))
        else:
            src = ctx.write("s%d.v" % i, e["v"])
            out = ctx.path("s%d.@.scd" % i)
            k = add(t, who, (st, e, out))
            for q in "AB":
                for f in (out, out + ".map"):
                    f = f.replace("@", q)
                    if os.path.exists(f):
                        os.unlink(f)
            put(k, **{"in": ctx.path("nope.v") if e.get("path") else src, "map": out + ".map", "to": out})
            if st.get("garble") and not st.get("bad"):
                if t == "v":
                    no = e["nl"]["ports"]["o"]
                    g = dict(ini=e["ini"], inp=e["inp"], cycles=e["cycles"])
                else:
                    no = e["b"]["no"]
                    g = dict(ini=["0"] * 3, inp=["0", e["x"], e["y"]], cycles=1)
                g.update(mask=hexs(0x5A5A5A5A5A5A5A5A & ((1 << no) - 1)), term=0, mode=1, noot=1, low=i & 1)
                k = add("g" if st["garble"] == 1 else "p", who, (st, g, out))
                circ(k, g, out)
    a["steps"] = "".join(c for c, _, _ in seq)
    a["dirs"] = "".join(w for _, w, _ in seq)
    opt = {k: d[k] for k in ("frag", "maxfrag") if k in d}
    opt.setdefault("rngA", d["seed"])
    opt.setdefault("rngB", d["seed"] + 77)
    opt.setdefault("srandA", d["seed"])
    opt.setdefault("srandB", d["seed"] + 5)
    opt.update(kw)
    return ctx.worker("opt")("session", **a, **opt), seq


NAMES = dict(g="two-party run", o="oblivious transfer", p="plaintext run", v="translation", b="Bristol translation")


def check(ctx, d):
    r, seq = run(ctx, d)
    ctx.label("%d calls" % len(seq))
    if len(seq) > 1:
        ctx.nontrivial()
    judge(ctx, r, seq)


def judge(ctx, r, seq):
    for p in "AB":
        if r[p + ".st"] != "ok":
            raise Fail("status", "party %s ended with %s in a history %s" % (p, r[p + ".st"], "".join(c for c, _, _ in seq)))
    rcs = {p: r[p + ".rcs"].split(",") for p in "AB"}
    for i, (ch, who, (st, e, out)) in enumerate(seq):
        what = "call %d of %d (%s): " % (i + 1, len(seq), NAMES[ch])
        bad = bool(st.get("refused") or st.get("bad"))
        ctx.label(NAMES[ch] + (" refused" if bad else ""))
        if bad:
            for p in "AB":
                if rcs[p][i] == "0":
                    raise Fail("accepted", what + "party %s reports success" % p)
            continue
        for p in "AB":
            if rcs[p][i] != "0":
                raise Fail("refused", what + "party %s reports failure" % p)
        o = {p: r.get("%s.out%d" % (p, i), "") for p in "AB"}
        a, b = ("A", "B") if who == "A" else ("B", "A")
        if ch == "o":
            res = {"A.st": "ok", "B.st": "ok", "A.rc": "0", "B.rc": "0", "B.out": o[b], "A.clobber": r.get("A.clobber") or r.get("B.clobber") or ""}
            try:
                ot_result(e, res)
            except Fail as f:
                raise Fail(f.kind, what + f.detail)
            continue
        if ch in "gp":
            if "c" in e:
                exp, n = ref(e), len(Circ.of(e["c"]).outs)
            elif st["t"] == "v":
                ini, inp = ival(e)
                exp, n = Sim(st["d"]["nl"]).run(ini, inp, e["cycles"]), st["d"]["nl"]["ports"]["o"]
            else:
                exp, n = [netlist.bristol_run(st["d"]["b"], int(st["d"]["x"], 16), int(st["d"]["y"], 16))], st["d"]["b"]["no"]
        if ch == "g":
            gcrun.judge({"A.st": "ok", "B.st": "ok", "A.rc": "0", "B.rc": "0", "A.out": o[a], "B.out": o[b]}, exp, n, int(e["mask"], 16), e["mode"], what)
        elif ch == "p":
            want = gcrun.render(exp, n, e["mode"])
            for p in "AB":
                got = gcrun.parse(o[p])
                if got != want:
                    raise Fail("plain", what + "party %s printed %s, expected %s" % (p, [x if isinstance(x, str) else hexs(x) for x in got], [hexs(x) for x in want]))
    # translated files
    for i, (ch, who, (st, e, out)) in enumerate(seq):
        if ch not in "vb" or st.get("bad"):
            continue
        what = "call %d of %d (%s): " % (i + 1, len(seq), NAMES[ch])
        texts = []
        for p in "AB":
            try:
                with open(out.replace("@", p)) as f:
                    texts.append(f.read())
            except OSError:
                raise Fail("missing", what + "party %s wrote no file" % p)
        if texts[0] != texts[1]:
            raise Fail("differ", what + "the same netlist gives different files in the two processes")
        c = Circ.parse(texts[0])
        er = c.wellformed()
        if er:
            raise Fail("malformed", what + er)
        if ch == "v":
            ini, inp = ival(e)
            got, exp = c.run(ini, inp, e["cycles"]), Sim(e["nl"]).run(ini, inp, e["cycles"])
        else:
            got = c.run([0, 0, 0], [0, int(e["x"], 16), int(e["y"], 16)], 1)
            exp = [netlist.bristol_run(e["b"], int(e["x"], 16), int(e["y"], 16))]
        if got != exp:
            raise Fail("function", what + "the SCD circuit yields %s, the netlist %s" % ([hexs(x) for x in got], [hexs(x) for x in exp]))


# ------------------------------------------------------------------- suites
def gc_history(quick, thorough, seq=False):
    return Suite("history", history((lambda s: g_run(s), 9), (g_refused, 2), (lambda s: g_ot(s, 9), 1), (g_plain, 2), must=g_run), check, quick, thorough, 1)


def ot_history(quick, thorough):
    return Suite("history", history((lambda s: g_run(s, True), 3), (lambda s: g_ot(s), 2), (g_refused, 1), must=lambda s: dict(g_run(s, True))), check, quick, thorough, 1)


def refuse_history(quick, thorough):
    return Suite("history", history((g_refused, 3), (g_run, 1), must=g_run), check, quick, thorough, 1)


def verilog_history(quick, thorough):
    return Suite("history", history((g_verilog, 3), (g_badnet, 2), (g_bristol, 1), (g_run, 1), must=g_verilog), check, quick, thorough, 1)


def bristol_history(quick, thorough):
    return Suite("history", history((g_bristol, 3), (g_badnet, 1), (g_verilog, 1), must=g_bristol), check, quick, thorough, 1)


def bad_history(quick, thorough):
    return Suite("history", history((g_verilog, 2), (g_bristol, 1), (g_badnet, 2), must=g_badnet), check, quick, thorough, 1)


def plain_history(quick, thorough):
    return Suite("history", history((g_plain, 4), (g_run, 1), (g_verilog, 1), must=g_plain), check, quick, thorough, 1)


# two or more sessions of the same processes: no field of one may come back in another
def g_small(s):
    st = g_run(s)
    st["d"]["noot"] = 1
    return st


def check_fresh(ctx, d):
    from p_priv import dup16
    kw = dict(rec=1)
    if d["seed"] % 2:       # the process's own randomness
        kw.update(rngA=0, rngB=0)
    r, seq = run(ctx, d, **kw)
    judge(ctx, r, seq)
    ctx.label("roles swapped" if len(set(d["dirs"])) > 1 else "same roles")
    ctx.nontrivial()
    x = dup16(bytes.fromhex(r["AB"]) + b"\0" * 16 + bytes.fromhex(r["BA"]))
    if x:
        raise Fail("repeat", "the streams of %d sessions of the same two processes hold a 16-byte field twice (bytes %d and %d of %d + %d)" % (
            len(seq), x[0], x[1], len(r["AB"]) // 2, len(r["BA"]) // 2))


def fresh_history(quick, thorough):
    return Suite("history", history((g_small, 1), must=g_small), check_fresh, quick, thorough, 1)
