"""C24-C26: oblivious transfer and its extension."""
from model import hexs
from pbt import Fail, Prop, Suite, Inconclusive
from p_gc import W
from p_scd import huge
from model import lg

OASSUME = ["Both parties run the library's own code (semi-honest setting); their randomness is a seeded OpenSSL RAND_METHOD or the operating system's."]


def msg(s, bits):
    return s.bits(bits)


def case(s, kind, repr_, n, bits, mbits):
    """mbits: widths of the messages"""
    same = s.raw(8) == 0
    m0, m1 = [], []
    for i in range(n):
        w = mbits(s) if callable(mbits) else mbits
        a = msg(s, w)
        b = a if same or s.raw(16) == 0 else msg(s, w)
        m0.append(a)
        m1.append(b)
    k = s.raw(6)
    sel = "0" * n if k == 0 else "1" * n if k == 1 else "".join("01"[s.raw(2)] for _ in range(n))
    d = dict(kind=kind, repr=repr_, bits=bits, m0=[hexs(x) for x in m0], m1=[hexs(x) for x in m1], sel=sel,
             rngA=0 if s.raw(10) == 0 else 1 + s.raw(1 << 20), rngB=0 if s.raw(10) == 0 else 1 + s.raw(1 << 20))
    if s.bool(1, 3):
        d["frag"] = 1 + s.raw(1 << 20)
        d["maxfrag"] = s.choice([3, 40, 700, 5000])
    if s.bool(1, 6):
        d["sndbuf"] = 1
    return d


def le16(h):
    return int(h, 16).to_bytes(16, "little").hex()


def ot(ctx, d, variant="opt", sel=None, **kw):
    opt = {k: d[k] for k in ("frag", "maxfrag", "sndbuf", "rngA", "rngB") if k in d}
    opt.update(kw)
    f = le16 if d["repr"] == "block" else (lambda x: x)
    return ctx.worker(variant)("ot", kind=d["kind"], repr=d["repr"], bits=d["bits"], m0=",".join(f(x) for x in d["m0"]),
                               m1=",".join(f(x) for x in d["m1"]), sel=d["sel"] if sel is None else sel, **opt)


def result(d, r):
    for p in "AB":
        if r[p + ".st"] != "ok":
            raise Fail("status", "party %s ended with %s" % (p, r[p + ".st"]))
        if r[p + ".rc"] != "0":
            raise Fail("refused", "party %s reports failure on a valid transfer" % p)
    if r.get("A.clobber"):
        raise Fail("clobber", "the sender's messages were changed")
    out = r["B.out"].split(",")
    if d["repr"] == "block":
        got = [int.from_bytes(bytes.fromhex(x), "little") for x in out]
    else:
        got = [int(x, 16) for x in out]
    for i, (g, s) in enumerate(zip(got, d["sel"])):
        want = int((d["m1"] if s == "1" else d["m0"])[i], 16)
        if g != want:
            other = int((d["m0"] if s == "1" else d["m1"])[i], 16)
            raise Fail("value", "index %d of %d, choice %s: received %x, selected message %x%s" % (
                i, len(d["sel"]), s, g, want, " (received the other one)" if g == other else ""))


def seq_case(s, kinds):
    """several transfers over one connection, the sender being either party"""
    steps, dirs = [], ""
    n = s.weighted([(1, 1), (2, 2), (3, 2), (9, 1)])
    for _ in range(2 + s.raw(3)):
        kind = s.choice(kinds)
        if s.bool(1, 2):        # otherwise as many as before: results go to the same numbers
            n = s.weighted([(1, 2), (2, 2), (3, 2), (9, 2), (33, 1)] + ([(129, 1), (200, 1)] if kind == "ext" else []))
        repr_ = "bn" if s.bool(2, 3) else "block"
        if repr_ == "block":
            st = case(s, kind, repr_, n, 128, 128)
        elif kind == "ext":
            b = 8 * s.int(1, 32)
            st = case(s, kind, repr_, n, b, b)
        else:
            st = case(s, kind, repr_, n, 0, lambda s: s.choice([1, 8, 64, 128, 1024, 1500]))
        if s.bool(1, 3):        # some zero messages
            for m in (st["m0"], st["m1"]):
                for i in range(n):
                    if s.bool():
                        m[i] = "0"
        steps.append({k: st[k] for k in ("kind", "repr", "bits", "m0", "m1", "sel")})
        dirs += "AB"[s.raw(2)]
    d = dict(steps=steps, dirs=dirs, rngA=1 + s.raw(1 << 20), rngB=1 + s.raw(1 << 20))
    if s.bool(1, 3):
        d["frag"] = 1 + s.raw(1 << 20)
        d["maxfrag"] = s.choice([40, 700, 5000])
    return d


def check_seq(ctx, d):
    opt = {k: d[k] for k in ("frag", "maxfrag", "rngA", "rngB") if k in d}
    args = dict(dirs=d["dirs"])
    for i, st in enumerate(d["steps"]):
        f = le16 if st["repr"] == "block" else (lambda x: x)
        args.update({"kind%d" % i: st["kind"], "repr%d" % i: st["repr"], "bits%d" % i: st["bits"], "sel%d" % i: st["sel"],
                     "m0%d" % i: ",".join(f(x) for x in st["m0"]), "m1%d" % i: ",".join(f(x) for x in st["m1"])})
    r = ctx.worker("opt")("otseq", **args, **opt)
    ctx.nontrivial()
    ctx.label("both directions" if len(set(d["dirs"])) > 1 else "one direction", "%d transfers" % len(d["dirs"]))
    for p in "AB":
        if r[p + ".st"] != "ok":
            raise Fail("status", "party %s ended with %s in a sequence of transfers" % (p, r[p + ".st"]))
        if r[p + ".rcs"] != ",".join("0" * len(d["dirs"])):
            raise Fail("refused", "party %s: statuses %s of valid transfers" % (p, r[p + ".rcs"]))
    for i, st in enumerate(d["steps"]):
        q = "BA"[d["dirs"][i] == "B"]
        try:
            result(st, {"A.st": "ok", "B.st": "ok", "A.rc": "0", "B.rc": "0", "B.out": r[q + ".out%d" % i], "A.clobber": r.get("A.clobber") or r.get("B.clobber") or ""})
        except Fail as e:
            raise Fail(e.kind, "transfer %d of %d: %s" % (i + 1, len(d["dirs"]), e.detail))


def cut_case(s):
    if s.bool(2, 3):
        d = case(s, "base", "block" if s.bool() else "bn", s.weighted([(1, 3), (2, 2), (5, 1)]), 128, lambda s: s.choice([128, 1, 1500]))
        if d["repr"] == "block":
            d["m0"], d["m1"] = [[hexs(int(x, 16) & ((1 << 128) - 1)) for x in m] for m in (d["m0"], d["m1"])]
    else:
        b = 8 * s.int(1, 32)
        d = case(s, "ext", "block" if s.bool() else "bn", s.weighted([(1, 2), (3, 2), (9, 1), (130, 1)]), b, 8)
        if d["repr"] == "block":
            d["bits"] = 128
    d["rngA"], d["rngB"] = 1 + s.raw(1 << 20), 1 + s.raw(1 << 20)
    d.pop("sndbuf", None)
    d["cuts"] = [[s.raw(2), s.raw(1 << 30)] for _ in range(4)]
    return d


def check_cut(ctx, d):
    full = ot(ctx, d)
    result(d, full)
    ctx.label(d["kind"], d["repr"])
    for way, k in d["cuts"]:
        total = int(full[("lenAB", "lenBA")[way]])
        pos = k // 8 % (total + 1)
        if k % 8 < 4:
            pos = total - min(total, 1 + k // 8 % 300)
        elif k % 8 == 4:
            pos = min(total, k // 8 % 40)
        half = int(k % 7 < 2)
        r = ot(ctx, d, half=half, **{("cutAB", "cutBA")[way]: pos})
        if 0 < pos < total:
            ctx.nontrivial()
        what = "%s OT of %d %s, %s cut after byte %d of %d %s: " % (
            d["kind"], len(d["sel"]), d["repr"], "one direction" if half else "connection", pos, total, ("from sender to receiver", "from receiver to sender")[way])
        for p in "AB":
            if r[p + ".st"] != "ok":
                raise Fail("status", what + "party %s ended with %s" % (p, r[p + ".st"]))
            if r[p + ".rc"] == "0" and pos < total and (p == "B") == (way == 0):
                raise Fail("success", what + "party %s missed bytes but reports success" % p)
        if r["B.rc"] == "0":
            try:
                result(d, dict(r, **{"A.rc": "0"}))
            except Fail as e:
                raise Fail("wrong output", what + e.detail)


def nontriv(ctx, d):
    if any(a != b for a, b in zip(d["m0"], d["m1"])) and len(set(d["sel"])) > 1:
        ctx.nontrivial()
    ctx.label("n=1" if len(d["sel"]) == 1 else "n>1", "frag" if "frag" in d else "whole")


# --------------------------------------------------------------------- C24
def g24(s):
    if s.bool():
        return case(s, "base", "block", s.weighted([(1, 2), (2, 2), (3, 2), (8, 2), (17, 1), (40, 1)]), 128, 128)
    widths = s.choice([lambda s: s.choice([1, 8, 64, 128]), lambda s: s.int(1, 1024), lambda s: s.choice([1023, 1024, 1025, 1032]),
                       lambda s: s.int(1, 4000), lambda s: s.choice([128, 2048, 2049])])
    return case(s, "base", "bn", s.weighted([(1, 3), (2, 2), (3, 2), (9, 2), (33, 1)]), 0, widths)


def g24big(s, n):
    """many messages, or long ones"""
    if s.bool():
        return case(s, "base", "block" if s.bool() else "bn", n, 128, 128)
    return case(s, "base", "bn", s.int(1, 3), 0, lambda s: lg(s, 600000, 1))


g24h, e24h = huge(g24big, lambda s: s.choice([63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257]))


def check24(ctx, d):
    d = e24h(d)
    nontriv(ctx, d)
    ctx.label(d["repr"], "longer than the modulus" if any(len(x) > 256 for x in d["m0"] + d["m1"]) else "short")
    result(d, ot(ctx, d))


def g24m(s):
    d = g24(s)
    n = len(d["sel"])
    k = s.raw(4)
    n2 = n + 1 + s.raw(3) if k < 2 or n == 1 else s.int(1, n - 1) if k == 2 else n - 1
    d["sel2"] = "".join("01"[s.raw(2)] for _ in range(n2))
    return d


def check24m(ctx, d):
    ctx.nontrivial()
    r = ot(ctx, d, sel=d["sel2"])
    if r["B.st"] == "hang" or r["A.st"] == "hang":
        raise Fail("hang", "the parties wait forever for each other: %d and %d messages" % (len(d["sel"]), len(d["sel2"])))
    for p in "AB":
        if r[p + ".st"].startswith("crash") or r[p + ".st"] == "cpu":
            raise Fail("status", "party %s ended with %s" % (p, r[p + ".st"]))
    if r["B.st"] == "ok" and r["B.rc"] == "0":
        raise Fail("mismatch", "the receiver asked for %d messages of %d and reports success" % (len(d["sel2"]), len(d["sel"])))


def C24():
    return Prop("C24", "Random message pairs (blocks, or big numbers of 1-4000 bits incl. zero, equal, longer than the RSA modulus), counts 1-257, choices and "
                "stream fragmentation; the received list is compared with the selected one; a second suite gives the parties different counts, a third one makes "
                "2-4 transfers over one connection in either direction, into result numbers that hold old values. "
                "Non-trivial: some pair differs and both choices occur (all mismatch cases).",
                [Suite("base", g24, check24, 1400, 60000, 3), Suite("big", g24h, check24, 24, 1500, 1), Suite("mismatch", g24m, check24m, 250, 12000, 1),
                 Suite("sequence", lambda s: seq_case(s, ["base", "base", "ext"]), check_seq, 120, 8000, 1)], W, OASSUME)


# --------------------------------------------------------------------- C25
NS = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 119, 120, 126, 127, 128, 129, 130, 135, 136, 200, 255, 256, 257, 300]
BIG = [511, 512, 1000, 1023, 1024, 1025, 1032, 2047, 2048, 2049]


def g25(s):
    n = s.choice(BIG) if s.bool(1, 8) else s.choice(NS) if s.bool(3, 4) else s.int(1, 300)
    if s.bool():
        return case(s, "ext", "block", n, 128, 128)
    bits = s.weighted([(128, 3), (8, 2), (256, 3), (16, 1), (120, 1), (136, 1), (248, 1), (8 * s.int(1, 32), 3)])
    return case(s, "ext", "bn", n, bits, bits)


def g25big(s, n):
    n = s.choice([65530, 65535, 65536, 65537, n])
    d = case(s, "ext", s.choice(["block", "bn"]), n, 128, 128)
    if "frag" in d:
        d["maxfrag"] = 100000
    d["sel"] = "".join("01"[s.raw(2)] for _ in range(n))
    d["m1"] = [hexs(int(x, 16) ^ (1 << s.raw(128))) if s.bool(7, 8) else x for x in d["m1"]]
    return d


def g25mid(s, n):
    if s.bool():
        return case(s, "ext", "block", n, 128, 128)
    bits = 8 * s.int(1, 32)
    return case(s, "ext", "bn", n, bits, bits)


g25h, e25h = huge(g25big)
g25m, e25m = huge(g25mid, lambda s: lg(s, 8000, 20))


def check25(ctx, d):
    d = (e25m if d.get("n", 0) < 60000 else e25h)(d)
    nontriv(ctx, d)
    n = len(d["sel"])
    ctx.label("m<128" if n < 128 else "m=128" if n == 128 else "m>128", d["repr"], "m%8==0" if n % 8 == 0 else "m%8!=0",
              "m>=1024" if n >= 1024 else "m<1024")
    result(d, ot(ctx, d))


def C25():
    return Prop("C25", "Random message pairs, counts around 8, 64, 128, 256, 1024, 2048 and 65536, byte-multiple big-number lengths 8-256 bits, choices and fragmentation; "
                "non-trivial: some pair differs and both choices occur.",
                [Suite("ext", g25, check25, 400, 40000, 3), Suite("mid", g25m, check25, 100, 12000, 1), Suite("huge", g25h, check25, 6, 400, 1),
                 Suite("sequence", lambda s: seq_case(s, ["base", "ext", "ext"]), check_seq, 60, 5000, 1)], W, OASSUME)


# --------------------------------------------------------------------- C26
def windows(b, w=16):
    return {b[i:i + w] for i in range(len(b) - w + 1)}


def rnd(s, n):
    """n random bits without special values"""
    v = 0
    for i in range(0, n, 32):
        v |= s.raw(1 << min(32, n - i)) << i
    return v


def sel_of(s, n):
    return "".join("01"[s.raw(2)] for _ in range(n))


def g26(s):
    kind = "ext" if s.bool() else "base"
    repr_ = "block" if s.bool() else "bn"
    if kind == "base":
        n = s.int(2, 6) if s.bool(7, 8) else s.int(7, 40)
        w = 128 if repr_ == "block" else s.choice([128, 200, 512, 1000, 1024, 1100, 2000, 3000])
    else:
        n = s.choice([40, 128, 129, 200, 300, 1023, 1030, 1160, 2100] if s.bool() else [3, 17, 64, 128, 136])
        w = 128 if repr_ == "block" else s.choice([128, 160, 256])
    same = s.bool(1, 3)
    m0 = [rnd(s, w) | 1 for _ in range(n)]
    m1 = list(m0) if same else [rnd(s, w) | 1 for _ in range(n)]
    return dict(kind=kind, repr=repr_, bits=w, m0=[hexs(x) for x in m0], m1=[hexs(x) for x in m1], sel=sel_of(s, n), sel2=sel_of(s, n),
                rngA=1 + s.raw(1 << 30), rngB=1 + s.raw(1 << 30), rng2=(1 << 31) + s.raw(1 << 30))


def both(v, nbytes):
    v &= (1 << (8 * nbytes)) - 1
    return (v.to_bytes(nbytes, "little"), v.to_bytes(nbytes, "big"))


def pieces(v, nbytes):
    """16-byte pieces of a number in both byte orders (start, middle, end)"""
    for b in both(v, nbytes):
        for o in sorted({0, (nbytes - 16) // 2, nbytes - 16}):
            if o >= 0:
                yield b[o:o + 16]


def xor_pair(win, d16):
    """two windows whose XOR is d16"""
    x = int.from_bytes(d16, "big")
    for w in win:
        if (int.from_bytes(w, "big") ^ x).to_bytes(16, "big") in win:
            return w
    return None


def streams(ctx, d, keys=None, **kw):
    r = ot(ctx, d, rec=1, **kw)
    dd = dict(d, sel=kw["sel"]) if "sel" in kw else d
    result(dd, r)
    if keys is not None:
        for p in "AB":
            for x in (r.get(p + ".rsa") or "").split(","):
                if x:
                    n, e = x.split(":")
                    keys[int(n, 16)] = int(e, 16)
    return bytes.fromhex(r["AB"]), bytes.fromhex(r["BA"])


def bns(b, o):
    """length-prefixed numbers from offset o; None unless the whole rest has that form"""
    res = []
    while o < len(b):
        n = int.from_bytes(b[o:o + 4], "little")
        if n > 4096 or o + 4 + n > len(b):
            return None
        res.append(int.from_bytes(b[o + 4:o + 4 + n], "big"))
        o += 4 + n
    return res


def base_requests(S, R, n):
    """S, R: streams of the sender and of the receiver of a base OT.  If they have the form the
    library uses today, returns (N, e, [(x0, x1)], [v], [(m0', m1')])."""
    a, v = bns(S, 8), bns(R, 0)
    if a is None or v is None or len(a) < 2 + 4 * n or len(v) < n or int.from_bytes(S[:4], "little") != n:
        return None
    N, e, x, y = a[0], a[1], a[2:2 + 2 * n], a[2 + 2 * n:2 + 4 * n]
    if N.bit_length() < 512 or not 3 <= e < 1 << 40:
        return None
    return N, e, [(x[2 * i], x[2 * i + 1]) for i in range(n)], v[:n], [(y[2 * i], y[2 * i + 1]) for i in range(n)]


def check26(ctx, d):
    n = len(d["sel"])
    ctx.nontrivial()
    ctx.label(d["kind"], d["repr"], "equal messages" if d["m0"] == d["m1"] else "different messages")
    keys = {}
    AB, BA = streams(ctx, d, keys)
    wa, wb = windows(AB), windows(BA)
    nb = (d["bits"] + 7) // 8
    # 1. no message in clear in either direction
    for i in range(n):
        for w, l in ((0, d["m0"]), (1, d["m1"])):
            for p in pieces(int(l[i], 16), nb):
                for name, win in (("sender's", wa), ("receiver's", wb)):
                    if p in win:
                        raise Fail("message", "16 bytes of message %d of pair %d are in the %s stream" % (w, i, name))
    # 2. choices in clear: packed (either order) and one byte each
    sel = [int(c) for c in d["sel"]]
    pats = []
    if n >= 64:
        k = n // 8
        lsb = bytes(sum(sel[8 * j + t] << t for t in range(8)) for j in range(k))
        msb = bytes(sum(sel[8 * j + t] << (7 - t) for t in range(8)) for j in range(k))
        pats += [p[:8] for p in (lsb, msb)] + [p[-8:] for p in (lsb, msb)]
        num = sum(b << i for i, b in enumerate(sel))
        q = num.to_bytes((n + 7) // 8, "big")
        pats += [q[:8], q[-8:]]
    if n >= 40:
        pats += [bytes(sel)[:40], bytes(x + 48 for x in sel)[:40], bytes(b for x in sel for b in (x, 0, 0, 0))[:160]]
    for p in pats:
        for name, st in (("sender's", AB), ("receiver's", BA)):
            if len(set(p)) > 1 and p in st:
                raise Fail("choices", "the choice bits are in the %s stream" % name)
    # 3. what one party sent is not sent back by the other one
    for w in wa & wb:
        if len(set(w)) > 4:
            raise Fail("echo", "16 bytes occur in both streams: %s" % w.hex())
    # 4. replies: the two messages of a pair are masked differently
    if d["m0"] == d["m1"] or d["kind"] == "ext":
        st = AB
        seen = {}
        for i in range(0, len(st) - 15):
            w = st[i:i + 16]
            if w in seen and len(set(w)) > 4:
                raise Fail("mask", "the same 16 bytes occur twice in the sender's stream (messages of a pair are %s)" % (
                    "equal" if d["m0"] == d["m1"] else "different"))
            seen[w] = i
    if d["m0"] != d["m1"] and nb >= 16:
        for i in sorted({0, n - 1, n // 2}):
            x = int(d["m0"][i], 16) ^ int(d["m1"][i], 16)
            for p in sorted(set(pieces(x, nb))):
                if len(set(p)) > 4 and xor_pair(wa, p) is not None:
                    raise Fail("mask", "two fields of the sender's stream differ exactly as the messages of pair %d do" % i)
    if d["kind"] == "ext" and n >= 128:
        num = sum(b << i for i, b in enumerate(sel))
        q = num.to_bytes((n + 7) // 8, "big")
        for p in {q[:16], q[-16:], q[len(q) // 2 - 8:len(q) // 2 + 8]}:
            if len(set(p)) > 4:
                for name, win in (("receiver's", wb), ("sender's", wa)):
                    if xor_pair(win, p) is not None:
                        raise Fail("choices", "two fields of the %s stream differ exactly as the choice vector" % name)
        if len({BA[i:i + 16] for i in range(0, len(BA) - 15)}) + 200 < len(BA) - 15:
            raise Fail("mask", "fields repeat in the receiver's stream")
    # 5. requests of a base OT hide the choice
    if d["kind"] == "base":
        f = base_requests(AB, BA, n)
        sl = sel
    else:
        f = base_requests(BA, AB, 128)      # the roles are reversed; the sender's choices are its secret
        sl = None
    if f:
        ctx.label("requests parsed")
        N, e, x, v, y = f
        small = {pow(k, e, N) for k in range(4)}
        for i in range(len(v)):
            for b in (0, 1):
                if (v[i] - x[i][b]) % N in small:
                    raise Fail("request", "request %d is derived from x%d without a random mask" % (i, b))
        ks = {}
        for i in range(len(v)):
            for b in (0, 1):
                k = (v[i] - x[i][b]) % N
                if k in ks:
                    raise Fail("request", "requests %d and %d use the same mask, which shows their choices" % (ks[k], i))
                ks[k] = i
        if len(set(v)) != len(v):
            raise Fail("request", "two requests are equal")
        # as the owner of the key: of the two values a request can be unmasked to, the one of the choice must not stand out
        if N in keys:
            ctx.label("requests unmasked")
            seen = {}
            for i in range(min(len(v), 6)):
                for b in (0, 1):
                    k = pow((v[i] - x[i][b]) % N, keys[N], N)
                    for w in {k.to_bytes((N.bit_length() + 7) // 8, "big")[o:o + 16] for o in range(0, N.bit_length() // 8 - 15, 8)}:
                        if len(set(w)) <= 4 or w in seen:
                            raise Fail("request", "the mask of request %d has %s: the key's owner sees the choice" % (
                                i, "16 bytes in common with that of request %d" % seen[w] if w in seen else "the constant part " + w.hex()))
                        seen[w] = i
    # 6. fresh in every run (a reply may only depend on the other party's randomness, hence new seeds for both)
    def repeats(x, y):
        return any(len(set(w)) > 4 for w in x & y)
    a3, b3 = streams(ctx, d, rngA=d["rng2"] + 1, rngB=d["rng2"])
    if repeats(wa, windows(a3)):
        raise Fail("fresh", "with other randomness the sender repeats parts of its stream")
    if repeats(wb, windows(b3)):
        raise Fail("fresh", "with other randomness the receiver repeats parts of its stream")
    if d["kind"] == "base":
        a2, b2 = streams(ctx, d, rngB=d["rng2"])
        if repeats(wb, windows(b2)):
            raise Fail("fresh", "with other randomness the receiver repeats parts of its requests")
        a3, b3 = streams(ctx, d, rngA=d["rng2"])
        if repeats(wb, windows(b3)):
            raise Fail("fresh", "the receiver's requests do not depend on the sender's values")
        # other choices, same randomness: every request whose choice differs is another one
        a4, b4 = streams(ctx, d, sel=d["sel2"])
        if d["sel"] != d["sel2"] and b4 == BA:
            raise Fail("request", "the requests do not depend on the choices although the outputs do")


def g26spy(s):
    n = s.choice([128, 130, 160, 200, 256, 300, 128 + lg(s, 5000)])
    k = 2 + s.raw(2)
    ns = [n if s.bool(2, 3) else s.choice([128, 129, 140, 200]) for _ in range(k)]
    return dict(kind="ext", repr=s.choice(["block", "bn"]), bits=s.choice([64, 128, 256]), sels=[sel_of(s, x) for x in ns],
                S=[hexs(s.weighted([(0, 1), ((1 << 128) - 1, 1), (rnd(s, 128), 2)])) for _ in range(k)],
                rngA=1 + s.raw(1 << 30), rngB=1 + s.raw(1 << 30))


def g26spybig(s):
    """more than 2^16 choices in one transfer"""
    return dict(kind="ext", repr="block", bits=128, sels=[sel_of(s, n) for n in (66000 + s.raw(3000), 130)],
                S=[hexs(rnd(s, 128)) for _ in range(2)], rngA=1 + s.raw(1 << 30), rngB=1 + s.raw(1 << 30))


def check26spy(ctx, d):
    """what the sender of several extended transfers gets in their base transfers"""
    k = len(d["sels"])
    a = dict(steps=k, rngA=d["rngA"], rngB=d["rngB"])
    for i in range(k):
        a.update({"kind%d" % i: d["kind"], "repr%d" % i: d["repr"], "bits%d" % i: d["bits"], "sel%d" % i: d["sels"][i], "S%d" % i: d["S"][i]})
    r = ctx.worker("opt")("otspy", **a)
    if any(r.get("%s.rc%d" % (p, i)) != "0" for p in "AB" for i in range(k)):
        ctx.label("another protocol")       # not an extension of 128 base transfers in this direction
        return
    ctx.nontrivial()
    ctx.label("%d transfers" % k)
    cols = [[int(x, 16) for x in r["A.q%d" % i].split(",")] for i in range(k)]
    ch = [sum(int(c) << j for j, c in enumerate(x)) for x in d["sels"]]
    m = min(len(x) for x in d["sels"])
    mask = (1 << m) - 1
    ch = [c & mask for c in ch]
    diffs = {0: "equal", mask: "complements"}
    for i in range(k):
        for x, w in ((ch[i], "the choices of transfer %d"), (ch[i] ^ mask, "the inverted choices of transfer %d")):
            diffs.setdefault(x, "apart by " + w % (i + 1))
        for j in range(i):
            diffs.setdefault(ch[i] ^ ch[j], "apart by the difference of the choices of transfers %d and %d" % (j + 1, i + 1))
    for v in (0, mask):         # a constant is as good as a known value
        diffs.setdefault(v, "constant")
    seen = {v: (-1, v) for v in (0,)}
    for i in range(k):
        for j, c in enumerate(cols[i]):
            c &= mask
            for x, w in diffs.items():
                if c ^ x in seen:
                    p, q = seen[c ^ x]
                    raise Fail("columns", "column %d of transfer %d and %s are %s (first %d pairs)" % (
                        j, i + 1, "zero" if p < 0 else "column %d of transfer %d" % (q, p + 1), w, m))
            seen[c] = (i, j)
    seen = {}
    full = (1 << 128) - 1
    for i in range(k):
        S = int(d["S"][i], 16)
        n = len(d["sels"][i])
        rows = [int("".join(x), 2) for x in zip(*[format(c, "0%db" % n)[::-1] for c in reversed(cols[i])])]
        for j in range(n):
            row = rows[j]
            for x, w in ((0, "equal"), (full, "complements"), (S, "apart by the sender's secret")) + (((int(d["S"][0], 16), "apart by the sender's secret"),) if i else ()):
                if row ^ x in seen:
                    p, q = seen[row ^ x]
                    raise Fail("rows", "row %d of transfer %d and row %d of transfer %d are %s: the sender sees whether the choices agree" % (
                        j, i + 1, q, p + 1, w))
            seen[row] = (i, j)


def g26seq(s):
    k = 2 + s.raw(2)
    n = s.int(1, 5)
    repr_ = "block" if s.bool() else "bn"
    steps = []
    for _ in range(k):
        if s.bool(1, 3):
            n = s.int(1, 5)
        w = 128
        steps.append(dict(kind="base", repr=repr_, bits=w, m0=[hexs(rnd(s, w) | 1) for _ in range(n)], m1=[hexs(rnd(s, w) | 1) for _ in range(n)], sel=sel_of(s, n)))
    return dict(steps=steps, dirs="A" * k if s.bool(3, 4) else "".join(s.choice("AB") for _ in range(k)), rngA=1 + s.raw(1 << 30), rngB=1 + s.raw(1 << 30))


def take(b, o, k):
    """k length-prefixed numbers from offset o, and the offset behind them"""
    v = []
    for _ in range(k):
        if o + 4 > len(b):
            return None, o
        n = int.from_bytes(b[o:o + 4], "little")
        if n > 4096 or o + 4 + n > len(b):
            return None, o
        v.append(int.from_bytes(b[o + 4:o + 4 + n], "big"))
        o += 4 + n
    return v, o


def check26seq(ctx, d):
    """several base transfers in one process: as the owner of the keys, the masks of the requests have nothing in common"""
    args = dict(dirs=d["dirs"], rec=1, rngA=d["rngA"], rngB=d["rngB"])
    for i, st in enumerate(d["steps"]):
        f = le16 if st["repr"] == "block" else (lambda x: x)
        args.update({"kind%d" % i: st["kind"], "repr%d" % i: st["repr"], "bits%d" % i: st["bits"], "sel%d" % i: st["sel"],
                     "m0%d" % i: ",".join(f(x) for x in st["m0"]), "m1%d" % i: ",".join(f(x) for x in st["m1"])})
    r = ctx.worker("opt")("otseq", **args)
    for p in "AB":
        if r[p + ".st"] != "ok" or r[p + ".rcs"] != ",".join("0" * len(d["dirs"])):
            raise Fail("status", "party %s: %s, statuses %s" % (p, r[p + ".st"], r.get(p + ".rcs")))
    stream = {"A": bytes.fromhex(r["AB"]), "B": bytes.fromhex(r["BA"])}
    # no message, and no 16 bytes of a stream twice except the sender's key
    for i, st in enumerate(d["steps"]):
        for w, l in (("first", st["m0"]), ("second", st["m1"])):
            for x in l:
                for p in pieces(int(x, 16), 16):
                    for q in "AB":
                        if p in stream[q]:
                            raise Fail("message", "a %s message of transfer %d is in the stream of party %s" % (w, i + 1, q))
    keys = {}
    for p in "AB":
        for x in (r.get(p + ".rsa") or "").split(","):
            if x:
                n, e = x.split(":")
                keys[int(n, 16)] = int(e, 16)
    off = {"A": 0, "B": 0}
    seen = {}
    for i, st in enumerate(d["steps"]):
        n = len(st["sel"])
        a, b = d["dirs"][i], "BA"[d["dirs"][i] == "B"]
        if int.from_bytes(stream[a][off[a]:off[a] + 4], "little") != n:
            return
        sv, off[a] = take(stream[a], off[a] + 8, 2 + 4 * n)
        v, off[b] = take(stream[b], off[b], n)
        if sv is None or v is None or sv[0] not in keys:
            return
        N, x, y = sv[0], sv[2:2 + 2 * n], sv[2 + 2 * n:]
        for j in range(n):
            for c in (0, 1):
                k = pow((v[j] - x[2 * j + c]) % N, keys[N], N).to_bytes((N.bit_length() + 7) // 8, "big")
                for w in {k[o:o + 16] for o in range(0, len(k) - 15, 8)}:
                    if len(set(w)) <= 4 or w in seen:
                        raise Fail("request", "the mask of request %d of transfer %d has %s: the key's owner sees the choice" % (
                            j, i + 1, "16 bytes in common with that of request %d of transfer %d" % seen[w] if w in seen else "a constant part"))
                    seen[w] = (j, i + 1)
    ctx.nontrivial()
    ctx.label("requests unmasked", "both directions" if len(set(d["dirs"])) > 1 else "one direction")


def g26len(s):
    kind = "ext" if s.bool(1, 4) else "base"
    n = s.int(1, 6) if kind == "base" else s.choice([5, 64, 130])
    repr_ = "block" if s.bool() else "bn"
    m = [[hexs(rnd(s, 128)) for _ in range(n)] for _ in range(2)]
    return dict(kind=kind, repr=repr_, bits=128, m0=m[0], m1=m[1], sel=sel_of(s, n), sel2=sel_of(s, n), seed=1 + s.raw(1 << 20))


def check26len(ctx, d):
    """stream lengths with two choice vectors; a number with a leading zero byte is a byte shorter (a property of the random
    values), so only a difference of one sign under every seed counts"""
    if d["sel"] != d["sel2"]:
        ctx.nontrivial()
    signs = {"AB": set(), "BA": set()}
    for k in range(8):
        L = []
        for sel in (d["sel"], d["sel2"]):
            r = ot(ctx, d, sel=sel, rngA=d["seed"] * 16 + k, rngB=d["seed"] * 16 + k + 8)
            result(dict(d, sel=sel), r)
            L.append((int(r["lenAB"]), int(r["lenBA"])))
        for j, p in enumerate(("AB", "BA")):
            x = L[0][j] - L[1][j]
            signs[p].add((x > 0) - (x < 0))
        if all(len(v) > 1 or v == {0} for v in signs.values()):
            break
    else:
        for p, v in signs.items():
            if len(v) == 1 and v != {0}:
                raise Fail("length", "the length of stream %s depends on the choices under all of 8 seeds" % p)


def g26sec(s):
    n = s.weighted([(1, 3), (2, 2), (9, 1)])
    rp = s.choice(["block", "bn"])
    d = case(s, "ext", rp, n, 128, 128)
    d = {k: d[k] for k in ("kind", "repr", "bits", "m0", "m1", "sel")}
    return dict(d=d, k=s.weighted([(2, 4), (4, 2), (36, 2)]), seed=s.raw(1 << 29) + 1)


def check26sec(ctx, d):
    """extended transfers of one process with the same randomness of the receiver, other randomness of the sender: the reply that
    was not asked for never comes back (her secret is a new one each time)"""
    import p_hist
    e = d["d"]
    steps = [dict(t="o", d=e, reseed=[d["seed"] + 7919 * i, d["seed"]]) for i in range(d["k"])]
    r, seq = p_hist.run(ctx, dict(steps=steps, dirs="A" * len(steps), seed=d["seed"]), rec=1)
    p_hist.judge(ctx, r, seq)
    ctx.nontrivial()
    ctx.label("%d transfers" % d["k"])
    ab = bytes.fromhex(r["AB"])
    n = len(ab) // d["k"]
    if n * d["k"] != len(ab):
        return
    seen = {}
    for i in range(d["k"]):
        x = ab[n * i:n * (i + 1)]
        own = {}
        for j in range(n - 15):
            w = x[j:j + 16]
            if len(set(w)) > 4:
                own.setdefault(w, j)
        common = {}
        for w, j in own.items():
            for p in seen.get(w, ()):
                common.setdefault(p, []).append(j)
        for p, js in common.items():
            c, at = 0, 0
            for j in sorted(js):
                c, at = c + j + 16 - max(j, at), j + 16
            if c > 32 * len(e["sel"]):      # a reply that was asked for and the lengths around it have 32 bytes at most
                raise Fail("secret", "two transfers of %d pairs with other randomness of the sender have %d bytes in common" % (len(e["sel"]), c))
        for w in own:
            seen.setdefault(w, []).append(i)


def C26():
    return Prop("C26", "Recorded streams of base and extended transfers with random messages (equal and different pairs, up to 3000 bits; up to 2100 pairs): searched "
                "for messages, choice vectors, XOR differences of messages and of the choice vector, echoes, repeated fields, masks reused between requests, "
                "and compared across runs with other randomness and other choices; series of transfers in one process, seen by the owner of the keys (base) or by a sender that "
                "reports the rows it gets (extension): no columns, rows or request masks in common.  Non-trivial: every transcript and series case; length cases with different choices.",
                [Suite("transcript", g26, check26, 160, 8000, 4), Suite("length", g26len, check26len, 100, 5000, 1),
                 Suite("spy", g26spy, check26spy, 24, 2000, 1), Suite("spybig", g26spybig, check26spy, 1, 40, 1), Suite("series", g26seq, check26seq, 60, 4000, 1),
                 Suite("secret", g26sec, check26sec, 24, 3000, 2)], W,
                OASSUME + ["Cryptographic hiding itself is assumed; the checks look for concrete leaks in the transcript.",
                           "The search for reused request masks needs today's field layout and is skipped when a transcript does not have it."])
