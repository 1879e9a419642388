"""C27-C31: transport, big numbers and blocks, the cipher, gates, packing."""
import itertools, socket
import model, gcrun, aes_ref
from model import Circ, hexs, lg
from pbt import Fail, Prop, Suite, Inconclusive
from p_gc import W

M64 = (1 << 64) - 1


# --------------------------------------------------------------------- C27
def pattern(seed):
    """the byte stream of the worker's sender"""
    s = seed & M64
    while True:
        s = (s + 0x9E3779B97F4A7C15) & M64
        z = s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        yield (z ^ (z >> 31)) & 255


def sz27(s, big):
    k = s.raw(8)
    if k == 0:
        return s.choice([0, 1, 2])
    if k < 5:
        return s.int(1, 64)
    if k < 7:
        return s.choice([15, 16, 17, 1023, 1024, 1025, 4095, 4096, 4097])
    return s.choice([32767, 32768, 32769, 65535, 65536, 65537, 100000, 300000]) if big else s.int(1, 5000)


def chop(s, n):
    """sizes that add up to n"""
    r = []
    while n:
        k = min(n, s.choice([1, 3, 16, 100, 4096, 70000]) if s.bool() else s.int(1, n))
        r.append(k)
        n -= k
        if len(r) > 40:
            r.append(n)
            break
    return [x for x in r if x]


def phases27(s, big, nmax=4):
    """several phases, in each one party sends and the other receives, or both send first"""
    A, B = [], []
    tot = 0
    for _ in range(s.int(1, nmax)):
        k = s.raw(3)
        out = []
        for _ in range(2 if k == 2 else 1):
            snd = [sz27(s, big and tot < 300000) for _ in range(s.int(1, 3))]
            tot += sum(snd)
            out.append((snd, chop(s, sum(snd))))
        if k == 0:
            A += ["s%d" % x for x in out[0][0]]
            B += ["r%d" % x for x in out[0][1]]
        elif k == 1:
            B += ["s%d" % x for x in out[0][0]]
            A += ["r%d" % x for x in out[0][1]]
        else:
            A += ["s%d" % x for x in out[0][0]] + ["r%d" % x for x in out[1][1]]
            B += ["s%d" % x for x in out[1][0]] + ["r%d" % x for x in out[0][1]]
    return A, B


def g27(s):
    A, B = phases27(s, s.bool(1, 5))
    d = dict(A=A, B=B, patA=s.raw(1 << 30), patB=s.raw(1 << 30))
    k = s.raw(4)
    if k:
        d["frag"] = 1 + s.raw(1 << 20)
        d["maxfrag"] = s.choice([1, 2, 7, 100, 5000]) if sum(int(t[1:]) for t in A + B if t[0] == "s") < 3000 else s.choice([700, 5000, 30000])
    if s.bool(1, 3):
        d["sndbuf"] = 1
    if s.bool(1, 4):
        d["itimer"] = s.choice([300, 1000, 3000])
    if s.bool(1, 3):
        d["shortw"] = 1 + s.raw(1 << 20)
    # one party ends early
    if s.bool(1, 3):
        d["early"] = s.raw(1 << 16)
    return d


def g27h(s):
    """a few calls of millions of bytes"""
    k = s.raw(3)
    n = s.choice([1 << 20, (1 << 20) + 1, (1 << 20) - 1, 2000000, (1 << 21) + 1]) if s.bool() else 300000 + s.raw(2700000)
    m = s.choice([0, 1, 17, 5000])
    snd = [n, m] if s.bool() else [m, n]
    if s.bool():
        rcv = chop(s, n + m)
    elif s.bool():
        rcv = [n + m]
    else:
        rcv = snd
    d = dict(A=["s%d" % x for x in snd], B=["r%d" % x for x in rcv], patA=s.raw(1 << 30), patB=0)
    if k == 1:
        d["A"], d["B"], d["patA"], d["patB"] = d["B"], d["A"], 0, d["patA"]
    elif k == 2:
        d["A"].append("r33")
        d["B"].append("s33")
    if s.bool():
        d["frag"], d["maxfrag"] = 1 + s.raw(1 << 20), s.choice([5000, 30000, 200000])
    if s.bool(1, 3):
        d["sndbuf"] = 1
    if s.bool():
        d["shortw"] = 1 + s.raw(1 << 20)
    if s.bool(1, 4):
        d["early"] = s.raw(1 << 16)
    return d


def lens(toks, c):
    return [int(t[1:]) for t in toks if t[0] == c]


def expect(recv, sent_len, seed):
    """log entries of the receives when the peer sends sent_len bytes and closes"""
    g = pattern(seed)
    res, pos = [], 0
    for n in recv:
        if pos is None or pos + n > sent_len:
            if n == 0:
                res.append("r0:")
                continue
            res.append("fail")
            pos = None
        else:
            res.append("r0:" + bytes(next(g) for _ in range(n)).hex())
            pos += n
    return res


def log_check(who, toks, log, want_recv, must_send):
    got = log.split()
    if len(got) != len(toks):
        raise Fail("log", "%s executed %d of %d operations" % (who, len(got), len(toks)))
    k = 0
    for t, g in zip(toks, got):
        if "GUARD" in g:
            raise Fail("overrun", "%s: %s wrote outside the buffer" % (who, t))
        if t[0] == "s":
            if must_send and g != "s0":
                raise Fail("send", "%s: send of %s bytes reports %s" % (who, t[1:], g))
        elif t[0] == "r":
            w = want_recv[k]
            k += 1
            if w == "fail":
                if g.startswith("r0:"):
                    raise Fail("short", "%s: the peer closed before %s bytes arrived, the receive reports success" % (who, t[1:]))
            elif g != w:
                a = g[:6]
                diff = next((i for i in range(0, max(len(g), len(w)), 2) if g[3 + i:5 + i] != w[3 + i:5 + i]), 0) // 2
                raise Fail("receive", "%s: receive of %s bytes gives %s..., first wrong byte %d" % (who, t[1:], a, diff))


def check27(ctx, d):
    A, B = list(d["A"]), list(d["B"])
    early = "early" in d
    if early:
        # cut the script of the party that sends last; the peer must notice
        cand = [(p, i) for p, l in (("A", A), ("B", B)) for i, t in enumerate(l) if t[0] == "s" and t != "s0"]
        if cand:
            p, i = cand[d["early"] % len(cand)]
            if p == "A":
                A = A[:i]
            else:
                B = B[:i]
        else:
            early = False
    ctx.label("early close" if early else "complete", "fragmented" if "frag" in d else "whole", "signals" if "itimer" in d else "no signals")
    if any(int(t[1:]) > 1 for t in A + B):
        ctx.nontrivial()
    opt = {k: d[k] for k in ("frag", "maxfrag", "sndbuf", "itimer", "shortw") if k in d}
    r = ctx.worker("opt")("xfer", scriptA=" ".join(A), scriptB=" ".join(B), patA=d["patA"], patB=d["patB"], **opt)
    for p in "AB":
        if r[p + ".st"] != "ok":
            raise Fail("status", "party %s ended with %s" % (p, r[p + ".st"]))
    log_check("A", A, r["A.log"], expect(lens(A, "r"), sum(lens(B, "s")), d["patB"]), not early)
    log_check("B", B, r["B.log"], expect(lens(B, "r"), sum(lens(A, "s")), d["patA"]), not early)


try:
    LOCALHOST = socket.gethostbyname("localhost") == "127.0.0.1"
except OSError:
    LOCALHOST = False


def g27t(s):
    A, B = phases27(s, False, 2)
    return dict(A=A, B=B, patA=s.raw(1 << 30), patB=s.raw(1 << 30), split=s.raw(2), twice=s.raw(2), span=s.raw(3), name=s.raw(2))


def check27t(ctx, d):
    if any(int(t[1:]) > 1 for t in d["A"] + d["B"]):
        ctx.nontrivial()
    for attempt in range(6):
        port = ctx.next_port(d.get("span", 0) if attempt < 4 else 0)
        ok = True
        for rnd in range(1 + d["twice"]):
            r = ctx.worker("opt")("tcp", port=port, ip="localhost" if d.get("name") and LOCALHOST else "127.0.0.1", split=d["split"], scriptA=" ".join(d["A"]), scriptB=" ".join(d["B"]), patA=d["patA"], patB=d["patB"])
            if "INITFAIL" in (r.get("A.log"), r.get("B.log")) or "hang" in (r["A.st"], r["B.st"]):
                ok = False      # the port may be in use: try another one
                why = (rnd, r)
                break
            for p in "AB":
                if r[p + ".st"] != "ok":
                    raise Fail("status", "party %s ended with %s" % (p, r[p + ".st"]))
            log_check("server", d["A"], r["A.log"], expect(lens(d["A"], "r"), sum(lens(d["B"], "s")), d["patB"]), True)
            log_check("client", d["B"], r["B.log"], expect(lens(d["B"], "r"), sum(lens(d["A"], "s")), d["patA"]), True)
            for p in "AB":
                if r[p + ".close"] != "0":
                    raise Fail("close", "closing reports failure")
            if r["A.still"] == "1":
                raise Fail("close", "the server still listens after it was closed")
        if ok:
            return
    raise Fail("connect", "server and client do not get connected on six ports (session %d): %s" % (why[0] + 1, {k: v for k, v in why[1].items() if len(v) < 80}))


def C27():
    return Prop("C27", "Random send/receive scripts of two parties (0-300000, in the third suite up to 3 million bytes per call, different chunking on each side) over a socket pair whose relay fragments "
                "the stream, with small socket buffers, interval signals and a peer that closes early; the received bytes are compared with the sent pattern. "
                "A second suite uses server and client over loopback TCP, also twice on one port. Non-trivial: more than one byte is transferred.",
                [Suite("stream", g27, check27, 3000, 200000, 4), Suite("tcp", g27t, check27t, 120, 4000, 1),
                 Suite("huge", g27h, check27, 24, 1500, 1)], W,
                ["Signals are delivered with SA_RESTART handlers; SIGPIPE is ignored, as a program that handles closed peers must do.",
                 "The loopback interface works."])


# --------------------------------------------------------------------- C28
def ask(ctx, calls, variant="opt"):
    st, res = ctx.worker(variant).calls_(calls)
    if st != "ok":
        raise Fail("status", "a helper ended with %s in %s" % (st, [c[0] for c in calls][:5]))
    return res


def bnval(s, hi=700):
    return s.bits(s.choice([1, 8, 63, 64, 65, 127, 128, 129]) if s.bool() else s.size(hi, 1))


def g28(s):
    calls = []
    for _ in range(s.int(1, 12)):
        k = s.raw(7)
        bits = s.weighted([(s.size(300, 1), 3), (128, 1), (64, 1), (8, 1)])
        v, w, x = bnval(s), bnval(s), bnval(s)
        if k == 0:
            calls.append(["bn_invert", hexs(v), bits])
        elif k == 1:
            calls.append(["bn_full_one", hexs(v), bits])
        elif k in (2, 3):
            calls.append(["bn_xor", hexs(x) if s.bool() else "0", bits, hexs(v), hexs(w), s.raw(4)])
        elif k == 4:
            calls.append(["block2bn", s.bits(128).to_bytes(16, "little").hex(), hexs(x)])
        elif k == 5:
            calls.append(["bn2block", hexs(s.bits(s.choice([128, 127, 121, 120, 64, 8, 1])))])
        else:
            n = s.size(40, 1)
            calls.append(["switchrow", ",".join(hexs(s.bits(bits)) for _ in range(n)), bits])
    return dict(calls=calls)


def judge28(c, r):
    f = c[0]
    if f == "bn_invert":
        v, bits = int(c[1], 16), c[2]
        rc, o = r.split(":")
        want = v ^ ((1 << bits) - 1)
        if rc == "0" or int(o, 16) != want:
            return "inversion of the low %d bits of %x gives %s" % (bits, v, o)
    elif f == "bn_full_one":
        rc, o = r.split(":")
        if rc == "0" or int(o, 16) != (1 << c[2]) - 1:
            return "the all-ones number of %d bits is %s" % (c[2], o)
    elif f == "bn_xor":
        d, bits, v, w, al = int(c[1], 16), c[2], int(c[3], 16), int(c[4], 16), c[5]
        if al == 3:
            w = v
        p = r.split(":")
        m = (1 << bits) - 1
        o = int(p[1], 16)
        if p[0] == "0" or (o ^ v ^ w) & m:
            return "low %d bits of %x xor %x (alias %d) are %s" % (bits, v, w, al, p[1])
        if al == 0 and d == 0 and o >> bits:
            return "%d-bit xor into an empty number gives %s" % (bits, p[1])
        rest = p[2:]
        if al == 0 and [int(x, 16) for x in rest] != [v, w] or al == 1 and [int(x, 16) for x in rest] != [w] \
                or al == 2 and [int(x, 16) for x in rest] != [v]:
            return "xor changes its operands %x, %x into %s" % (v, w, rest)
    elif f == "block2bn":
        if int(r, 16) != int.from_bytes(bytes.fromhex(c[1]), "little"):
            return "block %s becomes number %s" % (c[1], r)
    elif f == "bn2block":
        b, v = r.split(":")
        if int(v, 16) != int(c[1], 16):
            return "conversion changes its argument"
        if int.from_bytes(bytes.fromhex(b), "little") != int(c[1], 16):
            return "number %s becomes block %s" % (c[1], b)
    elif f == "switchrow":
        rows = [int(x, 16) for x in c[1].split(",")]
        rc, l = r.split(":")
        if rc != "0":
            return "transposition fails"
        cols = [int(x, 16) for x in l.split(",")]
        want = [sum(((v >> i) & 1) << k for k, v in enumerate(rows)) for i in range(c[2])]
        if cols != want:
            return "transposition of a %d x %d bit matrix is wrong" % (len(rows), c[2])
    return None


def run_calls(judge):
    def check(ctx, d):
        res = ask(ctx, d["calls"])
        ctx.nontrivial()
        for c, r in zip(d["calls"], res):
            ctx.label(c[0])
            m = judge(c, r)
            if m:
                raise Fail("value", m)
    return check


def g28s(s):
    A, B = [], []
    sent = []
    for _ in range(s.int(1, 5)):
        k = s.raw(12)
        v = 0 if k == 0 else s.bits(s.choice([1, 7, 8, 9, 64, 128, 1024, 1023])) if k < 6 else s.bits(s.size(3000, 1)) if k < 11 else s.bits(40000 if s.bool(3, 4) else 250000 + s.raw(600000))
        A.append("S" + hexs(v))
        B.append("R")
        if s.bool(1, 4):
            n = 16 * s.int(1, 3)
            A.append("s%d" % n)
            B.append("r%d" % n)
    d = dict(A=A, B=B, patA=s.raw(1 << 30))
    if s.bool(2, 3):
        d["frag"], d["maxfrag"] = 1 + s.raw(1 << 20), s.choice([1, 3, 50, 2000])
    if s.bool(1, 4):
        d["cut"] = s.raw(1 << 16)
    return d


def check28s(ctx, d):
    A, B = d["A"], d["B"]
    opt = {k: d[k] for k in ("frag", "maxfrag") if k in d}
    r = ctx.worker("opt")("xfer", scriptA=" ".join(A), scriptB=" ".join(B), patA=d["patA"], **opt)
    for p in "AB":
        if r[p + ".st"] != "ok":
            raise Fail("status", "party %s ended with %s" % (p, r[p + ".st"]))
    g = pattern(d["patA"])
    for ta, ga, gb in zip(A, r["A.log"].split(), r["B.log"].split()):
        if ta[0] == "S":
            v = int(ta[1:], 16)
            if v:
                ctx.nontrivial()
            if ga != "S0":
                raise Fail("send", "sending a number reports %s" % ga)
            if gb.split(":")[0] != "R0" or int(gb.split(":")[1], 16) != v:
                raise Fail("value", "number %x arrives as %s" % (v, gb))
        else:
            w = "r0:" + bytes(next(g) for _ in range(int(ta[1:]))).hex()
            if gb != w:
                raise Fail("value", "data after a number arrives as %s" % gb)
    if "cut" in d and int(r["lenAB"]) > 1:
        cut = d["cut"] % (int(r["lenAB"]) - 1)
        r = ctx.worker("opt")("xfer", scriptA=" ".join(A), scriptB=" ".join(B), patA=d["patA"], cutAB=cut, **opt)
        ctx.label("cut")
        if r["B.st"] != "ok":
            raise Fail("status", "receiver ended with %s after the connection was cut" % r["B.st"])
        if all(x[1] == "0" for x in r["B.log"].split()):
            raise Fail("cut", "the connection was cut after %d bytes and every receive reports success" % cut)


def C28():
    return Prop("C28", "Batches of random calls of the big-number and block helpers (lengths 1-700 bits, operands aliased with the destination, stale destinations, "
                "bit-matrix transposition) against Python integers; random numbers of 0-850000 bits sent over a fragmented or cut stream. Non-trivial: a call with a "
                "value is made / a non-zero number is sent.",
                [Suite("values", g28, run_calls(judge28), 3000, 300000, 2), Suite("wire", g28s, check28s, 1500, 100000, 2)], W,
                ["Numbers are non-negative, as everywhere in the protocol (the wire format has no sign)."])


# --------------------------------------------------------------------- C29
def g29(s):
    calls = []
    last = []
    blk = lambda: s.bits(128).to_bytes(16, "little").hex()

    def key_of(bits):
        """often a variation of the key before"""
        key = s.bits(bits)
        if last and s.bool():
            k = s.raw(4)
            old = last[-1] & ((1 << bits) - 1)
            key = old if k == 0 else old ^ (1 << s.raw(bits)) if k == 1 else old ^ (s.bits(8) << (8 * s.raw(bits // 8)))
            if k == 3:
                h = (1 << (bits // 2)) - 1
                key = (old & h) | (s.bits(bits // 2) << (bits // 2)) if s.bool() else (old & ~h) | s.bits(bits // 2)
        last.append(key)
        return key.to_bytes(bits // 8, "big").hex()
    for _ in range(s.int(1, 6)):
        k = s.raw(13)
        if k < 5:
            bits = s.weighted([(128, 8), (192, 1), (256, 1)])
            key = key_of(bits)
            n = s.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 33]) if s.bool() else s.size(12, 1) if s.bool(15, 16) else lg(s, 700, 1)
            calls.append([s.weighted([("aesenc", 5), ("aes1", 2), ("aesdec", 1)]), bits, key, ",".join(blk() for _ in range(n))])
        elif k == 5:
            calls.append(["mkblock", s.bits(64), s.bits(64)])
        elif k == 6:
            calls.append(["xorblock", blk(), blk()])
        elif k == 7:
            a = s.bits(128)
            b = a if s.bool(1, 3) else a ^ (1 << s.raw(128)) if s.bool() else s.bits(128)
            calls.append(["cmpblock", a.to_bytes(16, "little").hex(), b.to_bytes(16, "little").hex()])
        elif k == 8:
            calls.append(["lsb", blk()])
        elif k == 9:
            calls.append(["zero"])
        elif k == 10:
            calls.append(["switch", blk()])
        elif k == 11:
            n = s.int(1, 36)
            t = "%0*x" % (n, s.bits(4 * n))
            t = "".join(c.upper() if s.raw(2) else c for c in t)
            if s.bool(1, 3):
                p = s.raw(len(t) + 1)
                t = t[:p] + s.choice([" ", "_", "\t"]) + t[p:]
            calls.append(["str2block", t])
        else:
            calls.append(["printblock", blk()] if s.bool() else ["hexstr", s.bits(64), s.raw(25)])
    return dict(calls=calls)


def judge29(c, r):
    f = c[0]
    le = lambda h: int.from_bytes(bytes.fromhex(h), "little")
    if f.startswith("aes"):
        key = bytes.fromhex(c[2])
        fn = aes_ref.decrypt if f == "aesdec" else aes_ref.encrypt
        want = [fn(key, bytes.fromhex(b)).hex() for b in c[3].split(",")]
        if r.split(",") != want:
            i = next(i for i, (x, y) in enumerate(zip(r.split(","), want)) if x != y)
            return "%s, %d-bit key %s: block %d of %d becomes %s, FIPS-197 says %s" % (f, c[1], c[2], i, len(want), r.split(",")[i], want[i])
        return None
    if f == "mkblock": want = ((c[1] << 64) | c[2]).to_bytes(16, "little").hex()
    elif f == "xorblock": want = (le(c[1]) ^ le(c[2])).to_bytes(16, "little").hex()
    elif f == "cmpblock": want = "1" if c[1] == c[2] else "0"
    elif f == "lsb": want = str(le(c[1]) & 1)
    elif f == "zero": want = "00" * 16
    elif f == "switch": want = bytes.fromhex(c[1])[::-1].hex()
    elif f == "hexstr": want = ("%x" % c[1]).rjust(c[2], "0")
    elif f == "printblock":
        # digits of the block, then a decimal number printed with the stream's own flags
        d, _, n = r.partition("/")
        v = "".join(ch for ch in d if ch not in " _")
        if len(v) != 32 or int(v, 16) != le(c[1]):
            return "block %s is printed as %s" % (c[1], d)
        return None if n == "255" else "printing a block changes the number format of the stream (255 -> %s)" % n
    elif f == "str2block":
        t = "".join(ch for ch in c[1] if ch not in " _\t")
        rc, v = r.split(":")
        if len(t) > 32:
            return None if rc != "0" else "a hex string of %d digits is accepted as a block" % len(t)
        if rc != "0" or le(v) != int(t, 16):
            return "hex string %r is read as %s" % (c[1], v)
        return None
    if r != want:
        return "%s gives %s, expected %s" % (c, r, want)
    return None


def C29():
    return Prop("C29", "Batches of random calls of the cipher (1-700 blocks, key sizes 128/192/256, single and batched, encrypt and decrypt) against an independent FIPS-197 "
                "implementation, and of the block helpers against 128-bit integers; non-trivial: every batch (random key and block values).",
                [Suite("values", g29, run_calls(judge29), 5000, 400000, 1)], W,
                ["Hex strings given to the parser contain hexadecimal digits, blanks and underscores."])


# --------------------------------------------------------------------- C30
SRC = ["0", "1", "p", "g", "e", "P", "G", "E"]      # constants, inputs and flip-flops (initialised by each owner)
REL = ["pair", "same", "not"]


def circ30(t, a, b, rel):
    """returns circuit and for each cycle count how to set inputs"""
    sz = [0] * 6
    want = []
    for k in (a, b) if rel == "pair" else (a,):
        want.append(k)
        if k in "peg":
            sz[3 + "pge".index(k)] += 1
        elif k in "PGE":
            sz["PGE".index(k)] += 1
    base = sum(sz)
    dffs = []
    pos = {}
    off = [sum(sz[:i]) for i in range(6)]
    used = [0] * 6
    ops, where = [], []
    for k in want:
        if k in "01":
            ops.append(model.C0 if k == "0" else model.C1)
            where.append(None)
        elif k in "pge":
            i = 3 + "pge".index(k)
            ops.append(off[i] + used[i])
            where.append((i, used[i]))
            used[i] += 1
        else:
            i = "PGE".index(k)
            w = base + len(dffs)
            dffs.append((w, off[i] + used[i]))      # holds its value
            ops.append(w)
            where.append((i, used[i]))
            used[i] += 1
    g0 = base + len(dffs)
    gates = []
    if rel == "same":
        ops.append(ops[0])
    elif rel == "not":
        gates.append((ops[0], -1, model.NOT))
        ops.append(g0)
    gates.append((ops[0], -1 if t == model.NOT else ops[1], t))
    return Circ(sz, dffs, gates, [g0 + len(gates) - 1]), where


def cases30():
    res = []
    for t in model.GATES:
        for a in SRC:
            for b in SRC if t != model.NOT else ["p"]:
                for rel in REL if b == "p" and t != model.NOT else ["pair"]:
                    if rel != "pair" and a in "01":
                        continue
                    for low in (0, 1):
                        res.append(dict(t=t, a=a, b=b, rel=rel, low=low, seed=1 + len(res)))
    return res


def check30(ctx, d):
    b = d["b"] if d["t"] != model.NOT else "0"
    c, where = circ30(d["t"], d["a"], b, d["rel"])
    ini_free = any(w and w[0] < 3 for w in where)
    ctx.nontrivial()
    ctx.label("secret operands" if d["a"] in "geGE" and (d["b"] in "geGE" or d["rel"] != "pair") else "a public operand", d["rel"])
    two = len(where) == 2
    vals = [(a, b) for a in (0, 1) for b in (0, 1)] if two else [(0, 0), (1, 0)]
    # inputs change from cycle to cycle; flip-flops keep their value, hence one run per value
    runs = [vals] if not ini_free else [[v] for v in vals]
    for vs in runs:
        ini, inp = [0] * 3, [0] * 3
        exp = []
        for cy, v in enumerate(vs):
            ops = []
            for k, w in enumerate(where):
                if w is None:
                    ops.append(int((d["a"], b)[k]))
                    continue
                i, n = w
                if i < 3:
                    ini[i] |= v[k] << n
                else:
                    inp[i - 3] |= v[k] << (n + cy * c.sz[i])
                ops.append(v[k])
            if d["rel"] == "same":
                ops = [ops[0], ops[0]]
            elif d["rel"] == "not":
                ops = [ops[0], 1 - ops[0]]
            exp.append(model.op(d["t"], *(ops[:2] if d["t"] != model.NOT else ops[:1])))
        for mask in (0, 1):
            r = gcrun.run(ctx, c, ini, inp, len(vs), mask, 1, 0, 1, d["low"], rngA=d["seed"], rngB=d["seed"] + 9000, srandA=d["seed"], srandB=d["seed"] + 1)
            gcrun.judge(r, exp, 1, mask, 1, "%s(%s, %s) %s: " % (model.NAMES[d["t"]], d["a"], d["b"], d["rel"]))
        ctx.write("c.scd.map", "terminate\t0\n")
        r = ctx.worker("opt")("plain", scd=ctx.path("c.scd"), pinit=hexs(ini[0]), ginit=hexs(ini[1]), einit=hexs(ini[2]), pinput=hexs(inp[0]),
                              ginput=hexs(inp[1]), einput=hexs(inp[2]), cycles=len(vs), term=0, mode=1)
        if r["r.st"] != "ok" or r["r.rc"] != "0":
            raise Fail("plain", "plaintext evaluator: %s, status %s" % (r["r.st"], r.get("r.rc")))
        if gcrun.parse(r["r.out"]) != exp:
            raise Fail("plain", "%s(%s, %s) %s: plaintext evaluator gives %s, expected %s" % (
                model.NAMES[d["t"]], d["a"], d["b"], d["rel"], r["r.out"].split("\n"), exp))


def check30t(ctx, d):
    ctx.nontrivial()
    calls = []
    for t in model.GATES:
        for a in (0, 1):
            for b in (0, 1):
                calls.append(["gate", t, a, b])
            calls.append(["gate1", t, a])
        calls.append(["type2v", t])
    res = dict(zip([tuple(c) for c in calls], ask(ctx, calls)))
    for t in model.GATES:
        for a in (0, 1):
            for b in (0, 1):
                want = model.op(t, a, b)
                if int(res[("gate", t, a, b)]) != want:
                    raise Fail("operator", "%s(%d, %d) is %s" % (model.NAMES[t], a, b, res[("gate", t, a, b)]))
                v = int(res[("type2v", t)])
                if t not in model.FREE and (((a ^ (v & 1)) & (b ^ ((v >> 1) & 1))) ^ ((v >> 2) & 1)) != want:
                    raise Fail("halfgate", "half-gate form %d of %s is wrong for (%d, %d)" % (v, model.NAMES[t], a, b))
        if t == model.NOT:
            for a in (0, 1):
                if int(res[("gate1", t, a)]) != 1 - a:
                    raise Fail("operator", "NOT(%d) is %s" % (a, res[("gate1", t, a)]))


def g30(s):
    """one gate repeated in a small sea of the same type, so that table positions and tweaks vary"""
    t = s.choice(model.GATES)
    n = s.int(2, 6)
    sz = [0, 0, 0, s.raw(2), 1 + s.raw(3), 1 + s.raw(3)]
    base = sum(sz)
    gates = []
    for i in range(n):
        a, b = s.raw(base + i), s.raw(base + i)
        gates.append((a, -1 if t == model.NOT else b, t))
    c = Circ(sz, [], gates, [base + i for i in range(n)])
    cyc = s.int(1, 4)
    inp = [hexs(s.bits(x * cyc)) for x in sz[3:]]
    return dict(c=c.json(), inp=inp, cycles=cyc, mask=hexs(s.bits(n)), low=s.raw(2), seed=1 + s.raw(1 << 16))


def check30s(ctx, d):
    c = Circ.of(d["c"])
    inp = [int(x, 16) for x in d["inp"]]
    ctx.nontrivial()
    ctx.label("sea of " + model.NAMES[c.gates[0][2]])
    r = gcrun.run(ctx, c, [0] * 3, inp, d["cycles"], int(d["mask"], 16), 1, 0, 1, d["low"], rngA=d["seed"], rngB=d["seed"] + 1, srandA=d["seed"], srandB=3)
    gcrun.judge(r, c.run([0] * 3, inp, d["cycles"]), len(c.outs), int(d["mask"], 16), 1, model.NAMES[c.gates[0][2]] + ": ")


def C30():
    return Prop("C30", "Exhaustive: operator table and half-gate form of every gate type; every gate type x source of each operand (constant, input or flip-flop of each "
                "owner; one operand repeated or inverted) x all values x both output owners x both engines, in the two-party run and in the plaintext evaluator. "
                "Random: circuits of one gate type. Non-trivial: every case.",
                [Suite("table", lambda s: {}, check30t, 0, 0, 1, exhaustive=[{}]),
                 Suite("gates", lambda s: cases30()[0], check30, 0, 0, 6, exhaustive=cases30()),
                 Suite("sea", g30, check30s, 1500, 150000, 2)], W, [])


# --------------------------------------------------------------------- C31
def g31(s):
    k = s.raw(9)
    if k < 2:
        n = s.int(1, 12) if s.bool(7, 8) else s.choice([255, 256, 257, 300])
        l = [s.choice([1, 4, 7, 8, 16, 31, 32, 33, 63, 64]) if s.bool() else s.int(1, 64) for _ in range(n)]
        if s.bool(1, 40):
            n = s.choice([1100, 2200])
            l = [64] * n
        return dict(call=["fmtin", ",".join(str(s.bits(64)) for _ in range(n)), ",".join(map(str, l))])
    if k < 5:
        n = s.int(1, 12) if s.bool(7, 8) else s.choice([255, 256, 257, 300])
        l = [s.choice([1, 2, 4, 7, 8, 16, 31, 32, 33, 62, 63, 64]) if s.bool() else s.int(1, 64) for _ in range(n)]
        if s.bool(1, 40):
            n = s.choice([1100, 1200])
            l = [60] * n
        off = s.size(100)
        t = sum(l) + off
        w = max(1, t + s.int(-12, 12)) if s.bool() else t
        nd = (w + 3) // 4
        v = s.bits(w)
        h = "%0*x" % (nd, v)
        if s.bool():
            h = h.upper()
        z = s.raw(3)
        h = "0" * s.raw(9) + h if z == 0 else (h.lstrip("0") or "0") if z == 1 else h
        return dict(call=["parseout", h, ",".join(map(str, l)), off])
    if k == 5:
        n = s.int(1, 64)
        v = s.bits(64)
        if v >> 63:
            v -= 1 << 64
        return dict(call=["dec2bin", v, n])
    if k == 6:
        n = s.int(1, 64)
        sg = s.raw(2)
        v = s.bits(n)
        if n == 64:
            v = v | 1 if sg else v >> 1
        return dict(call=["bin2dec", format(v, "0%db" % n), sg])
    if k == 7:
        n = s.size(200, 1)
        if s.bool(1, 60):
            n = 70000
        b = format(s.bits(n), "0%db" % n)
        return dict(call=["bin2hex", b] if s.bool() else ["hex2bin", "%0*x" % (n, s.bits(4 * n))] if s.bool() else ["twos", b[:60]])
    if s.bool():
        return dict(call=["mask", s.size(300), s.size(300), s.raw(2)])
    t = "".join(s.choice("abcXYZ019_") for _ in range(s.int(0, 8)))
    u = t.swapcase() if s.bool() else t[:-1] + "q" if s.bool() else t + "a"
    return dict(call=["icompare", t, u])


def judge31(c, r):
    f = c[0]
    if f == "fmtin":
        v, l = [int(x) for x in c[1].split(",")], [int(x) for x in c[2].split(",")]
        n = 0
        for x, w in zip(v, l):
            n = (n << w) | (x & ((1 << w) - 1))
        if int(r, 16) != n:
            return "packing %s with lengths %s gives %s, expected %x" % (v[:8], l[:8], r[:80], n)
    elif f == "parseout":
        l = [int(x) for x in c[2].split(",")]
        v = int(c[1], 16) >> c[3]
        want = []
        for w in reversed(l):
            x = v & ((1 << w) - 1)
            want.append(x - (1 << w) if x >> (w - 1) else x)
            v >>= w
        want.reverse()
        got = [int(x) for x in r.split(",")]
        want = [g if w == -1 << 63 else w for w, g in zip(want, got)] + want[len(got):]
        if got != want:
            i = next(i for i in range(len(want)) if i >= len(got) or got[i] != want[i])
            return "unpacking %s (lengths %s..., offset %d): field %d of %d is %s, expected %d" % (
                c[1][:60], l[:6], c[3], i, len(want), got[i] if i < len(got) else None, want[i])
    elif f == "dec2bin":
        want = format(c[1] & ((1 << c[2]) - 1), "0%db" % c[2])
        if r != want:
            return "%d in %d bits is %s" % (c[1], c[2], r)
    elif f == "bin2dec":
        v = int(c[1], 2)
        if c[2] and c[1][0] == "1":
            v -= 1 << len(c[1])
        if int(r) != v:
            return "%s (%s) is %s" % (c[1], "signed" if c[2] else "unsigned", r)
    elif f == "bin2hex":
        if len(r) * 4 < len(c[1]) or int(r, 16) != int(c[1], 2):
            return "binary %s... of %d bits becomes hex %s..." % (c[1][:60], len(c[1]), r[:40])
    elif f == "hex2bin":
        if len(r) != 4 * len(c[1]) or int(r, 2) != int(c[1], 16):
            return "hex %s... of %d digits becomes binary of %d bits" % (c[1][:40], len(c[1]), len(r))
    elif f == "twos":
        n = len(c[1])
        if len(r) != n or int(r, 2) != (-int(c[1], 2)) & ((1 << n) - 1):
            return "two's complement of %s is %s" % (c[1], r)
    elif f == "mask":
        g, e, left = c[1:]
        want = ((1 << g) - 1) << (e if left else 0)
        if int(r or "0", 16) != want or len(r) * 4 < g + e:
            return "mask for %d garbler and %d evaluator bits (left=%d) is %s" % (g, e, left, r)
    elif f == "icompare":
        if (r == "1") != (c[1].lower() == c[2].lower()):
            return "comparison of %r and %r ignoring case gives %s" % (c[1], c[2], r)
    return None


def check31(ctx, d):
    c = d["call"]
    ctx.label(c[0])
    ctx.nontrivial()
    m = judge31(c, ask(ctx, [c])[0])
    if m:
        raise Fail("value", m)


def g31i(s):
    """pack, then unpack"""
    n = s.int(1, 20)
    l = [s.int(1, 64) for _ in range(n)]
    return dict(v=[s.bits(w) | (w == 64) for w in l], l=l, off=s.size(70))


def check31i(ctx, d):
    ctx.nontrivial()
    l = ",".join(map(str, d["l"]))
    h = ask(ctx, [["fmtin", ",".join(map(str, d["v"])), l]])[0]
    h2 = "%x" % (int(h, 16) << d["off"] | ((1 << d["off"]) - 1))
    got = [int(x) for x in ask(ctx, [["parseout", h2, l, d["off"]]])[0].split(",")]
    want = [v - (1 << w) if v >> (w - 1) else v for v, w in zip(d["v"], d["l"])]
    if got != want:
        raise Fail("roundtrip", "packing and unpacking with lengths %s gives %s, expected %s" % (d["l"], got, want))


def C31():
    return Prop("C31", "Random calls of the packing and conversion helpers against integer arithmetic: 1-300 (rarely 2200) fields of 1-64 bits, offsets 0-100, leading zeros "
                "added or removed, both letter cases, masks up to 600 bits; and pack-then-unpack round trips. Non-trivial: every case.",
                [Suite("values", g31, check31, 5000, 500000, 2), Suite("roundtrip", g31i, check31i, 1500, 150000, 1)], W,
                ["Fields are at most 64 bits wide; -2^63, whose conversion overflows int64_t, is left out."])
