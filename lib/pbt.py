"""Small property-based testing framework (standard library only).

A case is drawn from a choice sequence (a list of bounded integers), so that any
generator shrinks and replays for free: the shrinker edits the choice list and
re-runs generator and check.  All randomness comes from VERIF_SEED.
"""
import hashlib, json, multiprocessing as mp, os, random, re, signal, subprocess, sys, time, traceback, shutil, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VP_OUT", HERE)


class Fail(Exception):
    """The property is violated.  kind: stable class of the failure."""
    def __init__(self, kind, detail=""):
        Exception.__init__(self, kind + ": " + detail)
        self.kind, self.detail = kind, detail


class Inconclusive(Exception):
    """The case could not be decided (never a violation)."""


class Src:
    """Source of choices."""
    def __init__(self, rng=None, choices=None):
        self.rng, self.pre, self.out = rng, choices, []

    def raw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        i = len(self.out)
        if self.pre is not None:
            v = self.pre[i] if i < len(self.pre) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """true with probability num/den; shrinks to false"""
        return self.raw(den) >= den - num

    def choice(self, xs):
        return xs[self.raw(len(xs))]

    def weighted(self, pairs):
        """pairs (value, weight); shrinks to the first one"""
        t = sum(w for _, w in pairs)
        v = self.raw(t)
        for x, w in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][0]

    def bits(self, n):
        """n-bit number; special values are frequent"""
        if n == 0:
            return 0
        k = self.raw(12)
        if k == 0:
            return 0
        if k == 1:
            return (1 << n) - 1
        if k == 2:
            return 1 << self.raw(n)
        if k == 3:
            return ((1 << n) - 1) ^ (1 << self.raw(n))
        v = 0
        for i in range(0, n, 32):
            v |= self.raw(1 << min(32, n - i)) << i
        return v

    def size(self, hi, lo=0):
        """size in [lo, hi], small values are frequent"""
        if hi <= lo:
            return lo
        k = self.raw(4)
        if k < 2:
            return min(hi, lo + self.raw(min(hi - lo + 1, 5)))
        if k == 2:
            return lo + self.raw(min(hi - lo + 1, 17))
        return lo + self.raw(hi - lo + 1)

    def perm(self, n):
        xs = list(range(n))
        for i in range(n - 1):
            j = i + self.raw(n - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


def enc(s):
    return re.sub(r"[%\t\n\r=|]", lambda m: "%%%02X" % ord(m.group(0)), s)


def dec(s):
    return re.sub(r"%([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


class Worker:
    """The C++ worker process."""
    def __init__(self, path, scratch, env=None, under=()):
        self.path, self.scratch, self.env, self.under = path, scratch, env, list(under)
        self.p = None
        self.calls = 0

    def start(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
        if self.env:
            e.update(self.env)
        self.errpath = os.path.join(self.scratch, "worker.err")
        self.err = open(self.errpath, "w+b")
        self.p = subprocess.Popen(self.under + [self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=self.scratch, env=e, close_fds=True)

    def err_tail(self, n=1500):
        try:
            with open(self.errpath, "rb") as f:
                return f.read()[-n:].decode(errors="replace")
        except OSError:
            return ""

    def __call__(self, op, **kw):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.calls += 1
        if self.calls % 200 == 0:
            self.err.seek(0)
            self.err.truncate()
        line = "op=" + op + "".join("\t%s=%s" % (k, enc(str(v))) for k, v in kw.items()) + "\n"
        try:
            self.p.stdin.write(line.encode("latin-1"))
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            r = b""
        if not r.endswith(b"\n"):
            self.p.wait()
            self.p = None
            raise Inconclusive("worker died: " + self.err_tail(400))
        out = {}
        for f in r.decode("latin-1").rstrip("\n").split("\t"):
            k, _, v = f.partition("=")
            out[k] = dec(v)
        if "err" in out:
            raise RuntimeError(out["err"])
        for k, v in out.items():
            if k.endswith(".st") and v == "timeout":
                raise Inconclusive("wall-clock cap reached")
        return out

    def calls_(self, calls, **kw):
        """batch of value functions; returns the list of results"""
        args = {"n": len(calls)}
        for i, c in enumerate(calls):
            args["c%d" % i] = "|".join(enc(str(x)) for x in c)
        r = self("calls", **args, **kw)
        if r["r.st"] != "ok":
            return r["r.st"], []
        return "ok", [r["r.r%d" % i] for i in range(len(calls))]

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


class Ctx:
    """What a check gets: the worker(s), a scratch directory, statistics."""
    def __init__(self, bins, idx, tier):
        self.bins, self.idx, self.tier = bins, idx, tier
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="vpchk-", dir=base)
        self._w = {}
        self.labels = {}
        self.nt = False
        self.force = None
        self.spans = {}
        self.port = 20000 + (os.getpid() * 7919) % 10000 // 8 * 8 + idx

    def worker(self, variant="opt"):
        variant = self.force or variant
        if variant not in self._w:
            d = os.path.join(self.dir, "w-" + variant)
            os.makedirs(d, exist_ok=True)
            if variant == "vg":         # the ordinary worker under Memcheck; a log per process
                self._w[variant] = Worker(self.bins[("opt", "worker")], d, under=[
                    "valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", "--log-file=" + os.path.join(d, "vg.%p")])
            else:
                self._w[variant] = Worker(self.bins[(variant, "worker")], d)
        return self._w[variant]

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial(self):
        self.nt = True

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def next_port(self, span=0):
        """span 0: 20000-32000, 1: 61000-65535, 2: 1100-19000"""
        if span:
            lo, hi = ((61000, 65535), (1100, 19000))[span - 1]
            self.spans[span] = self.spans.get(span, (os.getpid() * 104729) % (hi - lo) // 8 * 8) + 8
            return lo + self.spans[span] % ((hi - lo) // 8 * 8) + self.idx % 8
        self.port += 8
        if self.port > 32000:           # below the ports the system hands out
            self.spans = {}
        self.port = 20000 + self.idx
        return self.port

    def close(self):
        for w in self._w.values():
            w.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Suite:
    def __init__(self, name, gen, check, quick, thorough, weight=1.0, exhaustive=None, need=None):
        """gen(src)->case (JSON-able), check(ctx, case) raises Fail.
        quick/thorough: number of cases.  exhaustive: list of cases run first."""
        self.name, self.gen, self.check = name, gen, check
        self.n = dict(quick=quick, thorough=thorough)
        self.weight, self.exhaustive = weight, exhaustive


class Prop:
    def __init__(self, pid, rule, suites, targets, assumptions=(), level="exploration", exhaustive=False):
        self.id, self.rule, self.suites, self.targets = pid, rule, suites, targets
        self.assumptions, self.level, self.exhaustive = list(assumptions), level, exhaustive


def case_hash(suite, case):
    return hashlib.sha256((suite + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


def run_case(ctx, suite, case):
    """returns None or (kind, detail)"""
    ctx.nt = False
    try:
        suite.check(ctx, case)
        return None
    except Fail as f:
        return (f.kind, f.detail)
    except (ValueError, IndexError, KeyError, TypeError, OverflowError) as e:
        # an answer of the code under test that the check cannot even read (on the unchanged tree none is like that)
        at = traceback.extract_tb(e.__traceback__)[-1]
        return ("unreadable", "an answer has an unexpected form: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(at.filename), at.lineno))


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def known_match(known, pid, suite, fail):
    for k in known:
        if k["property"] == pid and k.get("suite") in (None, suite) and re.search(k["match"], fail[0] + ": " + fail[1], re.S):
            return k
    return None


def _child(prop, bins, tier, seed, idx, nproc, budget, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx(bins, idx, tier)
    known = load_known()
    st = dict(ev=0, nt=set(), samples=[], inconclusive=0, known={}, per={}, inc_msg=[])
    t0 = time.time()
    tot = sum(s.weight for s in prop.suites)
    scale = float(os.environ.get("VP_SCALE", "1"))
    try:
        for s in prop.suites:
            n = s.n[tier] if scale == 1 else max(nproc, int(s.n[tier] * scale))
            t_s = time.time()
            share = budget * s.weight / tot
            cases = list(s.exhaustive or [])
            done = 0
            for i in range(idx, n + len(cases), nproc):
                if stop.is_set() or (time.time() - t_s > share and i >= len(cases)):
                    break
                if i < len(cases):
                    case, choices = cases[i], None
                else:
                    src = Src(rng=random.Random("%d/%s/%s/%d" % (seed, prop.id, s.name, i - len(cases))))
                    case = s.gen(src)
                    choices = src.out
                t_c = time.time()
                try:
                    f = run_case(ctx, s, case)
                except Inconclusive as e:
                    st["inconclusive"] += 1
                    st["inc_msg"].append(str(e)[:300])
                    continue
                st["ev"] += 1
                done += 1
                if "VP_SLOW" in os.environ and time.time() - t_c > float(os.environ["VP_SLOW"]):
                    sys.stderr.write("slow %.1f s: %s %s\n" % (time.time() - t_c, s.name, json.dumps(case)[:300]))
                if ctx.nt:
                    h = case_hash(s.name, case)
                    if h not in st["nt"]:
                        st["nt"].add(h)
                        if len(st["samples"]) < 2 and (len(st["samples"]) == 0 or i > nproc):
                            st["samples"].append(dict(suite=s.name, case=case))
                if f:
                    k = known_match(known, prop.id, s.name, f)
                    if k:
                        st["known"][k["id"]] = st["known"].get(k["id"], 0) + 1
                        continue
                    # a failure that never comes back is not one (a loaded machine, a port in use)
                    again = None
                    for _ in range(reruns(f)):
                        try:
                            again = run_case(ctx, s, case)
                        except Inconclusive:
                            pass
                        if again:
                            break
                    if not again:
                        st["inconclusive"] += 1
                        st["inc_msg"].append("unreproducible: %s: %s" % (f[0], f[1][:200]))
                        continue
                    q.put(("fail", s.name, case, choices, f))
                    stop.set()
                    break
            st["per"][s.name] = done
    except Exception:
        q.put(("error", traceback.format_exc()))
        stop.set()
    finally:
        st["labels"] = ctx.labels
        ctx.close()
        q.put(("done", st))


def waits(f):
    """a failure that a loaded machine might imitate"""
    return f[0] in ("hang", "status", "connect", "close", "timeout", "plain-status")


def reruns(f):
    """how often a failure is looked for again; a wrong value may need a rare schedule"""
    return 3 if waits(f) else 20


def shrink(prop, suite, ctx, choices, fail, budget):
    known = load_known()
    best = list(choices)
    t0 = time.time()
    tried = set()
    evals = [0]

    def ok(c):
        key = tuple(c)
        if key in tried or time.time() - t0 > budget:
            return None
        tried.add(key)
        src = Src(choices=list(c))
        try:
            case = suite.gen(src)
            evals[0] += 1
            f = run_case(ctx, suite, case)
        except Inconclusive:
            return None
        except Exception:
            return None
        if f and f[0] == fail[0] and not known_match(known, prop.id, suite.name, f):
            return (src.out, case, f)
        return None

    res = None
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        # delete chunks
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(best) and time.time() - t0 < budget:
                c = best[:i] + best[i + k:]
                r = ok(c)
                if r and (len(r[0]), r[0]) < (len(best), best):
                    best, res, improved = r[0], r, True
                else:
                    i += k
            k //= 2
        # zero / lower values
        for i in range(len(best)):
            if time.time() - t0 > budget:
                break
            if i >= len(best) or best[i] == 0:
                continue
            for v in (0, 1, best[i] // 2, best[i] - 1):
                if i < len(best) and v < best[i]:
                    c = best[:i] + [v] + best[i + 1:]
                    r = ok(c)
                    if r and (len(r[0]), r[0]) < (len(best), best):
                        best, res, improved = r[0], r, True
                        break
    return res, evals[0]


def run_prop(prop, bins, tier, seed, budget, nproc=8):
    mpc = mp.get_context("fork")
    q, stop = mpc.Queue(), mpc.Event()
    t0 = time.time()
    ps = [mpc.Process(target=_child, args=(prop, bins, tier, seed, i, nproc, budget, q, stop)) for i in range(nproc)]
    for p in ps:
        p.start()
    fails, errors, stats, done = [], [], [], 0
    while done < nproc:
        try:
            m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
            continue
        if m[0] == "fail":
            fails.append(m[1:])
        elif m[0] == "error":
            errors.append(m[1])
        else:
            stats.append(m[1])
            done += 1
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    tot = dict(ev=0, nt=set(), samples=[], inconclusive=0, known={}, labels={}, per={}, inc_msg=[])
    for s in stats:
        tot["ev"] += s["ev"]
        tot["nt"] |= s["nt"]
        tot["samples"] += s["samples"]
        tot["inconclusive"] += s["inconclusive"]
        tot["inc_msg"] += s["inc_msg"]
        for d in ("known", "labels", "per"):
            for k, v in s[d].items():
                tot[d][k] = tot[d].get(k, 0) + v
    tot["wall"] = time.time() - t0
    return tot, fails, errors


def write_evidence(prop, tier, seed, tot, violations, extra_wall):
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    # a few samples, one per suite first
    seen, samples = set(), []
    for s in sorted(tot["samples"], key=lambda s: len(json.dumps(s))):
        if s["suite"] not in seen:
            seen.add(s["suite"])
            samples.append(s)
    for s in tot["samples"]:
        if len(samples) < 6 and s not in samples:
            samples.append(s)
    def clip(x):
        t = json.dumps(x)
        return x if len(t) < 6000 else json.dumps(x)[:6000] + "...(cut)"
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level,
              coverage=dict(evaluations=tot["ev"], distinct_nontrivial=len(tot["nt"]), rule=prop.rule,
                            samples=[clip(s) for s in samples[:8]], cases_per_suite=tot["per"],
                            classes=dict(sorted(tot["labels"].items())), inconclusive=tot["inconclusive"],
                            known_findings_hit=tot["known"], exhaustive=False),
              assumptions=prop.assumptions, wall_s=round(tot["wall"] + extra_wall, 2), violations=violations)
    p = os.path.join(OUT, "evidence", prop.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def main(props):
    import argparse
    import build
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--suite")
    a = ap.parse_args()
    prop = props(a.prop)
    t0 = time.time()
    try:
        bins = build.build(prop.targets)
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        sys.exit(2)
    tb = time.time() - t0
    if a.suite:
        prop.suites = [s for s in prop.suites if s.name == a.suite]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        ctx = Ctx(bins, 0, a.tier)
        s = [s for s in prop.suites if s.name == r["suite"]][0]
        f = None
        for _ in range(reruns((r["kind"],))):
            f = f or run_case(ctx, s, r["case"])
        ctx.close()
        if f:
            print("reproduced: %s: %s" % f)
            print("VIOLATION property=%s replay=%s" % (prop.id, a.replay))
            sys.exit(1)
        print("not reproduced")
        sys.exit(0)
    budget = a.budget or (40.0 if a.tier == "quick" else 3600.0)
    tot, fails, errors = run_prop(prop, bins, a.tier, a.seed, budget, int(os.environ.get("VP_NPROC", "8")))
    code = 0
    if os.environ.get("VP_FAST"):       # development: only the verdict
        for s, c, ch, f in fails[:1]:
            print("FAST-FAIL %s [%s] %s: %s" % (prop.id, s, f[0], f[1][:300]))
        if errors:
            print("CHECK-ERROR\n" + errors[0])
        sys.exit(1 if fails else 2 if errors else 0)
    if errors:
        print("CHECK-ERROR\n" + errors[0])
        code = 2
    for k in load_known():
        if k["property"] == prop.id and (tot["known"].get(k["id"]) or True):
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    nviol = 0
    if fails:
        ctx = Ctx(bins, 0, a.tier)
        for sname, case, choices, fail in fails[:4]:
            suite = [s for s in prop.suites if s.name == sname][0]
            sh = None
            if choices is not None:
                sh, n = shrink(prop, suite, ctx, choices, fail, 30 if a.tier == "quick" else 180)
            cands = ([(sh[1], sh[2], "shrunk")] if sh else []) + [(case, fail, "as generated")]
            for c, f, how in cands:
                hits, need, n = 0, 3 if waits(f) else 2, reruns(f) + 3
                t1 = time.time()
                for _ in range(n):
                    if hits == 0 and time.time() - t1 > 60:
                        break
                    try:
                        r = run_case(ctx, suite, c)
                    except Inconclusive:
                        r = None
                    if r:
                        hits += 1
                    if hits == need:
                        break
                if hits == need:
                    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
                    p = os.path.join(OUT, "replays", "%s-%s.json" % (prop.id, case_hash(sname, c)))
                    with open(p, "w") as fo:
                        json.dump(dict(property=prop.id, suite=sname, kind=f[0], detail=f[1], how=how, case=c), fo, indent=1)
                    print("%s [%s] (%s) %s: %s" % (prop.id, sname, how, f[0], f[1][:1500]))
                    print("case: " + json.dumps(c)[:3000])
                    print("VIOLATION property=%s replay=%s" % (prop.id, p))
                    nviol = 1
                    code = 1
                    break
            else:
                print("unreproducible failure (not reported): %s: %s" % fail)
                tot["inconclusive"] += 1
            if nviol:
                break
        ctx.close()
    write_evidence(prop, a.tier, a.seed, tot, nviol, tb)
    print("%s: tier=%s seed=%d evaluations=%d nontrivial=%d inconclusive=%d build=%.1fs run=%.1fs"
          % (prop.id, a.tier, a.seed, tot["ev"], len(tot["nt"]), tot["inconclusive"], tb, tot["wall"]))
    if tot["inc_msg"]:
        print("inconclusive:", tot["inc_msg"][:3])
    if a.tier == "quick" and os.environ.get("VP_LABELS"):
        print(json.dumps(dict(sorted(tot["labels"].items())), indent=0), tot["per"])
    sys.exit(code)
