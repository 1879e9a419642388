"""Builds the worker and the command-line programs from REPO's working tree.

Everything goes to /verif/build (git-ignored), keyed by a hash of the file
contents, so that a changed tree is always rebuilt and an unchanged one is not.
Nothing is written inside the repository.
"""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, time, fcntl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
DIRS = ["util", "crypto", "tcpip", "scd", "garbled_circuit"]
BASE = ["-std=c++11", "-march=x86-64-v2", "-maes", "-mpclmul", "-w", "-DNDEBUG"]
VARIANTS = {
    "opt": ("g++", ["-O1"], []),
    # release flags as CMake's; used for the programs
    "rel": ("g++", ["-O3"], []),
    # with every allocation counted
    "heap": ("g++", ["-O1", "-DVP_HEAP"], []),
    # memory errors only: no arithmetic checks
    "asan": ("g++", ["-O1", "-g1", "-fsanitize=address,bounds,null,object-size,bool,return,vla-bound",
                     "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
             ["-fsanitize=address,undefined"]),
}
LIBS = ["-lcrypto", "-lboost_program_options", "-lpthread"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


MAIN_RE = re.compile(rb"^\s*(int|auto|void)\s+main\s*\(", re.M)


def sources():
    libs, mains = [], {}
    for d in DIRS:
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            b = os.path.basename(p)
            if re.search(r"_test(suit)?\.cpp$", b) or b.endswith("_testing.cpp") or b == "a23_test_main.cpp":
                continue
            if MAIN_RE.search(_read(p)):
                mains[b] = p
            else:
                libs.append(p)
    return libs, mains


def headers_hash():
    hs = []
    for d in DIRS:
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.h")) + glob.glob(os.path.join(REPO, d, "*.hpp"))
                        + glob.glob(os.path.join(REPO, d, "*.in"))):
            hs.append(os.path.relpath(p, REPO))
            hs.append(_read(p))
    return _h(*hs)


def config_dir():
    """tinygarble_config.h as CMake would generate it."""
    src = _read(os.path.join(REPO, "util", "tinygarble_config.h.in")).decode()
    cm = _read(os.path.join(REPO, "CMakeLists.txt")).decode()
    vals = dict(re.findall(r"set\s*\(\s*(TinyGarble_VERSION_\w+)\s+(\d+)\s*\)", cm))
    vals.update(CMAKE_SOURCE_DIR=REPO, CMAKE_BINARY_DIR=REPO + "/_build")
    out = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), src)
    out = re.sub(r"#cmakedefine\s+ENABLE_LOG", "#define ENABLE_LOG", out)
    out = re.sub(r"#cmakedefine\s+(\w+)", r"/* #undef \1 */", out)
    d = os.path.join(BUILD, "cfg-" + _h(out))
    os.makedirs(d + "/util", exist_ok=True)
    p = d + "/util/tinygarble_config.h"
    if not os.path.exists(p) or _read(p).decode() != out:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(out)
        os.rename(tmp, p)
    return d


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-4000:])


def _compile(src, cc, flags, hh, cfg, lang=None):
    key = _h(cc, " ".join(flags), hh, src, _read(src), cfg)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        cmd = [cc] + flags + ["-I" + cfg, "-I" + REPO, "-I" + os.path.join(REPO, "a23", "include")]
        cmd += (["-x", lang] if lang else []) + ["-c", src, "-o", tmp]
        _run(cmd)
        os.rename(tmp, obj)
    return obj


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(keep_days=0.5):
    """Drops old objects and binaries so that the directory stays small."""
    now = time.time()
    for p in glob.glob(os.path.join(BUILD, "obj", "*.o")) + glob.glob(os.path.join(BUILD, "bin", "*")) + glob.glob(os.path.join(BUILD, "arm", "*.txt")):
        try:
            if now - os.stat(p).st_mtime > keep_days * 86400:
                os.unlink(p)
        except OSError:
            pass


def find(*names):
    for n in names:
        for d in ("/usr/bin/", ""):
            p = shutil.which(d + n)
            if p:
                return p
    return names[0]


def splitter(out, *flags):
    _run(["gcc", "-w", "-O1", *flags, os.path.join(REPO, "a23", "tools", "amber-elfsplitter.c"), "-o", out])


def split(exe, elf, mem, out):
    """what the Makefile does with a linked program; what the tools wrote counts, whether or not they ended well"""
    try:
        with open(mem, "wb") as g:
            rc = subprocess.run([exe, elf], stdout=g, stderr=subprocess.DEVNULL, timeout=20,
                                env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).returncode
        subprocess.run(["bash", os.path.join(REPO, "a23", "tools", "amber-code32.sh"), mem, out], stderr=subprocess.DEVNULL, timeout=20)
    except subprocess.TimeoutExpired:
        rc = -1
    if not os.path.exists(out):
        open(out, "w").close()
    return rc


def arm_programs():
    """The example programs compiled for the ARM as a23/include/common.mk does, with clang and lld in place of the GNU cross tools;
    (name, optimisation) -> file with one instruction word per line.  Programs that do not build are missing."""
    A, H = os.path.join(REPO, "a23"), os.path.join(HERE, "harness", "arm")
    cc, ld, oc = find("clang-18", "clang"), find("ld.lld-18", "ld.lld"), find("llvm-objcopy-18", "llvm-objcopy")
    base = [cc, "--target=armv4-none-eabi", "-marm", "-ffreestanding", "-fno-unwind-tables", "-fno-asynchronous-unwind-tables", "-fwrapv",
            "-fno-strict-aliasing", "-w", "-c"]
    common = [x for p in sorted(glob.glob(A + "/include/*") + glob.glob(A + "/tools/*") + glob.glob(A + "/lib/*.S") + glob.glob(H + "/*.c")
                                + glob.glob(H + "/stub/*")) if os.path.isfile(p) for x in (p, _read(p))]
    ch = _h(*(base + common))
    srcs = sorted(p for p in glob.glob(A + "/*/*.c") if os.path.basename(os.path.dirname(p)) not in ("lib", "include", "temp", "tools"))
    os.makedirs(os.path.join(BUILD, "arm"), exist_ok=True)

    def one(job):
        src, opt = job
        name = os.path.basename(os.path.dirname(src))
        out = os.path.join(BUILD, "arm", "%s%s-%s.txt" % (name, opt, _h(ch, src, *[_read(p) for p in sorted(glob.glob(os.path.dirname(src) + "/*.[ch]"))])))
        if os.path.exists(out):
            os.utime(out)
            return (name, opt), out
        d = out + ".%d.d" % os.getpid()
        os.makedirs(d, exist_ok=True)
        f = lambda x: os.path.join(d, x)
        try:
            _run(base + [opt, "-std=gnu99", "-I" + H + "/stub", "-I" + A + "/include", src, "-o", f("x.o")])
            _run(base + ["-Os", H + "/rt.c", "-o", f("rt.o")])
            _run([cc, "--target=armv4-none-eabi", "-marm", "-w", "-c", A + "/lib/start.S", "-o", f("start.o")])
            for o in ("x.o", "rt.o", "start.o"):
                _run([oc, "-R", ".ARM.exidx", "-R", ".rel.ARM.exidx", f(o)])
            _run([ld, "-Bstatic", "--strip-debug", "-T", A + "/include/sections.lds", f("start.o"), f("x.o"), f("rt.o"), "-o", f("x.elf")])
            _run([oc, "-R", ".comment", "-R", ".note", "-R", ".ARM.attributes", f("x.elf")])
            splitter(f("split"))
            split(f("split"), f("x.elf"), f("x.mem"), f("x.txt"))
            os.rename(f("x.txt"), out)
        except (BuildError, OSError, subprocess.TimeoutExpired):
            return (name, opt), None
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return (name, opt), out

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return {n: o for n, o in ex.map(one, [(s, o) for s in srcs for o in ("-Os", "-O3")]) if o}


def build(targets):
    """targets: list of (variant, what), what in {'worker', 'cli', 'a23', 'vsim'}.
    Returns dict (variant, what) -> path (worker, vsim) or dict name->path (cli, a23)."""
    with _Lock():
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        prune()
        libs, mains = sources()
        hh, cfg = headers_hash(), config_dir()
        jobs = {}
        worker_src = os.path.join(HERE, "harness", "worker.cpp")
        a23_drv = os.path.join(HERE, "harness", "a23_driver.cpp")
        a23_src = sorted(glob.glob(os.path.join(REPO, "a23", "*", "*.c")))
        ex = concurrent.futures.ThreadPoolExecutor(8)

        def submit(src, variant, lang=None, extra=()):
            cc, fl, _ = VARIANTS[variant]
            k = (src, variant, lang, tuple(extra))
            if k not in jobs:
                jobs[k] = ex.submit(_compile, src, cc, BASE + fl + list(extra), hh, cfg, lang)
            return jobs[k]

        plan = []
        for variant, what in targets:
            if what == "worker":
                objs = [submit(worker_src, variant)] + [submit(s, variant) for s in libs]
                plan.append((variant, what, None, objs))
            elif what == "cli":
                for b, s in mains.items():
                    plan.append((variant, what, b, [submit(s, variant)] + [submit(x, variant) for x in libs]))
            elif what == "vsim":
                plan.append((variant, what, None, [submit(os.path.join(HERE, "harness", "vsim.cpp"), variant, None, ["-O2", "-fPIC"])]))
            elif what == "a23":
                for s in a23_src:
                    name = os.path.basename(os.path.dirname(s))
                    if name in ("lib", "include", "temp", "tools"):
                        continue
                    ah = _h(*[x for p in sorted(glob.glob(os.path.join(REPO, "a23", "include", "*"))
                                                + glob.glob(os.path.join(os.path.dirname(s), "*.h"))) for x in (p, _read(p))])
                    plan.append((variant, what, name, [submit(a23_drv, variant),
                                                       submit(s, variant, "c++", ["-DVP_A23_" + ah, "-fwrapv"])]))
        res, errs = {}, []
        for variant, what, name, futs in plan:
            try:
                objs = [f.result() for f in futs]
            except BuildError as e:
                if what == "a23":   # some example programs are not buildable natively
                    continue
                errs.append(e)
                continue
            cc, _, lf = VARIANTS[variant]
            key = _h(variant, what, name or "", *objs)
            out = os.path.join(BUILD, "bin", "%s-%s-%s-%s" % (what, variant, (name or "w").replace(".cpp", ""), key))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                _run([cc] + lf + objs + ["-o", tmp] + (["-shared"] if what == "vsim" else LIBS))
                os.rename(tmp, out)
            os.utime(out)
            for o in objs:
                os.utime(o)
            if name is None:
                res[(variant, what)] = out
            else:
                res.setdefault((variant, what), {})[name] = out
        ex.shutdown()
        if ("opt", "arm") in targets:
            res[("opt", "arm")] = arm_programs()
        if errs:
            raise errs[0]
        return res


if __name__ == "__main__":
    t = time.time()
    print(build([tuple(a.split(":")) for a in sys.argv[1:]]))
    print(time.time() - t)
