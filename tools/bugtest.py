#!/usr/bin/env python3
"""Development aid: confirms planted bugs and shows which checks catch them.

bugtest.py [--checks C01,C02|own|all] [--no-tests] ID...    (IDs under /verif/seeded; default all)
Works in scratch copies of /repo under /tmp/bt, never in /repo itself.  No check uses this file.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BT = "/tmp/bt"
STABLE = None
testlock = threading.Lock()


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           shell=isinstance(cmd, str))
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace")


def head():
    return sh(["git", "-C", "/repo", "rev-parse", "HEAD"])[1].strip()


def tree(n):
    d = "%s/w%d" % (BT, n)
    if not os.path.isdir(d):
        os.makedirs(BT, exist_ok=True)
        assert sh(["git", "clone", "-q", "/repo", d])[0] == 0
        rc, o = sh(["cmake", "-S", d, "-B", d + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DENABLE_LOG=ON",
                    "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_FLAGS_RELEASE=-march=x86-64-v2 -maes -mpclmul"])
        assert rc == 0, o
        sh("mkdir -p vp && sed 's#/repo#%s#g' /opt/vp/collect.py > vp/collect.py" % d, cwd=d)
    sh("git fetch -q && git checkout -q -f %s" % head(), cwd=d)
    rc, o = sh(["ninja", "-C", d + "/_build", "-j8"])
    assert rc == 0, o[-2000:]
    return d


def stable_ok(d, tag):
    """runs the stable tests in the copy"""
    with testlock:
        out = "%s/%s.json" % (BT, tag)
        sh("ctest --test-dir _build -j1 --timeout 120 --test-output-size-passed 50000000 --test-output-size-failed 50000000 "
           "--output-junit %s/_build/ctest.xml; python3 vp/collect.py %s/_build %s" % (d, d, out), cwd=d)
    with open(out) as f:
        p = set(json.load(f)["passed"])
    with open("/opt/vp/BASELINE.json") as f:
        b = json.load(f)
    st = b.get("stable") or b.get("passed") or b.get("tests")
    return [t for t in st if t not in p]


def run_checks(d, ids, bdir, seed=1):
    env = dict(os.environ, VP_REPO=d, VP_BUILD=bdir, VP_OUT=bdir + "/out", VERIF_SEED=str(seed))
    res = {}
    for i in ids:
        rc, o = sh([sys.executable, VERIF + "/run.py", i], env=env, cwd=VERIF)
        res[i] = (rc, o)
    return res


def one(bid, n, which, tests):
    src = "%s/seeded/%s" % (VERIF, bid)
    d = tree(n)
    with open(src + "/meta.json") as f:
        meta = json.load(f)
    msg = []
    demo = "%s/demo%d" % (BT, n)
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(src, demo)
    for f in ("patch.diff", "meta.json"):
        os.unlink(demo + "/" + f)
    if tests:
        rc, o = sh(["bash", demo + "/demo.sh"], cwd=d, timeout=300)
        if rc != 0:
            msg.append("DEMO FAILS ON CLEAN TREE rc=%s %s" % (rc, o[-600:]))
    rc, o = sh(["git", "apply", src + "/patch.diff"], cwd=d)
    if rc:
        return bid, meta, ["does not apply " + o], {}
    res = {}
    try:
        if tests:
            rc, o = sh(["ninja", "-C", d + "/_build", "-j8"])
            if rc:
                msg.append("does not build " + o[-800:])
            miss = stable_ok(d, bid)
            if miss:
                msg.append("stable tests fail: %s" % miss)
            rc, o = sh(["bash", demo + "/demo.sh"], cwd=d, timeout=300)
            if rc == 0:
                msg.append("DEMO PASSES WITH PATCH")
            else:
                msg.append("demo: " + o.strip().split("\n")[-1][:160])
        ids = ["C%02d" % i for i in range(1, nprops() + 1)] if which == "all" else [meta["property"]] if which == "own" else which.split(",") if which else []
        res = run_checks(d, ids, "%s/b%d" % (BT, n))
    finally:
        sh("git checkout -q -f .", cwd=d)
    return bid, meta, msg, res


def nprops():
    with open(VERIF + "/MANIFEST.json") as f:
        return len(json.load(f)["checks"])


def main():
    a = sys.argv[1:]
    which, tests, par = "own", True, 4
    while a and a[0].startswith("--"):
        o = a.pop(0)
        if o == "--checks":
            which = a.pop(0)
        elif o == "--no-tests":
            tests = False
        elif o == "-j" or o == "--jobs":
            par = int(a.pop(0))
    ids = a or sorted(os.listdir(VERIF + "/seeded"))
    import queue
    slots = queue.Queue()
    for i in range(par):
        slots.put(i)

    def go(b):
        n = slots.get()
        try:
            return one(b, n, which, tests)
        except Exception as e:
            return b, {"property": "?"}, ["ERROR %r" % e], {}
        finally:
            slots.put(n)
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for bid, meta, msg, res in ex.map(go, ids):
            caught = [i for i, (rc, o) in res.items() if rc == 1 and "VIOLATION property=" + i in o]
            odd = ["%s rc=%s" % (i, rc) for i, (rc, o) in res.items() if rc not in (0, 1)]
            own = meta["property"]
            print("%-32s %s  %s caught by %s%s" % (bid, own, "OWN" if own in caught else "own MISSED" if own in res else "", ",".join(caught) or "-", "  ODD " + str(odd) if odd else ""))
            for m in msg:
                print("      " + m)
            sys.stdout.flush()


if __name__ == "__main__":
    main()
