#!/usr/bin/env python3
"""Development aid: small random source changes in scratch copies of /repo, and which checks notice them.

mutate.py --files REGEX --checks C01,C02,... [--n N per line] [--seed S] [--jobs J] [--max M] [--out FILE] [--scale X] [--lines a-b]
No check uses this file.
"""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MT = "/tmp/mt"
REL = {"==": ["!="], "!=": ["=="], "<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"]}
IDS = [("g_init", "e_init"), ("g_input", "e_input"), ("p_input", "g_input"), ("p_init", "g_init"), ("input0", "input1"), ("_lo_index", "_hi_index"),
       ("bob", "alice"), ("SECRET_INV", "SECRET"), ("SECRET", "SECRET_INV"), ("CONST_ONE", "CONST_ZERO"), ("CONST_ZERO", "CONST_ONE"), ("[0]", "[1]"), ("[1]", "[0]"), ("* 2", "* 2 + 1"),
       ("cid", "(cid + 1)"), ("sizeof(block)", "8"), ("m_len", "(m_len - 1)")]


def sites(path):
    """(line number, new line, description)"""
    with open(path) as f:
        lines = f.read().split("\n")
    res = []
    block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            block = True
        if block:
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "*", "/*", "#", "LOG", "DUMP", "<<", "using", "namespace", "mu_", "MU_")) or "LOG(" in l or "RDTSC" in l or "DUMP(" in l:
            continue
        code = l.split("//")[0]
        cand = []
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(==|!=|<=|>=|<|>)(?![<>=])", code):
            if m.group() in "<>" and (re.search(r"\w<\w+[\w: ,*]*>", code) or "->" in code[m.start() - 1:m.end()]):
                if not re.search(r"\s[<>]\s", code[m.start() - 1:m.end() + 1]):
                    continue
            for r in REL[m.group()]:
                cand.append((m.start(), m.end(), r))
        for m in re.finditer(r"&&|\|\|", code):
            cand.append((m.start(), m.end(), "||" if m.group() == "&&" else "&&"))
        for m in re.finditer(r"(?<![\w.\[])(\d+)(?![\w.\]])", code):
            v = int(m.group())
            cand.append((m.start(), m.end(), str(v + 1)))
            if v:
                cand.append((m.start(), m.end(), str(v - 1)))
        for m in re.finditer(r"(?<=\s)([+\-])(?=\s)", code):
            cand.append((m.start(), m.end(), "-" if m.group() == "+" else "+"))
        for m in re.finditer(r"(?<=\s)([&|^])(?=\s)", code):
            for r in "&|^":
                if r != m.group():
                    cand.append((m.start(), m.end(), r))
        for m in re.finditer(r"\btrue\b|\bfalse\b", code):
            cand.append((m.start(), m.end(), "false" if m.group() == "true" else "true"))
        for m in re.finditer(r"!(?=[\w(])", code):
            cand.append((m.start(), m.end(), ""))
        if path.endswith(".v"):
            for m in re.finditer(r"~(?=[\w({])", code):
                cand.append((m.start(), m.end(), ""))
            for m in re.finditer(r"'[bdh]([01])\b", code):
                cand.append((m.start(1), m.end(1), str(1 - int(m.group(1)))))
            for m in re.finditer(r"\[(\w+)-1:0\]", code):
                if "input" not in code and "output" not in code:
                    cand.append((m.start(), m.end(), "[%s-2:0]" % m.group(1)))
            if not re.search(r"\bif\b|\?|\bfor\b|assign|==", code):
                cand = [c for c in cand if code[c[0]:c[1]] not in ("<=",)]
        for a, b in IDS:
            for m in re.finditer(re.escape(a), code):
                cand.append((m.start(), m.end(), b))
        for m in re.finditer(r"\buint64_t\b|\bint64_t\b", code):
            cand.append((m.start(), m.end(), "uint16_t"))
        if re.search(r"\bif \(|while \(", code):
            m = re.search(r"\bif \(", code)
            if m:
                cand.append((m.end(), m.end(), "false && "))
                cand.append((m.end(), m.end(), "true || "))
        for st, en, r in cand:
            res.append((i, code[:st] + r + code[en:], "%s -> %s" % (code[st:en], r)))
        if code.rstrip().endswith(";") and not re.match(r"\s*(return|break|const|int|uint|string|block|bool|short|BIGNUM|vector|struct|auto|char|delete|BN_free|BN_CTX|free|}|unsigned|size_t|ofstream|ifstream|extern|typedef)", code) \
                and code.count("(") == code.count(")") and re.match(r"\s", code):
            prev = ""
            for j in range(i - 1, -1, -1):
                if lines[j].strip():
                    prev = lines[j].strip()
                    break
            if prev.endswith((";", "{", "}", ":")) or prev.startswith("//"):
                res.append((i, ";", "deleted"))
        if s in ("continue;", "break;"):
            res.append((i, ";", "deleted"))
    return lines, res


def sh(cmd, timeout=900, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", required=True)
    ap.add_argument("--checks", required=True)
    ap.add_argument("--n", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--nproc", type=int, default=2)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--lines", default="")
    ap.add_argument("--skip", default="", help="file of earlier results; mutants in it are not repeated")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files"]).decode().split("\n") if re.search(a.files, f)]
    done = set()
    if a.skip:
        for l in open(a.skip):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    todo = []
    for f in files:
        lines, res = sites("/repo/" + f)
        by = {}
        for r in res:
            if (f, r[0] + 1, r[2]) not in done:
                by.setdefault(r[0], []).append(r)
        for i in by:
            if a.lines:
                lo, hi = map(int, a.lines.split("-"))
                if not lo <= i + 1 <= hi:
                    continue
            for r in rng.sample(by[i], min(a.n, len(by[i]))):
                todo.append((f,) + r)
    rng.shuffle(todo)
    todo = todo[:a.max]
    print("%d mutants in %s" % (len(todo), files), flush=True)
    lock = threading.Lock()
    free = list(range(a.jobs))
    out = open(a.out, "a")
    count = {}

    def one(m):
        f, i, new, what = m
        with lock:
            w = free.pop()
        try:
            d = "%s/r%d" % (MT, w)
            b = "%s/b%d" % (MT, w)
            os.makedirs(b, exist_ok=True)
            if not os.path.isdir(d):
                os.makedirs(MT, exist_ok=True)
                sh(["git", "clone", "-q", "/repo", d])
            sh(["git", "-C", d, "fetch", "-q"])
            sh(["git", "-C", d, "checkout", "-q", "-f", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()])
            with open(d + "/" + f) as fi:
                L = fi.read().split("\n")
            old = L[i]
            L[i] = new
            with open(d + "/" + f, "w") as fo:
                fo.write("\n".join(L))
            env = dict(os.environ, VP_REPO=d, VP_BUILD=b, VP_OUT=b + "/out", VP_FAST="1", VP_SCALE=a.scale, VP_NPROC=str(a.nproc))
            r = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), what=what, result="survived", by="", msg="")
            t0 = time.time()
            for c in a.checks.split(","):
                rc, o = sh([sys.executable, VERIF + "/run.py", c], env=env, cwd=VERIF, timeout=300)
                if rc == 1:
                    r.update(result="caught", by=c, msg=o[-300:])
                    break
                if rc == 2 and "BUILD-ERROR" in o:
                    r.update(result="nobuild")
                    break
                if rc != 0:
                    r.update(result="noanswer", by=c, msg="%s %s" % (rc, o[-1500:]))
                    break
            r["sec"] = round(time.time() - t0, 1)
            with lock:
                out.write(json.dumps(r) + "\n")
                out.flush()
                count[r["result"]] = count.get(r["result"], 0) + 1
                if r["result"] in ("survived", "noanswer"):
                    print("%s %s:%d [%s] %s  =>  %s" % (r["result"], f, i + 1, what, r["old"], r["new"]), flush=True)
                if sum(count.values()) % 50 == 0:
                    print(count, flush=True)
        finally:
            with lock:
                free.append(w)

    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    print("done", count)


if __name__ == "__main__":
    main()
