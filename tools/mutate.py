#!/usr/bin/env python3
"""Systematic source mutants against the checks' drivers.

  mutate.py OUT.jsonl [--files String.cpp,...] [--max-per-file N] [--jobs J] [--share K] [--seed S] [--retry EARLIER.jsonl]

Each mutant changes one operator, constant, condition or statement of one line. It is compiled under the asan variant, linked to the drivers of the
properties anchored in its file, and each driver runs one K-th of its quick cases in one process. Results (one JSON line each): killed by a property,
equivalent (same optimised object code), not compiling, or survived. Everything happens in a scratch copy and as an unprivileged user."""
import sys, os, re, json, random, subprocess, tempfile, shutil, argparse, concurrent.futures as cf, threading, time, signal, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
EXTRA = {"Point.cpp": ["P35"], "Size.cpp": ["P35"], "NURBS.cpp": ["P34"], 
         "CharsetDecoder.cpp": ["P04"], "ASCIIDecoder.cpp": ["P04"], "RawDecoder.cpp": ["P04"]}

def anchors():
    m = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            if f.endswith(".cpp"): m.setdefault(os.path.basename(f), []).append(d["id"])
    for f, ps in EXTRA.items():
        m.setdefault(f, [])
        m[f] += [p for p in ps if p not in m[f]]
    return m

REL = {"<": ["<=", ">="], "<=": ["<", "=="], ">": [">=", "<="], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"],
       "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["/"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "++": ["--"], "--": ["++"],
       "+=": ["-=", "="], "-=": ["+="], "*=": ["="], "|=": ["&="], "&=": ["|="]}
TOK = re.compile(r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|//.*|/\*.*?\*/)|(->|::|<<=|>>=|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\|=|&=|[<>+\-*/%&|!=?])|(\b(?:0x[0-9a-fA-F]+|\d+(?:\.\d+)?(?:e-?\d+)?)[uUlLfF]*\b)|(\b(?:true|false|break|continue|nullptr)\b)|(\w+)""")

def mutants(path):
    lines = open(path, encoding="utf-8").read().split("\n")
    out = []; block = False
    for n, l in enumerate(lines):
        s = l.strip()
        if block:
            if "*/" in s: block = False
            continue
        if s.startswith("/*") and "*/" not in s: block = True; continue
        if not s or s.startswith(("//", "#", "*", "using", "template", "namespace", "typedef")): continue
        def add(new, op):
            if new != l: out.append((n, l, new, op))
        for m in TOK.finditer(l):
            lit, op, num, kw, word = m.groups()
            a, b = m.span()
            if op:
                if op == "!" : add(l[:a] + l[b:], "drop !")
                spaced = a > 0 and b < len(l) and l[a-1] == " " and l[b] == " "
                if op in ("<", ">") and not spaced: continue
                if op in ("*", "&", "-", "+") and not spaced: continue
                if op == "<<" and "rd::" in l: continue
                for r in REL.get(op, []): add(l[:a] + r + l[b:], "%s -> %s" % (op, r))
            elif num:
                base = num.rstrip("uUlL" if num[:2].lower() == "0x" else "uUlLfF")
                if "." in base or "e" in base:
                    add(l[:a] + "(%s * 1.01 + 1e-7)" % num + l[b:], "constant")
                else:
                    v = int(base, 0) if base[:2].lower() == "0x" or base == "0" else int(base); add(l[:a] + str(v + 1) + l[b:], "constant+1")
                    if v > 1: add(l[:a] + str(v - 1) + l[b:], "constant-1")
                    elif v == 1: add(l[:a] + "0" + l[b:], "1 -> 0")
            elif kw:
                r = {"true": "false", "false": "true", "break": "(void)0", "continue": "(void)0"}.get(kw)
                if r: add(l[:a] + r + l[b:], kw + " dropped" if r[0] == "(" else kw + " -> " + r)
        m = re.match(r"^(\s*(?:else\s+)?(?:if|while)\s*)\((.*)\)(\s*(?:\{)?\s*)$", l)
        m2 = re.match(r"^(\s*(?:else\s+)?if\s*)\((.*)\)([^()]*(?:\([^()]*\))?[^()]*;)\s*$", l) if not m else None
        for mm in (m, m2):
            if mm:
                if "if" in mm[1]: add(mm[1] + "((%s) || true)" % mm[2] + mm[3], "if true")
                add(mm[1] + "((%s) && false)" % mm[2] + mm[3], "if false")
        if s.endswith(";") and not re.match(r"^(return|break|continue|for|if|else|while|case|default|do|\}|typedef|extern|static|const|using|throw|delete\b.*=)", s):
            isdecl = re.match(r"^(?:const\s+)?[A-Za-z_][\w:]*(?:\s*<[^;]*>)?[\s*&]+[A-Za-z_]\w*\s*(?:[=;({\[]|,)", s) and not re.match(r"^(delete|return)\b", s)
            if not isdecl: add(re.match(r"^\s*", l)[0] + ";", "statement dropped")
        if re.match(r"^throw\b", s): add(re.match(r"^\s*", l)[0] + ";", "throw dropped")
        mm = re.match(r"^(\s*(?:else\s+)?if\s*\(.*\))\s*([^;{]+;)\s*$", l)
        if mm and not re.match(r".*\{", l): add(mm[1] + ";", "conditional statement dropped")
    return lines, out

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--files"); ap.add_argument("--max-per-file", type=int, default=120)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--share", type=int, default=8); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lines"); ap.add_argument("--props"); ap.add_argument("--retry", help="only those that survived in this file")
    a = ap.parse_args()
    A = anchors()
    work = tempfile.mkdtemp(prefix="mutate.", dir="/tmp"); os.chmod(work, 0o755)
    repo = work + "/repo"; shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "bin", "obj"))
    shutil.copy("/repo/Makefile", repo)
    check.REPO = repo; check.BUILD = work + "/b"; os.makedirs(check.BUILD)
    inc = check.incs()
    who = check.unprivileged()
    flags = check.COMMON + check.VARIANTS["asan"]
    env = dict(os.environ); env.update(check.SAN_ENV)
    env["ASAN_OPTIONS"] += ":hard_rss_limit_mb=2500:external_symbolizer_path=/nonexistent"; env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("symbolize=1", "symbolize=0")
    env["VERIF_DIR"] = work + "/verif"; os.makedirs(work + "/verif/tools"); shutil.copy(V + "/tools/zipcheck.py", work + "/verif/tools/")
    env["HOME"] = work + "/home"; os.makedirs(work + "/home"); check.give(work + "/home", who)
    srcs = check.lib_sources()
    try:
        pch = work + "/p.pch"
        check.run_cc(["clang++-18"] + flags + inc + ["-x", "c++-header", repo + "/prec/PrecompiledCore.hpp", "-o", pch])
        files = a.files.split(",") if a.files else sorted(f for f in A if A[f] and any(s.endswith("/" + f) for s in srcs))
        props = sorted({p for f in files for p in A.get(f, [])})
        if a.props: props = a.props.split(",")
        objs = {}
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            js = []
            for s in srcs:
                o = work + "/" + os.path.basename(s)[:-4] + ".o"; objs[os.path.basename(s)] = o
                js.append(ex.submit(check.run_cc, ["clang++-18"] + flags + inc + ["-include-pch", pch, "-c", s, "-o", o]))
            dobj = {}; libs = {}
            for p in props:
                o = work + "/%s.drv.o" % p; dobj[p] = o
                c = check.read_cfg(V + "/harness/%s.cpp" % p); libs[p] = c.get("libs", [])
                js.append(ex.submit(check.run_cc, ["clang++-18"] + flags + c.get("cflags", []) + inc + ["-c", V + "/harness/%s.cpp" % p, "-o", o]))
            for j in js: j.result()
        def link(p, f, o, exe):
            check.run_cc(["clang++-18"] + flags + ["-fuse-ld=lld", dobj[p]] + [o if n == f else x for n, x in objs.items()] + ["-o", exe, "-ldl", "-lz"] + libs[p])
        def run(p, exe, d, limit):
            sd = d + "/run-" + p; os.makedirs(sd + "/scratch"); open(sd + "/cur", "wb").write(b"\0" * 4096); open(sd + "/viol", "w").close(); check.give(sd, who)
            pr = subprocess.Popen([exe, "--seed", str(a.seed), "--shard", "0", "--shards", str(a.share), "--cur", sd + "/cur", "--viol", sd + "/viol", "--out", sd + "/out",
                                   "--distinct", sd + "/dist", "--scratch", sd + "/scratch"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  env=env, cwd=sd + "/scratch", start_new_session=True, **who)
            t = time.time()
            try: rc = pr.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, signal.SIGKILL); pr.wait(); rc = "hang"
            key = ""
            try: key = json.loads(open(sd + "/viol").readline())["key"]
            except Exception: pass
            subprocess.run(["chmod", "-R", "u+rwX", sd], stderr=subprocess.DEVNULL); shutil.rmtree(sd, ignore_errors=True)
            return rc, key, time.time() - t
        base = {}
        def baseline(p):
            exe = work + "/base-" + p; link(p, None, None, exe); d = tempfile.mkdtemp(dir=work); os.chmod(d, 0o755)
            base[p] = run(p, exe, d, 300); os.unlink(exe)
        with cf.ThreadPoolExecutor(a.jobs) as ex: list(ex.map(baseline, props))
        for p in props:
            if base[p][0] != 0: print("baseline of", p, "is not clean:", base[p], flush=True)
        print("baseline", {p: round(x[2], 1) for p, x in base.items()}, flush=True)
        rng = random.Random(a.seed); todo = []
        again = None
        if a.retry:
            again = {(r["file"], r["old"], r["new"]) for r in map(json.loads, open(a.retry)) if r["status"] == "SURVIVED"}
        for f in files:
            src = next(s for s in srcs if s.endswith("/" + f))
            lines, ms = mutants(src)
            if a.lines:
                lo, hi = map(int, a.lines.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
            if again is not None: ms = [m for m in ms if (f, m[1].strip(), m[2].strip()) in again]
            if len(ms) > a.max_per_file: ms = sorted(rng.sample(ms, a.max_per_file))
            print(f, len(ms), A[f], flush=True)
            o = work + "/eq-%s.o" % f
            for m in ms: todo.append((f, src, lines, m))
        rng.shuffle(todo)
        eqbase = {}; lock = threading.Lock(); outf = open(a.out, "a"); count = {}
        def eqobj(src, f, o):
            check.run_cc(["clang++-18", "-std=c++20", "-fPIC", "-w", "-O2"] + inc + ["-include", repo + "/prec/PrecompiledCore.hpp", "-c", src, "-o", o])
            return hashlib.sha256(open(o, "rb").read()).hexdigest()
        def one(t):
            f, src, lines, (n, old, new, op) = t
            d = tempfile.mkdtemp(prefix="m", dir=work); os.chmod(d, 0o755)
            try:
                m = d + "/" + f; L = list(lines); L[n] = new; open(m, "w", encoding="utf-8").write("\n".join(L))
                r = dict(file=f, line=n + 1, op=op, old=old.strip(), new=new.strip())
                try: check.run_cc(["clang++-18"] + flags + inc + ["-include-pch", pch, "-I" + os.path.dirname(src), "-c", m, "-o", d + "/m.o"])
                except check.BuildError: r["status"] = "nocompile"; return r
                for p in [q for q in (a.props.split(",") if a.props else A[f])]:
                    try: link(p, f, d + "/m.o", d + "/exe")
                    except check.BuildError as e: r["status"] = "nolink"; return r
                    rc, key, w = run(p, d + "/exe", d, base[p][2] * 4 + 40)
                    if rc != 0: r.update(status="killed", by=p, rc=rc, key=key); return r
                with lock:
                    if f not in eqbase:
                        q = d + "/q"; os.makedirs(q); shutil.copy(src, q + "/" + f); eqbase[f] = eqobj(q + "/" + f, f, q + "/o.o")
                q = d + "/q2"; os.makedirs(q)
                if eqhash(d, m, f) == eqbase[f]: r["status"] = "equivalent"
                else: r["status"] = "SURVIVED"
                return r
            finally:
                shutil.rmtree(d, ignore_errors=True)
        def eqhash(d, m, f): return eqobj(m, f, d + "/q2/o.o")
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            for i, fu in enumerate(cf.as_completed([ex.submit(one, t) for t in todo])):
                r = fu.result(); count[r["status"]] = count.get(r["status"], 0) + 1
                outf.write(json.dumps(r) + "\n"); outf.flush()
                if i % 100 == 99: print(i + 1, "of", len(todo), count, flush=True)
        print(count)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL); shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": main()
