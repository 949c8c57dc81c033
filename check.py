#!/usr/bin/env python3
"""Builds /repo's current sources with sanitizers, runs one property's monitored workloads, decides, writes evidence.

  check.py P01 [--tier quick|thorough]            run the check
  check.py P01 --replay WORKLOAD:INDEX [--seed N]  run one case again, verbosely
Exit: 0 held, 1 violation (line VIOLATION ...), 2 the check could not give an answer.
"""
import argparse, concurrent.futures as cf, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CXX = shutil.which("clang++-18") or shutil.which("clang++")
NCPU = max(1, os.cpu_count() or 1)
KNOWN = os.path.join(VERIF, "known_findings.txt")

COMMON = ["-std=c++20", "-fPIC", "-w", "-g1", "-O1", "-fno-omit-frame-pointer", "-pthread"]
VARIANTS = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
             "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-fsanitize=thread"],
    "plain": ["-O2"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2048:"
                    "detect_stack_use_after_return=1:strict_init_order=1:symbolize=1:handle_abort=1:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                    "quarantine_size_mb=32:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
    "TZ": "UTC", "LC_ALL": "C.UTF-8",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"?")
    return h.hexdigest()[:20]


def tree(*roots):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            for f in fs:
                if f.endswith((".h", ".hpp", ".cpp", ".c", ".cc", ".inc", ".inl")):
                    out.append(os.path.join(d, f))
    return out


def lib_sources():
    """The library's sources as the Makefile lists them (fallback: every source file)."""
    try:
        r = subprocess.run(["make", "-s", "-pn", "-C", REPO, "all"], capture_output=True, text=True, timeout=60)
        for line in r.stdout.splitlines():
            m = re.match(r"^SOURCES\s*:?=\s*(.*)$", line)
            if m:
                s = m.group(1).replace("$(PATH_CORE)", "src/core").split()
                s = [os.path.join(REPO, x) for x in s if x.endswith(".cpp")]
                if s and all(os.path.exists(x) for x in s):
                    return s
    except Exception:
        pass
    d = os.path.join(REPO, "src/core")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp") and f != "URI.cpp")


def zinc():
    d = os.path.join(BUILD, "zinc")
    os.makedirs(os.path.join(d, "zlib"), exist_ok=True)
    for f in ("zlib.h", "zconf.h"):
        src = next((p for p in ("/usr/include/" + f, "/usr/include/x86_64-linux-gnu/" + f) if os.path.exists(p)), None)
        dst = os.path.join(d, "zlib", f)
        if src and not os.path.lexists(dst):
            try:
                os.symlink(src, dst)
            except FileExistsError:
                pass
    return d


def incs():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "prec"), "-I" + zinc(), "-I" + os.path.join(VERIF, "harness")]


class BuildError(Exception):
    pass


def run_cc(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd[-4:]) + "\n" + "\n".join(l for l in r.stderr.splitlines() if "error" in l or "undefined" in l)[:3000] + "\n" + r.stderr[:1500])


def prune(prefix, keep):
    """Removes older builds of the same kind, so that the build folder stays small."""
    try:
        items = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix) and os.path.join(BUILD, d) != keep]
    except OSError:
        return
    items.sort(key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
    for p in items[:-3]:
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)


def build(prop, variant, drv, cfg, dep_hash):
    """Compiles library and driver (in parallel); returns the executable."""
    flags = COMMON + VARIANTS[variant] + cfg.get("cflags", [])
    srcs = lib_sources()
    lh = file_hash(tree(os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(REPO, "prec")), " ".join(flags) + " ".join(srcs))
    libdir = os.path.join(BUILD, "lib-%s-%s" % (variant, lh))
    lib = os.path.join(libdir, "libcore.a")
    exe_hash = hashlib.sha256((lh + dep_hash + repr(cfg)).encode()).hexdigest()[:20]
    exedir = os.path.join(BUILD, "drv-%s-%s-%s" % (prop, variant, exe_hash))
    exe = os.path.join(exedir, "driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(libdir, exist_ok=True)
    os.makedirs(exedir, exist_ok=True)
    inc = incs()
    tag = ".%d" % os.getpid()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        jobs = []
        dobjs = []
        for i, d in enumerate(drv):
            o = os.path.join(exedir, "d%d%s.o" % (i, tag))
            dobjs.append(o)
            jobs.append(ex.submit(run_cc, [CXX] + flags + inc + ["-c", d, "-o", o]))
        objs = []
        if not os.path.exists(lib):
            pch = os.path.join(libdir, "p%s.pch" % tag)
            run_cc([CXX] + flags + inc + ["-x", "c++-header", os.path.join(REPO, "prec/PrecompiledCore.hpp"), "-o", pch])
            for s in sorted(srcs, key=lambda p: -os.path.getsize(p)):
                o = os.path.join(libdir, os.path.basename(s)[:-4] + tag + ".o")
                objs.append(o)
                jobs.append(ex.submit(run_cc, [CXX] + flags + inc + ["-include-pch", pch, "-c", s, "-o", o]))
        for j in jobs:
            j.result()
    if objs:
        tmp = lib + tag
        run_cc(["ar", "rcs", tmp] + objs)
        os.rename(tmp, lib)
        for o in objs + [pch]:
            os.unlink(o)
    run_cc([CXX] + flags + dobjs + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-o", exe + tag, "-ldl", "-lz"] + cfg.get("libs", []))
    os.rename(exe + tag, exe)
    for o in dobjs:
        os.unlink(o)
    prune("lib-" + variant, libdir)
    prune("drv-%s-%s" % (prop, variant), exedir)
    return exe


def read_cfg(src):
    cfg = {"variants": ["asan"]}
    with open(src) as f:
        for line in f:
            m = re.match(r"//\s*VH-CONFIG:\s*(\w+)\s*=\s*(.*)", line)
            if m:
                cfg[m.group(1)] = m.group(2).split()
    return cfg


def san_key(err):
    """A stable name for a sanitizer report: kind and innermost frame in the library."""
    kind = "crash"
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if m:
        kind = m.group(1) + ":" + m.group(2)
    m2 = re.search(r"runtime error: ([^\n]{0,120})", err)
    if m2:
        kind = "UBSan:" + re.sub(r"[-+]?[\d.]+(e[+-]?\d+)?|0x[0-9a-f]+", "N", m2.group(1))[:80]
    frame = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+?)(?:\(.*?\))? ?[^\n]*?/src/core/(\w+\.cpp)", err):
        frame = m.group(1) + "@" + m.group(2)
        break
    return kind + "@" + frame


def unprivileged():
    """Drivers run the library's file operations: as root they are started as a user that owns nothing but the scratch folder."""
    if os.geteuid() != 0:
        return {}
    who = {"user": 65534, "group": 65534, "extra_groups": []}
    try:
        if subprocess.run(["true"], **who).returncode == 0:
            return who
    except (OSError, subprocess.SubprocessError):
        pass
    return {}


def give(path, who):
    if who:
        for d, _, fs in os.walk(path):
            for p in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(p, who["user"], who["group"], follow_symlinks=False)


WHO = {}


class Shard:
    def __init__(self, exe, work, variant, idx, n, args, env):
        self.exe, self.idx, self.n, self.variant = exe, idx, n, variant
        self.dir = os.path.join(work, "%s-%d" % (variant, idx))
        os.makedirs(self.dir + "/scratch", exist_ok=True)
        self.args, self.env = args, env
        self.cur = self.dir + "/cur"
        with open(self.cur, "wb") as f:
            f.write(b"\0" * 4096)
        self.viol = self.dir + "/viol.jsonl"
        open(self.viol, "w").close()
        give(self.dir, WHO)
        self.parts = 0
        self.proc = None
        self.crashes = []
        self.done = False
        self.incomplete = None

    def start(self, after=None):
        self.parts += 1
        self.out = self.dir + "/out%d.json" % self.parts
        self.dist = self.dir + "/dist%d" % self.parts
        self.errp = self.dir + "/err%d" % self.parts
        cmd = [self.exe] + self.args + ["--shard", str(self.idx), "--shards", str(self.n), "--cur", self.cur, "--viol", self.viol,
                                        "--out", self.out, "--distinct", self.dist, "--scratch", self.dir + "/scratch"]
        if after:
            cmd += ["--start-after", after]
        # in-file start: fresh scratch for a restarted shard
        self.proc = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=open(self.dir + "/stdout", "wb"), stderr=open(self.errp, "wb"),
                                     env=self.env, cwd=self.dir + "/scratch", start_new_session=True, **WHO)
        self.last = None
        self.t_last = time.time()

    def state(self):
        with open(self.cur, "rb") as f:
            return struct.unpack("QQQQ", f.read(32))

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def stderr(self):
        try:
            with open(self.errp, "rb") as f:
                d = f.read()
            return (d if len(d) < 40000 else d[:20000] + d[-20000:]).decode("utf-8", "replace")
        except OSError:
            return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--variant")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    src = os.path.join(VERIF, "harness", prop + ".cpp")
    cfg = read_cfg(src)
    drv = [src] + [os.path.join(VERIF, "harness", x) for x in cfg.get("extra", [])]
    dep_hash = file_hash(drv + tree(os.path.join(VERIF, "harness")) if False else drv + [os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".hpp")])
    variants = [a.variant] if a.variant else cfg["variants"]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    exes = {}
    try:
        for v in variants:
            exes[v] = build(prop, v, drv, cfg, dep_hash)
    except BuildError as e:
        log("check %s: build failed:\n%s" % (prop, e))
        print("CHECK-ERROR property=%s build failed" % prop)
        return 2
    t_build = time.time() - t0
    env = dict(os.environ)
    env.update(SAN_ENV)
    if "alloc" in cfg:   # largest single allocation in MB, where a driver needs more
        env["ASAN_OPTIONS"] += ":max_allocation_size_mb=" + cfg["alloc"][0]
    base = os.environ.get("TMPDIR") or "/tmp"
    work = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir=base)
    os.chmod(work, 0o755)
    WHO.update(unprivileged())
    # copies the user can reach, wherever /verif is
    os.makedirs(work + "/verif/tools")
    shutil.copy(os.path.join(VERIF, "tools/zipcheck.py"), work + "/verif/tools/")
    for v in variants:
        shutil.copy(exes[v], work + "/driver-" + v)
        exes[v] = work + "/driver-" + v
        os.chmod(exes[v], 0o755)
    os.makedirs(work + "/home")
    give(work + "/home", WHO)
    env["VERIF_DIR"] = work + "/verif"
    env["HOME"] = work + "/home"
    if shutil.which("llvm-symbolizer-18"):
        for k in ("ASAN_OPTIONS", "TSAN_OPTIONS"):
            env[k] += ":external_symbolizer_path=" + shutil.which("llvm-symbolizer-18")
        env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer-18")
    dargs = ["--seed", str(seed)] + (["--thorough"] if tier == "thorough" else []) + (["--scale", str(a.scale)] if a.scale != 1.0 else [])
    try:
        if a.replay:
            rc = 0
            for v in variants:
                os.makedirs(work + "/scratch", exist_ok=True)
                give(work + "/scratch", WHO)
                r = subprocess.run([exes[v]] + dargs + ["--only", a.replay, "--replay", "--scratch", work + "/scratch"], env=env, cwd=work + "/scratch", **WHO)
                log("variant %s exit %d" % (v, r.returncode))
                rc = rc or (1 if r.returncode else 0)
            return rc
        return run(a, prop, tier, seed, t0, t_build, variants, exes, env, work, dargs, cfg)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)


def run(a, prop, tier, seed, t0, t_build, variants, exes, env, work, dargs, cfg):
    hang_s = float(cfg.get("hang", ["60"])[0])
    max_s = float(cfg.get("max", ["780"])[0]) if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "86400"))
    nsh = int(cfg.get("shards", [str(min(NCPU, 8))])[0])
    names = {}
    for v in variants:
        r = subprocess.run([exes[v], "--list"], capture_output=True, text=True, env=env, cwd=work, **WHO)
        names[v] = [l.split()[0] for l in r.stdout.splitlines()]
    viols = []  # dicts: variant workload index key msg
    merged = {"cases": 0, "evals": 0, "counters": {}, "samples": [], "required": set(), "rule": ""}
    distinct = set()
    incomplete = []

    def single(v, case, timeout):
        d = tempfile.mkdtemp(dir=work)
        os.makedirs(d + "/scratch")
        give(d, WHO)
        with open(d + "/err", "wb") as ef, open(d + "/outp", "wb") as of:
            p = subprocess.Popen([exes[v]] + dargs + ["--only", case, "--viol", d + "/viol", "--scratch", d + "/scratch"], stdin=subprocess.DEVNULL,
                                 stdout=of, stderr=ef, env=env, cwd=d + "/scratch", start_new_session=True, **WHO)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "hang"
        with open(d + "/err", "rb") as f:
            err = f.read()[-30000:].decode("utf-8", "replace")
        return rc, err

    for v in variants:
        if time.time() - t0 > max_s:
            incomplete.append("time used up before variant " + v)
            break
        args = list(dargs) + (["--only", a.only] if a.only else [])
        sh = [Shard(exes[v], work, v, i, nsh, args, env) for i in range(nsh)]
        for s in sh:
            s.start()
        while any(not s.done for s in sh):
            time.sleep(0.05)
            for s in sh:
                if s.done:
                    continue
                rc = s.proc.poll()
                now = time.time()
                if rc is None:
                    cur = s.state()
                    if cur != s.last:
                        s.last, s.t_last = cur, now
                    elif now - s.t_last > hang_s:
                        s.kill()
                        w, i, _, act = cur
                        wn = names[v][w] if w < len(names[v]) else "?"
                        case = "%s:%d" % (wn, i)
                        rc2, err2 = single(v, case, max(120.0, 2 * hang_s)) if act == 1 else ("hang", "")
                        if rc2 == "hang":
                            viols.append({"variant": v, "workload": wn, "index": i, "key": "hang:" + wn,
                                          "msg": "the case did not finish within %.0f s, alone not within %.0f s" % (hang_s, max(120.0, 2 * hang_s))})
                            s.crashes.append(case)
                        else:
                            log("%s: %s stalled once but finished alone (exit %s)" % (prop, case, rc2))
                            if rc2 not in (0,):
                                viols.append({"variant": v, "workload": wn, "index": i, "key": san_key(err2) if rc2 != 10 else "replayed", "msg": err2[-3000:]})
                                s.crashes.append(case)
                        if act == 1 and len(s.crashes) < 1:
                            s.start(after="%d:%d" % (w, i))
                        else:
                            s.done = True
                    if now - t0 > max_s and not s.done:
                        s.kill()
                        s.done = True
                        incomplete.append("shard %s-%d stopped at the time limit" % (v, s.idx))
                    continue
                if rc in (0, 10) and os.path.exists(s.out):
                    with open(s.out) as f:
                        o = json.load(f)
                    merged["cases"] += o["cases"]
                    merged["evals"] += o["evals"]
                    merged["rule"] = o["rule"]
                    for k, n in o["counters"].items():
                        merged["counters"][k] = merged["counters"].get(k, 0) + n
                    merged["required"].update(o["required"])
                    if len(merged["samples"]) < 8:
                        merged["samples"] += o["samples"][:2]
                    with open(s.dist, "rb") as f:
                        d = f.read()
                    if len(distinct) < 4000000:
                        distinct.update(struct.unpack("%dQ" % (len(d) // 8), d))
                    s.done = True
                else:
                    w, i, _, act = s.state()
                    wn = names[v][w] if w < len(names[v]) else "?"
                    err = s.stderr()
                    case = "%s:%d" % (wn, i)
                    has_report = "Sanitizer" in err or "runtime error:" in err
                    rc2, err2 = single(v, case, 180) if act == 1 else (None, "")
                    reproduced = rc2 not in (0, 10, None)
                    if rc == -signal.SIGKILL and not has_report and not reproduced:
                        log("%s: shard killed from outside at %s; going on" % (prop, case))
                        s.start(after="%d:%d" % (w, i))
                        if s.parts > 4:
                            s.kill()
                            s.done = True
                            incomplete.append("shard %s-%d was killed repeatedly" % (v, s.idx))
                        continue
                    rep = err if has_report else err2 if reproduced else err
                    viols.append({"variant": v, "workload": wn if act == 1 else "end-of-run", "index": i, "key": "crash:" + san_key(rep),
                                  "msg": "process ended with %s%s\n%s" % (rc, "" if reproduced else " (not reproduced alone)", rep[-6000:])})
                    s.crashes.append(case)
                    if act == 1 and len(s.crashes) < 3:
                        s.start(after="%d:%d" % (w, i))
                    else:
                        s.done = True
        for s in sh:
            with open(s.viol) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    d["variant"] = v
                    viols.append(d)

    # ---- judge ----
    known = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    known.append((m.group(2), m.group(3).strip()))
    seen_known = {}
    fresh = []
    for x in viols:
        k = next((k for k in known if k[0] == x["key"]), None)
        if k:
            seen_known[k[0]] = k[1]
        else:
            fresh.append(x)
    # a listed finding is announced on every run of the tree that still has it
    for k, txt in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    missing = sorted(r for r in merged["required"] if merged["counters"].get(r, 0) == 0)
    rc = 0
    if fresh:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for x in fresh:
            if x["key"] in done or len(done) >= 10:
                continue
            done.add(x["key"])
            path = os.path.join(rd, "%s-%d.txt" % (prop, len(done)))
            with open(path, "w") as f:
                f.write("property %s  workload %s  case %s  seed %d  tier %s  variant %s\nkey %s\n" % (prop, x["workload"], x["index"], seed, tier, x["variant"], x["key"]))
                f.write("again: python3 %s/check.py %s --tier %s --seed %d --variant %s --replay %s:%s\n\n%s\n" % (VERIF, prop, tier, seed, x["variant"], x["workload"], x["index"], x["msg"]))
            log("  %s %s:%s  %s" % (x["key"], x["workload"], x["index"], x["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif incomplete or missing:
        log("check %s gives no answer: %s %s" % (prop, incomplete, ("nothing observed for " + ", ".join(missing)) if missing else ""))
        print("CHECK-ERROR property=%s incomplete" % prop)
        rc = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": merged["evals"], "distinct_nontrivial": len(distinct), "cases": merged["cases"],
            "rule": merged["rule"], "samples": merged["samples"] or ["-"], "observed": dict(sorted(merged["counters"].items())),
            "sanitizer_variants": variants, "build_s": round(t_build, 1),
        },
        "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": len(fresh), "known_findings_seen": sorted(seen_known),
    }
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    print("%s %s: %d cases, %d checks, %d distinct, build %.1f s, total %.1f s -> %s" % (
        prop, tier, merged["cases"], merged["evals"], len(distinct), t_build, time.time() - t0, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc]))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(2)
