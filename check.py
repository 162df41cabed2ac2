#!/usr/bin/env python3
"""Solver-based check of one property of /repo.

usage: check.py <ID> [--tier quick|thorough] [--only OBLIGATION] [--keep] [-v]

For every obligation in props/<ID>/spec.py:
  1. goto-cc compiles the harness and the real sources of /repo named there;
  2. cbmc decides all assertions (harness assertions, the code's own assert()s,
     memory safety, overflow, unwinding assertions) for every value of the
     symbolic inputs within the stated bounds;
  3. an unwinding assertion that fails raises the bound and repeats;
  4. every reachability witness must come back violated, and its trace is
     replayed natively (gcc, ASan+UBSan) on the real code, comparing observed
     values: vacuity guard and validation of the encoding;
  5. a real failure is replayed natively; only what reproduces is a VIOLATION.
"""
import glob, sys, os, json, subprocess, time, tempfile, shutil, re, threading, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
REPLAYS = os.path.join(VERIF, "evidence", "replays")
BASE_DEFS = ["_DEBUG"]
CBMC_FLAGS = ["--unwinding-assertions", "--drop-unused-functions",
              "--no-malloc-may-fail", "--trace", "--json-ui",
              "--verbosity", "8", "--object-bits", "10"]
NATIVE_FLAGS = ["-std=gnu11", "-g", "-O0", "-w",
                "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds",
       "-fsanitize-trap=all"]
CLANG = ["clang", "-std=gnu11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w",
         "-D__NO_CTYPE", "-emit-llvm", "-c"] + SAN
CLANGXX = ["clang++", "-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w",
           "-emit-llvm", "-c", "-D_GLIBCXX_ASSERTIONS"] + SAN
SYMX = os.path.join(VERIF, "build", "symx")
VFS_CALLS = ("fopen fclose fread fwrite fseek ftell rewind feof ferror clearerr fflush fgetc getc fgets "
             "remove unlink rename mkdir umask access opendir readdir closedir readlink getcwd "
             "fopen64 fseeko ftello readdir64 rand srand clock_gettime getpid realpath").split()
MEM_LIMIT = 14 << 30
CHECK_BUDGET = float(os.environ.get("VERIF_BUDGET", "840"))
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def limits(mem):
    def f():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


PROCS = set()
STOP = threading.Event()
GRACE = 45


def run(cmd, timeout=None, env=None, cwd=None, mem=None, out=None):
    """Run to completion; kills the whole process group on timeout."""
    if STOP.is_set():
        return -999, "", ""
    so = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.PIPE, env=env,
                         cwd=cwd, preexec_fn=limits(mem),
                         stdin=subprocess.DEVNULL)
    PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = -999
    finally:
        PROCS.discard(p)
        if out:
            so.close()
    return rc, (o or b"").decode("utf8", "replace"), (e or b"").decode("utf8", "replace")


class Build:
    """Compiles each (source, defines) once per run."""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.done = {}

    def obj(self, kind, src, defs, flags):
        key = (kind, src, tuple(defs), tuple(flags))
        with self.lock:
            ent = self.done.get(key)
            if ent is None:
                ent = self.done[key] = {"lock": threading.Lock(), "out": None,
                                        "n": len(self.done)}
        with ent["lock"]:
            if ent["out"] is None:
                out = os.path.join(self.work, "%s_%d_%s.o" % (
                    kind, ent["n"], os.path.basename(src).replace(".", "_")))
                d = ["-D" + x for x in defs]
                common = ["-iquote", REPO, "-iquote", LIB,
                          "-iquote", os.path.dirname(src)]
                if kind == "natt":
                    # Threads: instrumented by clang, hooks in verif_threads.c
                    cc = ["clang++", "-std=gnu++17", "-D_GLIBCXX_ASSERTIONS"] if src.endswith(".cpp") else ["clang", "-std=gnu11"]
                    cmd = cc + ["-O0", "-g", "-w", "-c"] + SAN + d + common + list(flags) + ["-o", out, src]
                elif kind == "bc":
                    cc = CLANGXX if src.endswith(".cpp") else CLANG
                    if src.endswith(".cpp"):
                        common += ["-isystem", os.path.join(LIB, "cxx")]
                    cmd = cc + d + common + list(flags) + ["-o", out, src]
                elif kind == "goto":
                    cmd = ["goto-cc", "-c"] + d + common + list(flags) + ["-o", out, src]
                else:
                    cmd = (["g++", "-D_GLIBCXX_ASSERTIONS", "-c"] if src.endswith(".cpp") else ["gcc", "-c"]) + [
                        x for x in NATIVE_FLAGS if not (src.endswith(".cpp") and x.startswith("-std"))] + d + common + list(flags) + ["-o", out, src]
                rc, o, e = run(cmd, timeout=300)
                ent["out"] = out if rc == 0 else ("ERR", " ".join(cmd) + "\n" + o + e)
            return ent["out"]


class Ob:
    def __init__(self, prop, d, tier):
        self.prop = prop
        self.d = dict(d)
        ov = self.d.get(tier, {})
        if isinstance(ov, dict):
            self.d.update(ov)
        self.name = d["name"]
        self.res = {"name": self.name, "status": "pending"}

    def g(self, k, dflt=None):
        return self.d.get(k, dflt)


def expand(cmdfail):
    raise RuntimeError(cmdfail)


def sources(ob, pdir):
    srcs = []
    for s in [ob.g("harness")] + list(ob.g("extra", [])):
        p = os.path.join(pdir, s)
        if not os.path.exists(p):
            p = os.path.join(LIB, s)
        srcs.append((p, True))
    srcs.append((os.path.join(LIB, "verif_rt.c"), True))
    if ob.g("threads"):
        srcs.append((os.path.join(LIB, "verif_threads.c"), True))
    if ob.g("vfs"):
        srcs.append((os.path.join(LIB, "vfs.c"), True))
    for s in repo_sources(ob):
        srcs.append((os.path.join(REPO, s), False))
    return srcs


def repo_sources(ob):
    """The sources named, by default every C source of the repository (so a
    function that moves to another file is still found)."""
    l = ob.g("sources")
    if l is None:
        l = sorted(f for f in os.listdir(REPO) if f.endswith(".c"))
    return list(l) + list(ob.g("more_sources", []))


def compile_all(ob, build, pdir, kind, xflags=()):
    base = list(ob.g("base_defs", BASE_DEFS))
    hdefs = ["VERIF_ENTRY=" + ob.g("func", "harness")]
    hdefs.append({"goto": "VERIF_CBMC=1", "nat": "VERIF_NATIVE=1", "natt": "VERIF_NATIVE=1", "bc": "VERIF_SYM=1"}[kind])
    rdefs = list(ob.g("repo_defs", []))
    if ob.g("threads"):
        hdefs.append("VERIF_THREADS=1")
        if ob.g("globals"):
            hdefs.append("VERIF_GLOBALS=1")
        for x in ("mutex_init", "mutex_destroy", "mutex_lock", "mutex_trylock", "mutex_unlock",
                  "cond_init", "cond_destroy", "cond_signal", "cond_broadcast", "cond_wait"):
            rdefs.append("pthread_%s=verif_%s" % (x, x))
    if ob.g("vfs"):
        rdefs += ["%s=vfs_%s" % (x, x) for x in VFS_CALLS]
    def one(sm):
        s, mine = sm
        flags = []
        if not mine and ob.g("repo_include"):
            inc = ob.g("repo_include")
            p = os.path.join(pdir, inc)
            if not os.path.exists(p):
                p = os.path.join(LIB, inc)
            flags = ["-include", p]
        if not mine and ob.g("threads"):
            flags = flags + ["-fsanitize=thread"]
        flags = flags + list(xflags)
        return build.obj(kind, s, base + (list(ob.g("defs", [])) + hdefs if mine else rdefs), flags)
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(one, sources(ob, pdir)))
    for o in objs:
        if isinstance(o, tuple):
            raise RuntimeError("compile failed: " + o[1])
    return objs


def parse_cbmc(path):
    try:
        with open(path) as f:
            data = json.load(f)
    except Exception:
        return None
    r = {"result": None, "messages": [], "status": None}
    for e in data:
        if "result" in e:
            r["result"] = e["result"]
        if "messageText" in e:
            r["messages"].append(e["messageText"])
        if "cProverStatus" in e:
            r["status"] = e["cProverStatus"]
    return r


def val(step):
    v = step.get("value", {})
    if "binary" in v:
        return int(v["binary"], 2)
    d = v.get("data", "0").rstrip("uUlL")
    return int(d)


def trace_io(trace):
    ins, outs = [], []
    for s in trace or []:
        if s.get("stepType") != "assignment":
            continue
        if s.get("lhs") == "verif_in":
            fn = (s.get("sourceLocation") or {}).get("function", "")
            if fn.startswith("verif_"):
                ins.append(val(s))
        elif s.get("lhs") == "verif_out":
            fn = (s.get("sourceLocation") or {}).get("function", "")
            if fn != "__CPROVER_initialize":
                outs.append(val(s))
    return ins, outs


def is_unwind(p):
    return ".unwind." in p or ".recursion" in p


def cbmc(ob, gb, work, idx):
    """Runs cbmc, raising bounds whose unwinding assertions fail."""
    r = ob.res
    unwind = ob.g("unwind", 8)
    uset = dict(ob.g("unwindset", {}))
    tmo = ob.g("timeout", 600)
    rounds = 0
    while True:
        left = CHECK_BUDGET - (time.time() - T0)
        if left < 10:
            r["status"] = "timeout"
            return None
        cmd = ["cbmc", gb, "--function", ob.g("func", "harness"),
               "--unwind", str(unwind)] + CBMC_FLAGS
        if uset:
            cmd += ["--unwindset", ",".join("%s:%d" % x for x in uset.items())]
        cmd += list(ob.g("cbmc", []))
        if "--object-bits" in ob.g("cbmc", []):
            i = cmd.index("--object-bits")
            del cmd[i:i + 2]
        out = os.path.join(work, "cbmc_%d_%d.json" % (idx, rounds))
        t = time.time()
        rc, _, err = run(cmd, timeout=min(tmo, left), mem=MEM_LIMIT, out=out)
        r["cbmc_wall_s"] = round(r.get("cbmc_wall_s", 0) + time.time() - t, 2)
        r["cmd"] = " ".join(cmd).replace(work, "$WORK")
        if rc == -999:
            r["status"] = "timeout"
            return None
        pr = parse_cbmc(out)
        if pr is None or pr["result"] is None:
            r["status"] = "error"
            r["error"] = "cbmc rc=%s %s %s" % (rc, err[-500:], (pr or {}).get("messages", [])[-3:] if pr else "")
            return None
        os.unlink(out)
        bad = [p for p in pr["result"] if p["status"] == "FAILURE"]
        uw = [p for p in bad if is_unwind(p["property"])]
        if uw and rounds < ob.g("max_rounds", 4):
            # Raise only the loops that did not close; a loop that is
            # refactored may need an iteration more than before.
            rounds += 1
            for p in uw:
                m = re.match(r"(.*)\.unwind\.(\d+)$", p["property"])
                if m:
                    k = "%s.%s" % (m.group(1), m.group(2))
                    cur = uset.get(k, unwind)
                    uset[k] = cur * 2 if cur > 4 else cur + 4
                else:
                    unwind *= 2
            continue
        r["unwind"] = unwind
        r["unwindset"] = uset
        r["rounds"] = rounds + 1
        solver = variables = clauses = 0
        for m in pr["messages"]:
            x = re.match(r"Runtime (?:decision procedure|Solver): ([\d.e+-]+)s", m)
            if x:
                solver += float(x.group(1))
            x = re.match(r"(\d+) variables, (\d+) clauses", m)
            if x:
                variables, clauses = int(x.group(1)), int(x.group(2))
            x = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if x:
                r["vccs"], r["vccs_to_solver"] = int(x.group(1)), int(x.group(2))
            x = re.match(r"Solving with (.*)", m)
            if x:
                r["solver"] = x.group(1)
        r["queries"] = sum(1 for m in pr["messages"] if m.startswith("SAT checker"))
        r["solver_s"] = round(solver, 2)
        r["variables"], r["clauses"] = variables, clauses
        r["nobody"] = sorted({m.split("'")[1] if "'" in m else m
                              for m in pr["messages"] if "no body for" in m})
        if uw:
            r["status"] = "unwound"
            return None
        return pr


def replay(ob, exe, ins, work, tag, fills=("190", "0", "255")):
    """Replays one assignment; returns (verdict, text)."""
    inp = os.path.join(work, tag + ".inputs")
    with open(inp, "w") as f:
        f.write("\n".join(str(i) for i in ins) + "\n")
    last = ("clean", "")
    sb = os.path.join(work, "sandbox_" + tag)
    os.makedirs(sb, exist_ok=True)
    for fill in fills:
        env = {"PATH": "/usr/bin:/bin", "VERIF_INPUTS": inp, "HOME": sb,
               "ASAN_OPTIONS": "detect_leaks=%d:abort_on_error=0:exitcode=99:"
               "allocator_may_return_null=1:max_malloc_fill_size=65536:"
               "malloc_fill_byte=%s:free_fill_byte=%s" % (
                   1 if ob.g("leak") else 0, fill, fill),
               "VERIF_PREEMPT": str(ob.g("preempt", 2)),
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
        rc, o, e = run([exe], timeout=ob.g("replay_timeout", 20), env=env, cwd=sb)
        t = o + e
        if rc == -999:
            return "hang", "native run did not finish within %ss\n%s" % (
                ob.g("replay_timeout", 20), t[-3000:])
        if rc == 77:
            last = ("assume", t)
            continue
        if rc == 88:
            last = ("inputs", t)
            continue
        if rc != 0:
            return "fail", "exit %s\n%s" % (rc, t[-6000:])
        if last[0] == "clean":
            last = ("clean", t)
    return last


def merge_symx(base):
    """The parent's result and those of its workers as one."""
    outs = []
    for n in [base] + sorted(glob.glob(base + ".*")):
        if os.path.exists(n):
            with open(n) as f:
                outs.append(json.load(f))
            os.unlink(n)
    if not outs:
        return None
    r = outs[0]
    for o in outs[1:]:
        r["complete"] = r["complete"] and o["complete"]
        r["why"] = sorted(set(r["why"] + o["why"]))
        for k in ("paths", "killed", "forks", "instrs", "queries", "solver_s", "assert_checks",
                  "memory_checks", "pending", "sat_queries", "z3_queries", "cross_checked"):
            r[k] += o[k]
        have = {(e["kind"], e["msg"], e["where"]) for e in r["errors"]}
        r["errors"] += [e for e in o["errors"] if (e["kind"], e["msg"], e["where"]) not in have]
        have = {w["msg"] for w in r["witnesses"]}
        r["witnesses"] += [w for w in o["witnesses"] if w["msg"] not in have]
        r["functions"] = sorted(set(r["functions"] + o["functions"]))
        r["samples"] += o["samples"][:2]
    return r


def run_symx(ob, build, pdir, work, idx, exe):
    r = ob.res
    objs = compile_all(ob, build, pdir, "bc")
    libc = build.obj("bc", os.path.join(LIB, "symx_libc.c"), [], ["-fno-builtin"])
    if isinstance(libc, tuple):
        raise RuntimeError("compile failed: " + libc[1])
    linked = os.path.join(work, "ob_%d.ll.bc" % idx)
    if any(s.endswith(".cpp") for s, _ in sources(ob, pdir)):
        cxx = build.obj("bc", os.path.join(LIB, "symx_cxx.cpp"), [], [])
        if isinstance(cxx, tuple):
            raise RuntimeError("compile failed: " + cxx[1])
    else:
        cxx = None
    # First definition wins: a harness may replace a libc function.
    rc, o, e = run(["llvm-link", "-o", linked] + objs + ["--override=" + x for x in []], timeout=120)
    if rc != 0:
        raise RuntimeError("llvm-link failed: " + o + e)
    if cxx:
        rc, o, e = run(["llvm-link", "-o", linked + "1", linked, cxx], timeout=120)
        if rc != 0:
            raise RuntimeError("llvm-link failed: " + o + e)
        os.replace(linked + "1", linked)
    rc, o, e = run(["llvm-link", "--only-needed", "-o", linked + "2", linked, libc], timeout=120)
    if rc != 0:
        raise RuntimeError("llvm-link failed: " + o + e)
    opt = os.path.join(work, "ob_%d.bc" % idx)
    rc, o, e = run(["opt", "-passes=" + ob.g("passes", "function(mem2reg,simplifycfg)"), linked + "2", "-o", opt], timeout=120)
    if rc != 0:
        raise RuntimeError("opt failed: " + o + e)
    left = CHECK_BUDGET - (time.time() - T0)
    tmo = min(ob.g("timeout", 600), left)
    out = os.path.join(work, "symx_%d.json" % idx)
    cmd = [SYMX, "--entry", ob.g("func", "harness"), "--out", out, "--time", str(int(tmo)),
           "--jobs", str(ob.g("jobs", 1)), "--max-steps", str(ob.g("max_steps", 400000))]
    if ob.g("globals"):
        cmd += ["--yield-globals"]
    if ob.g("preempt") is not None:
        cmd += ["--preempt", str(ob.g("preempt"))]
    cmd += list(ob.g("symx", []))
    cmd.append(opt)
    r["cmd"] = " ".join(cmd).replace(work, "$WORK")
    rc, o, e = run(cmd, timeout=tmo + 60, mem=MEM_LIMIT)
    x = merge_symx(out)
    if x is None:
        r["status"] = "error"
        r["error"] = "symx rc=%s %s" % (rc, e[-1500:])
        return
    r["obligations"] = x["assert_checks"] + x["memory_checks"]
    r["queries"] = x["queries"]
    r["solver_s"] = round(x["solver_s"], 2)
    r["solver"] = "symx: bit-blasting to MiniSat 2.2 (%d queries), Z3 (%d)" % (x["sat_queries"], x["z3_queries"])
    r["cross_checked"] = x["cross_checked"]
    r["paths"] = x["paths"]
    r["instructions"] = x["instrs"]
    r["functions"] = x["functions"]
    wn = {}
    for w in x["witness_names"]:
        m, fn = w.split("\t")
        if fn in x["functions"]:
            wn[m] = 1
    reached = {w["msg"]: w for w in x["witnesses"]}
    r["witnesses"] = len(wn)
    r["witnesses_reached"] = len(reached)
    r["missing_witnesses"] = [m for m in wn if m not in reached]
    r["validated"] = 0
    r["samples"] = []
    fails = []
    for k, er in enumerate(x["errors"][:ob.g("max_replays", 12)]):
        if er["kind"] == "steps" and not ob.g("termination"):
            continue
        v, text = replay_failure(ob, build, pdir, work, idx, exe, er["inputs"], "ob%d_e%d" % (idx, k))
        fails.append({"property": er["kind"], "description": er["msg"], "function": er["function"],
                      "file": er["where"].rsplit(":", 1)[0], "line": er["where"].rsplit(":", 1)[-1],
                      "inputs": er["inputs"], "outs": er["outputs"], "verdict": v,
                      "text": text + "\nsymbolic call stack:\n" + er["trace"]})
        if v in ("fail", "hang") and not ob.g("all_failures"):
            break
    r["fails"] = fails
    for k, (m, w) in enumerate(list(reached.items()) + [(None, s) for s in x["samples"][:6]]):
        v, text = replay(ob, exe, w["inputs"], work, "ob%d_w%d" % (idx, k), fills=("190",))
        nat = [int(y) for y in re.findall(r"^VERIF OUT (\d+)$", text, re.M)]
        outs = w["outputs"]
        hit = ("VERIF WITNESS " + m) in text if m else "VERIF DONE" in text
        if hit and nat[:len(outs)] == outs:
            r["validated"] += 1
        elif not fails:
            r.setdefault("mismatch", []).append({"witness": m, "verdict": v, "inputs": w["inputs"][:64],
                                                 "encoding": outs[:64], "native": nat[:64], "text": text[-1500:]})
        if len(r["samples"]) < 3:
            r["samples"].append({"witness": m, "inputs": w["inputs"][:48], "outputs": outs[:16]})
    r["discharged"] = r["obligations"] if x["complete"] and not x["errors"] else r["obligations"] - max(1, len(x["errors"]))
    if any(f["verdict"] in ("fail", "hang") for f in fails):
        r["status"] = "violated"
    elif fails:
        r["status"] = "unreproduced"
    elif not x["complete"]:
        r["status"] = "incomplete"
        r["error"] = "; ".join(x["why"])
    elif (r["missing_witnesses"] and not ob.g("witness_optional")) or not wn:
        r["status"] = "vacuous"
    else:
        r["status"] = "holds"


def link(ob, exe, nobjs):
    if ob.g("threads"):
        flags = ["-Wl," + ",".join("--wrap=" + x for x in ("malloc", "free", "calloc", "realloc",
                 "posix_memalign", "aligned_alloc", "memalign"))]
    else:
        flags = ["-fsanitize=address,undefined"]
    rc, o, e = run(["g++"] + flags + ["-o", exe] + nobjs + list(ob.g("libs", []))
                   + ["-lpthread", "-lm"] + ([] if ob.g("threads") else ["-latomic"]), timeout=120)
    if rc != 0:
        raise RuntimeError("native link failed: " + o + e)


def native(ob, build, pdir, work, idx, init=None):
    """The native program; init fills automatic variables that have no value,
    as the encoding may give them any."""
    flags = ["-ftrivial-auto-var-init=" + init] if init else []
    nobjs = compile_all(ob, build, pdir, "natt" if ob.g("threads") else "nat", flags)
    exe = os.path.join(work, "ob_%d%s.exe" % (idx, init or ""))
    link(ob, exe, nobjs)
    return exe


def replay_failure(ob, build, pdir, work, idx, exe, ins, tag):
    v, text = replay(ob, exe, ins, work, tag)
    for init in ("zero", "pattern"):
        if v in ("fail", "hang"):
            break
        v2, t2 = replay(ob, native(ob, build, pdir, work, idx, init), ins, work, tag)
        if v2 in ("fail", "hang"):
            v, text = v2, "automatic variables filled: %s\n%s" % (init, t2)
    return v, text


def stop_soon():
    """A violation is confirmed: what is still running gets a little longer."""
    def go():
        STOP.set()
        for p in list(PROCS):
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
    t = threading.Timer(GRACE, go)
    t.daemon = True
    t.start()


def work_ob(args):
    ob = args[0]
    if STOP.is_set():
        ob.res["status"] = "stopped"
        return ob
    decide(args)
    if STOP.is_set():
        ob.res["status"] = "stopped"
        ob.res["fails"] = []
        ob.res.pop("error", None)
    elif ob.res["status"] == "violated" and any(
            f["verdict"] in ("fail", "hang") and not listed(ob, f)
            for f in ob.res.get("fails", [])):
        stop_soon()
    return ob


def listed(ob, f):
    """The known finding a failure is, if it is one."""
    for k in load_known():
        if (k["property"] == ob.prop and k["status"] == "known"
                and k["obligation"] == ob.name
                and k["match"] in f["description"]
                and (not k.get("function") or k["function"] == f["function"])
                and all(x in f["text"] for x in k.get("stack", []))):
            return k
    return None


def decide(args):
    ob, build, pdir, work, idx = args
    r = ob.res
    t = time.time()
    try:
        if ob.g("engine") == "symx":
            exe = native(ob, build, pdir, work, idx)
            run_symx(ob, build, pdir, work, idx, exe)
            return ob
        objs = compile_all(ob, build, pdir, "goto")
        gb = os.path.join(work, "ob_%d.gb" % idx)
        rc, o, e = run(["goto-cc", "-o", gb] + objs, timeout=120)
        if rc != 0:
            raise RuntimeError("goto link failed: " + o + e)
        exe = native(ob, build, pdir, work, idx)
        pr = cbmc(ob, gb, work, idx)
        if pr is None:
            return ob
        res = [p for p in pr["result"]]
        wit = [p for p in res if p["description"].startswith("WITNESS ")]
        real = [p for p in res if not p["description"].startswith("WITNESS ")]
        r["obligations"] = len(real)
        r["discharged"] = sum(1 for p in real if p["status"] == "SUCCESS")
        names = {}
        for p in wit:
            d = p["description"][8:]
            cur = names.get(d)
            if cur is None or p["status"] == "FAILURE":
                names[d] = p
        r["witnesses"] = len(names)
        r["witnesses_reached"] = sum(1 for p in names.values() if p["status"] == "FAILURE")
        bad = [p for p in real if p["status"] == "FAILURE"]
        r["validated"] = 0
        r["samples"] = []
        fails = []
        # Violations first.
        for p in bad[:ob.g("max_replays", 12)]:
            ins, outs = trace_io(p.get("trace"))
            v, text = replay_failure(ob, build, pdir, work, idx, exe, ins,
                                     "ob%d_%s" % (idx, re.sub(r"\W+", "_", p["property"])))
            fails.append({"property": p["property"], "description": p["description"],
                          "function": (p.get("sourceLocation") or {}).get("function"),
                          "line": (p.get("sourceLocation") or {}).get("line"),
                          "file": (p.get("sourceLocation") or {}).get("file"),
                          "inputs": ins, "outs": outs, "verdict": v, "text": text})
            if v in ("fail", "hang") and not ob.g("all_failures"):
                break
        r["fails"] = fails
        # Witness traces validate the encoding.
        for d, p in names.items():
            if p["status"] != "FAILURE":
                continue
            ins, outs = trace_io(p.get("trace"))
            v, text = replay(ob, exe, ins, work, "ob%d_w_%s" % (idx, re.sub(r"\W+", "_", d)), fills=("190",))
            nat = [int(x) for x in re.findall(r"^VERIF OUT (\d+)$", text, re.M)]
            hit = ("VERIF WITNESS " + d) in text
            if outs and outs[0] == 0 and nat[:len(outs)] != outs:
                outs = outs[1:]  # the initial value
            ok = hit and nat[:len(outs)] == outs
            if ok:
                r["validated"] += 1
            else:
                r.setdefault("mismatch", []).append(
                    {"witness": d, "verdict": v, "inputs": ins[:64],
                     "cbmc": outs[:64], "native": nat[:64], "text": text[-1500:]})
            if len(r["samples"]) < 3:
                r["samples"].append({"witness": d, "inputs": ins[:48], "outputs": outs[:16]})
        missing = [d for d, p in names.items() if p["status"] != "FAILURE"]
        r["missing_witnesses"] = missing
        if any(f["verdict"] in ("fail", "hang") for f in fails):
            r["status"] = "violated"
        elif fails:
            r["status"] = "unreproduced"
        elif missing and not ob.g("witness_optional"):
            r["status"] = "vacuous"
        elif not names:
            r["status"] = "vacuous"
        else:
            r["status"] = "holds"
        r["functions"] = repo_functions(gb, ob)
    except RuntimeError as ex:
        r["status"] = "error"
        r["error"] = str(ex)[-4000:]
    finally:
        r["wall_s"] = round(time.time() - t, 2)
    return ob


def repo_functions(gb, ob):
    """Functions the encoding contains: those reachable from the entry."""
    rc, o, e = run(["goto-instrument", "--call-graph", gb], timeout=60)
    edges = {}
    for m in re.finditer(r"^(\S+) -> (\S+)$", o, re.M):
        edges.setdefault(m.group(1), set()).add(m.group(2))
    seen, todo = set(), [ob.g("func", "harness")]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += edges.get(f, ())
    return sorted(x for x in seen if not x.startswith(("__CPROVER", "verif_")))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))["findings"]
    return []


def main():
    global CHECK_BUDGET
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if tier == "thorough" and "VERIF_BUDGET" not in os.environ:
        CHECK_BUDGET = 6 * 3600.0
    only = a[a.index("--only") + 1] if "--only" in a else None
    keep = "--keep" in a
    verbose = "-v" in a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pdir = os.path.join(VERIF, "props", prop)
    ns = {}
    exec(compile(open(os.path.join(pdir, "spec.py")).read(), "spec.py", "exec"), ns)
    obs = [Ob(prop, d, tier) for d in ns["OBLIGATIONS"]
           if tier in d.get("tiers", ["quick", "thorough"])
           and (only is None or re.fullmatch(only, d["name"]))]
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 2
    try:
        build = Build(work)
        jobs = int(os.environ.get("VERIF_JOBS", ns.get("JOBS", 8)))
        order = sorted(range(len(obs)), key=lambda i: -obs[i].g("weight", 1))
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(work_ob, [(obs[i], build, pdir, work, i) for i in order]))
        rc = report(prop, tier, seed, ns, obs, verbose, only)
    finally:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
        if keep:
            log("work directory kept:", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def report(prop, tier, seed, ns, obs, verbose, only):
    violations, findings, problems = [], [], []
    for ob in obs:
        r = ob.res
        if verbose or r["status"] not in ("holds",):
            log("%-34s %-12s %5s/%-5s wit %s/%s val %s solver %ss wall %ss unwind %s%s" % (
                ob.name, r["status"], r.get("discharged"), r.get("obligations"),
                r.get("witnesses_reached"), r.get("witnesses"), r.get("validated"),
                r.get("solver_s"), r.get("wall_s"), r.get("unwind"),
                " " + str(r.get("unwindset")) if r.get("unwindset") else ""))
            if r.get("nobody"):
                log("   no body:", r["nobody"])
        if r.get("mismatch") and r["status"] == "holds":
            log("   ENCODING MISMATCH", json.dumps(r["mismatch"])[:3000])
        if r["status"] == "violated":
            for f in r["fails"]:
                if f["verdict"] not in ("fail", "hang"):
                    continue
                k = listed(ob, f)
                if k:
                    findings.append((k, f))
                else:
                    violations.append((ob, f))
        elif r["status"] == "holds":
            pass
        else:
            problems.append(ob)
            if r.get("error"):
                log("   ", r["error"])
            for f in r.get("fails", []):
                log("    unreproduced: %s: %s [%s:%s] -> %s\n%s" % (
                    f["property"], f["description"], f["file"], f["line"],
                    f["verdict"], f["text"][-800:]))
            if r.get("missing_witnesses"):
                log("    witnesses not reached:", r["missing_witnesses"])
    for k in {k["id"]: k for k, f in findings}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    vio = []
    seen = {}
    for ob, f in violations:
        os.makedirs(REPLAYS, exist_ok=True)
        nth = seen[ob.name] = seen.get(ob.name, 0) + 1
        path = os.path.join(REPLAYS, "%s_%s%s.txt" % (prop, re.sub(r"\W+", "_", ob.name),
                                                     "" if nth == 1 else "_%d" % nth))
        with open(path, "w") as fh:
            fh.write("property %s obligation %s\nfailed: %s: %s\n  at %s:%s in %s\n"
                     "inputs (in program order): %s\n"
                     "native replay (gcc -fsanitize=address,undefined): %s\n%s\n" % (
                         prop, ob.name, f["property"], f["description"], f["file"],
                         f["line"], f["function"], f["inputs"], f["verdict"], f["text"]))
        print("  %s: %s (%s:%s)" % (ob.name, f["description"], f["file"], f["line"]), flush=True)
        vio.append(path)
    for p in sorted(set(vio)):
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    # Evidence
    R = [ob.res for ob in obs]
    funcs = ns.get("FUNCTIONS", [])
    cov = {
        "explanation": "Bounded symbolic execution of the real sources ("
        + "; ".join(sorted({{"symx": "symx: paths over the LLVM IR, queries bit-blasted to SAT"}.get(
            ob.g("engine"), "CBMC over the C sources") for ob in obs})) + "): each obligation holds for every value of its symbolic inputs within its "
        "stated bounds (unwinding assertions on), each reachability witness is "
        "replayed natively. " + ns.get("SUMMARY", ""),
        "paths": sum(r.get("paths", 0) for r in R),
        "instructions": sum(r.get("instructions", 0) for r in R),
        "obligations": sum(r.get("obligations", 0) for r in R),
        "discharged": sum(r.get("discharged", 0) for r in R),
        "harnesses": len(R),
        "harnesses_holding": sum(1 for r in R if r["status"] == "holds"),
        "vccs_generated": sum(r.get("vccs", 0) for r in R),
        "vccs_decided_by_solver": sum(r.get("vccs_to_solver", 0) for r in R),
        "queries": sum(r.get("queries", 0) for r in R),
        "solver_s": round(sum(r.get("solver_s", 0) for r in R), 2),
        "witnesses": sum(r.get("witnesses", 0) for r in R),
        "witnesses_reached": sum(r.get("witnesses_reached", 0) for r in R),
        "traces_validated_against_impl": sum(r.get("validated", 0) for r in R),
        "known_findings_confirmed": len({k["id"] for k, f in findings}),
        "functions_encoded": sorted(set(sum([r.get("functions") or [] for r in R], []))),
        "per_harness": [{
            "name": ob.name, "status": ob.res["status"], "bounds": ob.g("bounds", ""),
            "sources": repo_sources(ob), "unwind": ob.res.get("unwind"),
            "unwindset": ob.res.get("unwindset"), "obligations": ob.res.get("obligations"),
            "discharged": ob.res.get("discharged"), "variables": ob.res.get("variables"),
            "clauses": ob.res.get("clauses"), "solver": ob.res.get("solver"),
            "solver_s": ob.res.get("solver_s"), "wall_s": ob.res.get("wall_s"),
            "paths": ob.res.get("paths"), "instructions": ob.res.get("instructions"),
            "queries": ob.res.get("queries"), "validated": ob.res.get("validated"),
            "cross_checked": ob.res.get("cross_checked"), "preemptions": ob.g("preempt") if ob.g("threads") else None,
            "stubs": ob.g("stubs", ""), "no_body": ob.res.get("nobody"),
            "cmd": ob.res.get("cmd")} for ob in obs],
        "samples": sum([r.get("samples", []) for r in R], [])[:12],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "assumptions": ns.get("ASSUMPTIONS", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    if only is None and not os.environ.get("VERIF_NOEVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    if violations:
        return 1
    if problems:
        for ob in problems:
            print("INCONCLUSIVE property=%s obligation=%s status=%s" % (
                prop, ob.name, ob.res["status"]), flush=True)
        return 2
    print("HELD property=%s obligations=%d/%d harnesses=%d solver_s=%.1f wall_s=%.1f" % (
        prop, cov["discharged"], cov["obligations"], len(R), cov["solver_s"],
        time.time() - T0), flush=True)
    return 0


if __name__ == "__main__":
    main()
