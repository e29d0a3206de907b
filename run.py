#!/usr/bin/env python3
"""Deterministic simulation checks for libfork.

  run.py check <PROPERTY>           one property (VERIF_TIER=quick|thorough, VERIF_SEED=n); rewrites evidence/<PROPERTY>.json
  run.py build [LIB...]             build the simulator and scenario libraries from /repo
  run.py replay <file> [trace]      replay a violation in a fresh process, prints the (symbolised) violation
  run.py determinism [seconds]      run many seeds twice, across processes, and compare event hashes
"""
import hashlib, json, os, re, struct, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
sys.path.insert(0, HERE)
from checks import LIBS, CHECKS, KNOWN_SCENARIOS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", 0)) or os.cpu_count() or 1
WRAPS = ("malloc free calloc realloc aligned_alloc posix_memalign memcpy memmove memset __cxa_atexit "
         "hwloc_topology_init hwloc_topology_destroy hwloc_bitmap_alloc hwloc_bitmap_alloc_full hwloc_bitmap_dup hwloc_bitmap_free "
         "hwloc_bitmap_singlify").split()
BASE = ("-std=c++23 -g1 -fPIC -ftls-model=global-dynamic -fsanitize=thread "
        "--param tsan-instrument-func-entry-exit=0 -w -DLF_USE_HWLOC").split()


class Broken(Exception):
    """The check itself went wrong (neither held nor violated)."""


def log(*a):
    print(*a, flush=True)


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    f = os.path.join(d, f)
                    h.update(f.encode())
                    h.update(open(f, "rb").read())
        else:
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h


def sh(cmd, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_simrun():
    src = os.path.join(HERE, "sim")
    key = tree_hash(src).hexdigest()[:16]
    exe = os.path.join(BUILD, "simrun-" + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (exe, os.getpid())
        sh(["g++", "-std=c++20", "-O2", "-g", "-fno-pie", "-no-pie", "-rdynamic", "-fno-strict-aliasing", "-w", "-o", tmp,
            os.path.join(src, "simrun.cpp" if os.path.exists(os.path.join(src, "simrun.cpp")) else "simrt.cpp"), "-ldl"])
        os.rename(tmp, exe)
    return exe


_inc_hash = {}


def build_lib(name):
    """Compile one scenario library against the current working tree of /repo."""
    d = LIBS[name]
    inc = os.path.join(REPO, "single_header" if d.get("single") else "include")
    if inc not in _inc_hash:
        _inc_hash[inc] = tree_hash(inc).hexdigest()
    flags = BASE + d["flags"]
    h = tree_hash(os.path.join(HERE, "scenarios"), os.path.join(HERE, "sim", "sim.h"))
    h.update(_inc_hash[inc].encode())
    h.update(repr((name, flags)).encode())
    so = os.path.join(BUILD, "%s-%s.so" % (name, h.hexdigest()[:16]))
    if os.path.exists(so):
        return so
    os.makedirs(BUILD, exist_ok=True)
    for f in os.listdir(BUILD):  # older builds of this library
        if re.match(re.escape(name) + r"-[0-9a-f]{16}\.so$", f):
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = "%s.%d" % (so, os.getpid())
    cpp = os.path.join(HERE, "scenarios", d["src"])
    if d.get("clang"):
        # clang builds of the library use an inline assembly instruction as their fence; let the simulator see it as one
        ll = tmp + ".ll"
        flags = [f for f in flags if f != "--param" and not f.startswith("tsan-")] + ["-mllvm", "-tsan-instrument-func-entry-exit=0"]
        sh(["clang++"] + flags + ["-I" + inc, "-S", "-emit-llvm", "-Xclang", "-disable-llvm-passes", cpp, "-o", ll])
        txt = open(ll).read()
        txt = re.sub(r"(?m)^(\s*)(?=(?:%\S+ = )?(?:tail )?call [^\n]*asm sideeffect \"(?:lock;|mfence|xchg))", r"\1fence seq_cst\n\1", txt)
        open(ll, "w").write(txt)
        sh(["clang++"] + [f for f in flags if not f.startswith(("-std", "-D"))] + ["-c", ll, "-o", tmp + ".o"])
        os.remove(ll)
    else:
        sh(["g++"] + flags + ["-I" + inc, "-c", cpp, "-o", tmp + ".o"])
    sh(["g++", "-shared", "-o", tmp, tmp + ".o"] + ["-Wl,--wrap=" + w for w in WRAPS] + ["-Wl,-z,now", "-lhwloc"])
    os.remove(tmp + ".o")
    os.rename(tmp, so)
    return so


def build(libs):
    t = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        fs = {l: ex.submit(build_lib, l) for l in libs}
        exe = build_simrun()
        sos = {l: f.result() for l, f in fs.items()}
    return exe, sos, time.time() - t


def symbolise(so, msg):
    def one(m):
        try:
            o = subprocess.run(["addr2line", "-Cfie", so, "0x%x" % (int(m.group(1), 16))], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=20).stdout.split("\n")
            fr = ["%s at %s" % (re.sub(r"\s*\[clone .*", "", o[i])[:110], o[i + 1].split("/")[-1]) for i in range(0, len(o) - 1, 2)]
            return " <- ".join(fr[:4])
        except Exception:
            return m.group(0)
    return re.sub(r"@(?:0x)?([0-9a-f]+)@", one, msg)


def parse(out):
    v = s = None
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("type") == "violation":
                v = d
            elif d.get("type") == "stats":
                s = d
    return v, s


def simrun(exe, args, timeout):
    try:
        r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd="/", env={"PATH": os.environ.get("PATH", ""), "LC_ALL": "C"})
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -1000, (e.stdout or b"").decode("utf-8", "replace"), "timeout"


def seed_base(seed, prop, job):
    h = hashlib.sha256(("%d/%s/%s" % (seed, prop, job)).encode()).digest()
    return int.from_bytes(h[:6], "big") << 8


class Agg:
    def __init__(self):
        self.runs = self.inconclusive = self.steps = self.switches = self.preempt = self.nontrivial = self.weak = 0
        self.fair = self.sim_ns = self.maxsteps = 0
        self.probes, self.faults, self.strat = {}, {}, {}
        self.samples = []
        self.hashes = set()
        self.nthashes = set()
        self.per = {}

    def add(self, job, s, hashfile):
        for k in ("runs", "inconclusive", "steps", "switches", "preempt", "nontrivial", "weak", "fair", "sim_ns"):
            setattr(self, k, getattr(self, k) + s.get(k, 0))
        self.maxsteps = max(self.maxsteps, s.get("maxsteps", 0))
        for f in ("probes", "faults"):
            for k, v in s.get(f, {}).items():
                c = getattr(self, f).setdefault(k, [0, 0])
                c[0] += v[0]
                c[1] += v[1]
        for i, v in enumerate(s.get("strat", [])):
            self.strat[i] = self.strat.get(i, 0) + v
        self.per[job] = self.per.get(job, 0) + s.get("runs", 0)
        if len(self.samples) < 12:
            self.samples += [{"scenario": job, "run": x} for x in s.get("samples", [])[:1]]
        if hashfile and os.path.exists(hashfile):
            b = open(hashfile, "rb").read()
            for i in range(0, len(b) - 31, 32):
                hh, full, fl, _, sd = struct.unpack_from("<QQIIQ", b, i)
                self.hashes.add(hh)
                if fl & 1:
                    self.nthashes.add(hh)
            os.remove(hashfile)


def confirm(exe, so, scn, v, prop, lib, tier):
    """Gate, minimise and store a violation; returns (replay path, message, steps before/after)."""
    os.makedirs(OUT, exist_ok=True)
    stem = os.path.join(OUT, "%s-%s-%s-%s" % (prop, lib, scn, v["seed"]))
    raw = stem + ".raw.replay"
    weak = v.get("weak_arg", 2)
    hashes = []
    for k in range(2):
        rc, out, err = simrun(exe, ["seed", so, scn, v["seed"], raw, weak], 300)
        w, _ = parse(out)
        if rc != 3 or not w:
            raise Broken("seed %s of %s/%s failed once and not again (rc=%d): simulator is not deterministic\n%s\n%s"
                         % (v["seed"], lib, scn, rc, json.dumps(v), (out + err)[-2000:]))
        hashes.append(w["hash"])
    if hashes[0] != hashes[1] or hashes[0] != v["hash"]:
        raise Broken("seed %s of %s/%s: event hashes differ between runs: %s %s" % (v["seed"], lib, scn, v["hash"], hashes))
    final = stem + ".replay"
    small = stem + ".small.replay"
    best = raw
    rc, out, err = simrun(exe, ["shrink", so, raw, small, 40 if tier == "thorough" else 20], 120)
    if os.path.exists(small):
        ok = True
        for k in range(2):
            rc, out, err = simrun(exe, ["replay", so, small], 120)
            w2, _ = parse(out)
            ok = ok and rc == 3 and w2 and w2["class"] == v["class"]
        if ok:
            best = small
    rc, out, err = simrun(exe, ["replay", so, best], 120)
    w2, _ = parse(out)
    if rc != 3 or not w2:
        raise Broken("replay file of seed %s of %s/%s does not reproduce\n%s" % (v["seed"], lib, scn, (out + err)[-2000:]))
    body = open(best, "rb").read()
    with open(final, "wb") as f:
        f.write(body)
    with open(final + ".json", "w") as f:
        json.dump({"property": prop, "lib": lib, "scenario": scn, "seed": v["seed"], "class": w2["class"],
                   "message": symbolise(so, w2["message"])}, f)
    for p in (raw, small):
        if os.path.exists(p):
            os.remove(p)
    return final, w2


def load_known():
    ks = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) lib=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ (.*)$", line)
            if m:
                ks.append(dict(zip(("property", "lib", "scenario", "class", "match", "what"), m.groups())))
    return ks


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    jobs = c["jobs"]  # (lib, scenario, weight, weak)
    if tier == "thorough":
        jobs = jobs + c.get("thorough_jobs", [])
    known = [k for k in load_known() if k["property"] == prop]
    libs = sorted({j[0] for j in jobs} | {k["lib"] for k in known})
    exe, sos, tb = build(libs)
    budget = float(os.environ.get("VERIF_SECONDS", c.get("thorough_s", 560) if tier == "thorough" else c.get("quick_s", 34)))
    log("%s: built %d scenario libraries in %.1f s; searching for %.0f s on %d cores" % (prop, len(libs), tb, budget, JOBS))
    tot = sum(j[2] for j in jobs)
    agg = Agg()
    viol = []
    errors = []
    tmp = tempfile.mkdtemp(prefix="simv-")
    stop = []

    def stream(i):
        order = list(range(len(jobs)))
        order = order[i % len(order):] + order[:i % len(order)]  # different cores start with different scenarios
        t1 = time.time()
        for n, k in enumerate(order):
            if stop:
                return
            lib, scn, w, weak = jobs[k]
            left = budget - (time.time() - t1)
            rest = sum(jobs[x][2] for x in order[n:])
            secs = max(0.3, left * w / rest)
            name = "%s/%s" % (lib, scn)
            hf = os.path.join(tmp, "h%d-%d" % (i, k))
            rf = os.path.join(tmp, "r%d-%d" % (i, k))
            rc, out, err = simrun(exe, ["batch", sos[lib], scn, seed_base(seed, prop, name) + i, JOBS, 1 << 40, "%.2f" % secs,
                                        rf, hf, weak], secs + 240)
            v, s = parse(out)
            if s:
                agg_lock_add(name, s, hf)
            if rc == 3 and v:
                v["weak_arg"] = weak
                viol.append((lib, scn, v))
                stop.append(1)
            elif rc != 0:
                errors.append("%s stream %d: rc=%d %s" % (name, i, rc, (out + err)[-1500:]))
                stop.append(1)

    import threading
    lock = threading.Lock()

    def agg_lock_add(name, s, hf):
        with lock:
            agg.add(name, s, hf)

    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(stream, i) for i in range(JOBS)]:
            f.result()
    tsearch = time.time() - t0 - tb
    shutil.rmtree(tmp, ignore_errors=True)

    if not viol:
        for k in known:
            # the recorded defect has a scenario of its own; anything else that fails there is a violation
            with ThreadPoolExecutor(JOBS) as ex:
                rs = list(ex.map(lambda i: simrun(exe, ["batch", sos[k["lib"]], k["scenario"], (7777 << 8) + i, JOBS, 6000, 30,
                                                        os.path.join(BUILD, "known.%d.%d" % (os.getpid(), i)), "-", 2], 200), range(JOBS)))
            for i in range(JOBS):
                f = os.path.join(BUILD, "known.%d.%d" % (os.getpid(), i))
                if os.path.exists(f):
                    os.remove(f)
            seen = 0
            for rc, out, err in rs:
                v, s = parse(out)
                if rc != 3 or not v:
                    continue
                m = symbolise(sos[k["lib"]], v["message"])
                if re.fullmatch(k["class"], v["class"]) and re.search(k["match"], m):
                    seen += 1
                else:
                    v["weak_arg"] = 2
                    viol.append((k["lib"], k["scenario"], v))
            if seen:
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    replay, vmsg = None, None
    if viol:
        fails = []
        for lib, scn, v in sorted(viol, key=lambda x: x[2].get("steps", 0))[:4]:
            try:
                replay, w = confirm(exe, sos[lib], scn, v, prop, lib, tier)
                break
            except Broken as e:
                fails.append(str(e))
        if not replay:
            raise Broken("\n".join(fails))
        vmsg = "%s/%s seed=%s class=%s: %s" % (lib, scn, v["seed"], w["class"], symbolise(sos[lib], w["message"]))
        log("violation in %s" % vmsg)
        log("first found after %s steps, minimised to %s; replay with: python3 %s/run.py replay %s"
            % (v.get("steps"), w.get("steps"), HERE, replay))
        log("VIOLATION property=%s replay=%s" % (prop, replay))
    elif errors:
        raise Broken("\n".join(errors))
    if not viol and agg.runs - agg.inconclusive <= 0:
        raise Broken("nothing was explored")

    wall = time.time() - t0
    per_h = 3600.0 / max(tsearch, 0.001)
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "wall_s": round(wall, 2), "violations": 1 if viol else 0,
        "assumptions": c.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "coverage": {
            "evaluations": agg.runs - agg.inconclusive,
            "distinct_nontrivial": len(agg.nthashes),
            "rule": c["rule"] + " Every case is one simulated run decided by one seed: generated workload, every scheduling "
                    "decision, every stale-read choice and every injected fault. Two runs are distinct if the hash over workload "
                    "choices, the thread chosen at every scheduling point and every fault decision differs.",
            "samples": agg.samples,
            "distinct_interleavings": len(agg.hashes),
            "inconclusive_runs": agg.inconclusive,
            "runs_per_scenario": agg.per,
            "runs_per_hour": int(agg.runs * per_h), "seeds_per_hour": int(agg.runs * per_h),
            "simulated_time_s": agg.sim_ns / 1e9, "scheduling_points": agg.steps, "context_switches": agg.switches,
            "preemptions": agg.preempt, "longest_run_steps": agg.maxsteps,
            "runs_with_weak_memory": agg.weak, "runs_reaching_fair_tail": agg.fair,
            "scheduler_strategies": agg.strat,
            "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(agg.faults.items())},
            "probes": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(agg.probes.items())},
            "search_s": round(tsearch, 2), "build_s": round(tb, 2), "cores": JOBS,
            "real_components": c.get("real", REAL), "stubbed_components": STUB,
        },
    }
    if vmsg:
        ev["coverage"]["violation"] = vmsg
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d runs (%d distinct non-trivial interleavings), %d scheduling points, faults %s, %.1f s"
        % (prop, agg.runs, len(agg.nthashes), agg.steps, {k: v[0] for k, v in agg.faults.items()}, wall))
    return 1 if viol else 0


REAL = ["all libfork headers of /repo (tasks, promises, awaitables, stacks, deque, list, event_count, pools, algorithms, NUMA code)",
        "libstdc++ (future, shared_ptr, thread, latch, semaphore, vector, exceptions unwinding)", "hwloc (synthetic topologies)"]
STUB = ["thread scheduler (simulated threads on one OS thread)", "atomics and fences (simulated C++ memory model)",
        "heap (malloc family, with fault injection, poisoning and quarantine)", "futex / pthread mutex, cond, create, join, once, "
        "thread-specific data, sched_yield, nanosleep", "clock, random_device, hardware_concurrency", "CPU and memory binding calls"]
COMMON_ASSUMPTIONS = [
    "seeded sampling, not enumeration: a clean batch is evidence, not proof",
    "the weak memory mode models C11 release/acquire/relaxed/seq_cst with per-location modification order following execution "
    "order; load buffering (out-of-thin-air style) behaviours are not generated",
    "scheduling points are atomic operations, fences, lock/condition/futex calls, allocations and explicit points; plain accesses "
    "are checked for races by happens-before, so no interleaving of race-free plain accesses is missed",
    "x86-64 gcc 13 code generation with -fsanitize=thread instrumentation",
]


def replay(path, rest):
    meta = json.load(open(path + ".json"))
    exe, sos, _ = build([meta["lib"]])
    rc, out, err = simrun(exe, ["replay", sos[meta["lib"]], path] + rest, 300)
    log(symbolise(sos[meta["lib"]], out))
    if err:
        log(err[-20000:])
    return 1 if rc == 3 else 0 if rc == 0 else 2


def determinism(secs):
    """Same seeds in different processes, with different batch composition: full event hashes must agree."""
    libs = sorted({j[0] for c in CHECKS.values() for j in c["jobs"]})
    exe, sos, _ = build(libs)
    todo = sorted({(j[0], j[1]) for c in CHECKS.values() for j in c["jobs"]})
    bad = n = 0
    tmp = tempfile.mkdtemp(prefix="simd-")

    def one(lib, scn):
        recs = []
        # (first seed, stride) differ, so a seed runs at different positions of a process' life
        for k, (s0, st, cnt) in enumerate(((1000, 1, 240), (1000, 3, 80), (1001, 2, 120))):
            hf = os.path.join(tmp, "%s-%s-%d" % (lib, scn, k))
            rc, out, err = simrun(exe, ["batch", sos[lib], scn, s0, st, cnt, 120, "/dev/null", hf, 2], 400)
            if rc != 0:
                return "rc %d" % rc, 0
            b = open(hf, "rb").read()
            recs.append({struct.unpack_from("<QQIIQ", b, i)[4]: struct.unpack_from("<QQIIQ", b, i)[:2] for i in range(0, len(b) - 31, 32)})
        m = 0
        for r in recs[1:]:
            for sd, h in r.items():
                if sd in recs[0]:
                    m += 1
                    if recs[0][sd] != h:
                        return "seed %d differs" % sd, m
        return None, m

    with ThreadPoolExecutor(JOBS) as ex:
        for (lib, scn), f in [((l, s), ex.submit(one, l, s)) for l, s in todo]:
            e, m = f.result()
            n += m
            if e:
                bad += 1
                log("%s/%s: %s" % (lib, scn, e))
    shutil.rmtree(tmp, ignore_errors=True)
    log("determinism: %d scenarios, %d seeds compared across processes, %d scenario(s) diverge" % (len(todo), n, bad))
    return 1 if bad else 0


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if cmd == "check":
            return check(sys.argv[2])
        if cmd == "build":
            exe, sos, t = build(sys.argv[2:] or sorted(LIBS))
            log("built %s and %d libraries in %.1f s" % (os.path.basename(exe), len(sos), t))
            return 0
        if cmd == "replay":
            return replay(sys.argv[2], sys.argv[3:])
        if cmd == "determinism":
            return determinism(float(sys.argv[2]) if len(sys.argv) > 2 else 60)
        print(__doc__)
        return 2
    except Broken as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr, flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
