#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree into the simulator, searches, and writes the evidence.
  check.py run ID [--secs N] [--all] [--workers N]     one property (tier from VERIF_TIER or --tier, base seed from VERIF_SEED)
  check.py replay FILE                                 re-execute a replay file
  check.py build                                       build everything
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
LIBDIRS = ["PlatformSupport", "DotNetLibrary", "DotNetLibrary/src", "DotNetLibrarySupport"]
INCDIRS = ["PlatformSupport", "DotNetLibrary/include", "DotNetLibrarySupport"]
WRAP_ASAN = ("vswprintf __vswprintf_chk swprintf __swprintf_chk swscanf __isoc99_swscanf __isoc23_swscanf wcstod wcstof wcstold wcstol wcstoll wcstoul wcstoull "
             "__isoc23_wcstol __isoc23_wcstoll __isoc23_wcstoul __isoc23_wcstoull wmemcpy __wmemcpy_chk wmemmove __wmemmove_chk wmemset __wmemset_chk wmemcmp wmemchr "
             "wcscpy __wcscpy_chk wcpcpy wcsncpy __wcsncpy_chk wcscmp wcsncmp wcscoll wcscasecmp wcsspn wcscspn wcschr wcsrchr wcsstr").split()
WRAP = ["malloc", "free", "calloc", "realloc", "time", "clock_gettime", "gettimeofday", "timespec_get",
        "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"]
COMMON = ["-std=gnu++11", "-g1", "-w", "-fPIC", "-fcf-protection=none", "-fpatchable-function-entry=16", "-fno-ipa-icf"]
MODES = {"plain": ["-O2", "-DNDEBUG"], "asan": ["-O1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"]}
NOINLINE = ["-fno-inline", "-fno-ipa-cp", "-fno-ipa-sra", "-fno-partial-inlining", "-fno-ipa-ra"]
VARIANTS = {  # name: (mode, MEMORY_SIZE, what)
    "plain": ("plain", 32767), "plain1k": ("plain", 1000), "plain4k": ("plain", 4096), "plain64k": ("plain", 65536), "plain8m": ("plain", 8388608),
    "asan": ("asan", 32767), "asanbig": ("asan", 262144)}
SIMSRC = ["world", "plan", "model", "gen", "scen_model", "scen_run", "scen_time", "scen_wild", "main"]
PROPS = {  # id: (variants, quick seconds, thorough seconds)
    "C01": (["asan", "plain", "plain4k", "asanbig"], 45, 420), "C02": (["plain", "plain1k", "plain4k", "plain64k", "plain8m", "asan"], 45, 420),
    "C03": (["asan", "plain4k", "asanbig", "plain"], 50, 480), "C04": (["asanbig", "plain", "asan"], 45, 420), "C05": (["plain", "asanbig"], 45, 420),
    "C06": (["plain"], 40, 300), "C07": (["plain", "asan"], 40, 300), "C08": (["plain", "asan"], 40, 300), "C09": (["plain"], 40, 300),
    "C10": (["asanbig", "plain", "plain4k", "asan"], 50, 480), "C11": (["asanbig", "plain", "asan"], 50, 480), "C12": (["asanbig", "plain", "asan"], 50, 480),
    "C13": (["asanbig", "plain", "asan"], 45, 420), "C14": (["asanbig", "plain", "plain4k", "asan"], 45, 420), "C15": (["plain8m", "asanbig", "plain", "asan"], 50, 480),
    "C24": (["asanbig", "plain", "plain4k", "asan"], 45, 420),
    "C16": (["asanbig", "plain", "asan", "plain4k"], 60, 600), "C17": (["asanbig", "plain", "plain4k", "asan"], 40, 300)}

def fail(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(3)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("command failed: " + " ".join(cmd) + "\n" + r.stdout[-4000:])

def build(names):
    """Returns {variant: path of its shared object} and {mode: path of the simulator executable}."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    lock = open(BUILD + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = sorted({s for d in LIBDIRS for s in glob.glob(os.path.join(REPO, d, "*.cpp"))})
    hdrs = sorted(h for d in ["PlatformSupport", "DotNetLibrary", "DotNetLibrarySupport"] for h in glob.glob(os.path.join(REPO, d, "**", "*.h"), recursive=True))
    if not srcs:
        fail("no sources under " + REPO)
    hh = sha(*[os.path.relpath(h, REPO) + "\n" + read(h).decode("utf-8", "replace") for h in hdrs])
    hdr_mem = any(b"MEMORY_SIZE" in read(h) for h in hdrs)
    shim = [os.path.join(SIM, "adapter.cpp"), os.path.join(SIM, "seams.cpp")]
    sh = sha(*[read(os.path.join(SIM, n)) for n in ("api.h", "ops.def", "version.map")])
    simh = sha(sh, read(os.path.join(SIM, "sim.h")), read(os.path.join(SIM, "gen.h")))
    inc = ["-I" + os.path.join(REPO, d) for d in INCDIRS] + ["-I" + SIM]
    jobs, libs, exes = {}, {}, {}
    def obj(src, flags, extra):
        key = sha(read(src), os.path.relpath(src, REPO), " ".join(flags), extra, REPO)
        out = os.path.join(BUILD, "obj", key + ".o")
        if not os.path.exists(out):
            jobs[out] = ["g++"] + flags + ["-c", src, "-o", out]
        return out
    links = []
    for v in names:
        mode, mem = VARIANTS[v]
        objs = []
        for s in srcs + shim:
            t = read(s)
            f = COMMON + MODES[mode] + inc
            if b"my_operator_new_replacement" in t and s not in shim:
                f = f + NOINLINE
            if hdr_mem or b"MEMORY_SIZE" in t:
                f = f + ["-DMEMORY_SIZE=%d" % mem]
            objs.append(obj(s, f, hh + sh))
        lib = os.path.join(BUILD, "lib_%s_%s.so" % (v, sha(*objs)))
        libs[v] = lib
        if not os.path.exists(lib):
            links.append((lib, ["g++", "-shared"] + (["-fsanitize=address"] if mode == "asan" else []) + ["-o", lib] + objs +
                          ["-Wl,--version-script=" + os.path.join(SIM, "version.map"), "-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + w for w in WRAP + (WRAP_ASAN if mode == "asan" else [])]))
    for mode in sorted({VARIANTS[v][0] for v in names}):
        fl = ["-std=c++17", "-O1", "-g1", "-w"] + (["-fsanitize=address"] if mode == "asan" else [])
        objs = [obj(os.path.join(SIM, s + ".cpp"), fl, simh) for s in SIMSRC]
        exe = os.path.join(BUILD, "sim_%s_%s" % (mode, sha(*objs)))
        exes[mode] = exe
        if not os.path.exists(exe):
            links.append((exe, ["g++"] + (["-fsanitize=address"] if mode == "asan" else []) + ["-o", exe] + objs + ["-ldl"]))
    def compile1(item):
        out, cmd = item
        tmp = out + ".%d.tmp" % os.getpid()
        run(cmd[:-1] + [tmp])
        os.rename(tmp, out)
    def link1(item):
        out, cmd = item
        tmp = out + ".%d.tmp" % os.getpid()
        run([tmp if c == out else c for c in cmd])
        os.rename(tmp, out)
    try:
        big = sorted(jobs.items(), key=lambda j: -os.path.getsize(j[1][-3]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(compile1, big))
            list(ex.map(link1, links))
    except RuntimeError as e:
        fail("build failed\n" + str(e))
    keep = set(libs.values()) | set(exes.values())
    old = sorted((f for f in glob.glob(BUILD + "/lib_*") + glob.glob(BUILD + "/sim_*") + glob.glob(BUILD + "/obj/*.o") if f not in keep), key=os.path.getmtime)
    for f in old[:max(0, len(old) - 1500)]:
        os.unlink(f)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return libs, exes

def libargs(libs, names):
    a = []
    for v in names:
        a += ["--lib", "%s:%d:%s" % (v, VARIANTS[v][1], libs[v])]
    return a

def known(prop):
    """known_findings.txt: lines 'known: property=ID class=CLASS <text>' (reported, not failed) and 'fixed: ...' (suppress nothing)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def main_run(prop, opts):
    if prop not in PROPS:
        fail("unknown property " + prop)
    tier = opts.get("tier") or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) if "seed" not in opts else int(opts["seed"])
    names, q, t = PROPS[prop]
    secs = float(opts.get("secs", q if tier == "quick" else t))
    t0 = time.time()
    libs, exes = build(names)
    tb = time.time() - t0
    rep = os.path.join(VERIF, "replays")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    modes = sorted({VARIANTS[v][0] for v in names})
    total = int(opts.get("workers", os.cpu_count() or 4))
    procs, outs = [], {}
    kn = known(prop)
    for m in modes:
        out = os.path.join(BUILD, "stats_%s_%s_%d.json" % (prop, m, os.getpid()))
        outs[m] = out
        cmd = [exes[m], "run", "--prop", prop, "--seed", str(seed), "--tier", tier, "--secs", str(secs), "--workers", str(max(1, total // len(modes))), "--out", out, "--replays", rep]
        cmd += libargs(libs, [v for v in names if VARIANTS[v][0] == m])
        if "all" in opts:
            cmd.append("--all")
        for c, _ in kn:
            cmd += ["--ignore", c]
        procs.append((m, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    rc, stats, texts = 0, {}, []
    for m, p in procs:
        o, e = p.communicate()
        texts.append(o)
        if e.strip():
            sys.stderr.write(e)
        if os.path.exists(outs[m]):
            stats[m] = json.load(open(outs[m]))
            os.unlink(outs[m])
        if p.returncode not in (0, 1):
            rc = max(rc, 3)
        elif p.returncode == 1 and rc == 0:
            rc = 1
    viol = any("VIOLATION property=" in t for t in texts)
    for t in texts:
        sys.stdout.write(t)
    if viol:
        rc = 1
    def tot(k):
        return sum(s[k] for s in stats.values())
    def merge(k):
        r = {}
        for s in stats.values():
            for a, b in s[k].items():
                r[a] = r.get(a, 0) + b
        return r
    if not stats:
        fail("the simulator did not run")
    if "all" not in opts:
        for s in stats.values():
            for f in s["found"]:
                if f["known"]:
                    for c, text in kn:
                        if c == f["class"]:
                            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, text, c))
        if tot("harness_errors") or tot("nondeterministic"):
            for s in stats.values():
                if s["harness_message"]:
                    print("simulator problem: " + s["harness_message"], file=sys.stderr)
            if rc == 0 and tot("harness_errors") * 50 > tot("seeds"):
                rc = 3
        wall = time.time() - t0
        sw = max(s["wall_s"] for s in stats.values()) or 1
        samples = [x for s in stats.values() for x in s["samples"]][:5]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "fault_enumeration" if prop == "C03" else "exploration",
              "coverage": {
                  "evaluations": tot("execs"), "distinct_nontrivial": tot("distinct"),
                  "rule": "one evaluation is one simulated execution of a plan; distinct counts executions with different event logs (hash over every step's operation, outcome, value and text) in which the property was put to the test at least once",
                  "samples": samples,
                  "seeds": tot("seeds"), "nontrivial_seeds": tot("nontrivial"), "runs_per_hour": round(tot("execs") / sw * 3600), "seeds_per_hour": round(tot("seeds") / sw * 3600),
                  "program_runs": tot("runs"), "operations": tot("ops"), "steps": tot("steps"), "simulated_seconds": tot("sim_ns") / 1e9,
                  "faults_injected": merge("faults"), "outcomes": merge("kinds"), "operations_by_kind": merge("op_counts"),
                  "distinct_states": tot("states"), "state_measure": "distinct (operation, outcome, exception type, refusal, pool/heap, property-specific situation) tuples, hashed into 4M bits",
                  "determinism_pairs": tot("det_pairs"), "not_repeatable": tot("nondeterministic"), "unreproducible": tot("unreproducible"), "simulator_errors": tot("harness_errors"),
                  "real_code": "PlatformSupport, DotNetLibrary, DotNetLibrarySupport compiled from /repo's working tree; libc stdio, time zone rules and locale",
                  "stubs": "platform heap, platform clock, output device, host process and translated program (seeded operation sequences through the public classes)",
                  "variants": {v: {"mode": VARIANTS[v][0], "memory_size": VARIANTS[v][1]} for v in names}, "search_s": sw, "build_s": round(tb, 1)},
              "wall_s": round(wall, 1), "violations": sum(1 for s in stats.values() if s["violation"]),
              "assumptions": ["the translated program is represented by operation sequences on the public classes", "the library runs single threaded, as it is designed to", "the fuzzed space is sampled, not enumerated" if prop != "C03" else "programs are sampled; every allocation of a sampled program is refused in turn when there are few enough of them"]}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed %d: %d seeds, %d executions, %d operations, %d distinct logs, %d states, build %.0f s, search %.0f s: %s" % (prop, tier, seed, tot("seeds"), tot("execs"), tot("ops"), tot("distinct"), tot("states"), tb, sw, "held" if rc == 0 else "VIOLATION" if rc == 1 else "no answer"))
    sys.exit(rc)

def main_replay(path):
    text = open(path).read()
    m = re.search(r"^variant (\S+)", text, re.M)
    v = m.group(1) if m else "plain"
    libs, exes = build([v])
    r = subprocess.run([exes[VARIANTS[v][0]], "replay", path] + libargs(libs, [v]))
    sys.exit(r.returncode)

def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        build(sorted(VARIANTS))
        return
    if len(a) == 2 and a[0] == "replay":
        main_replay(a[1])
    if len(a) >= 2 and a[0] == "run":
        opts, i = {}, 2
        while i < len(a):
            k = a[i].lstrip("-")
            if k == "all":
                opts[k] = True
                i += 1
            else:
                opts[k] = a[i + 1]
                i += 2
        main_run(a[1], opts)
    print(__doc__)
    sys.exit(2)
main()
