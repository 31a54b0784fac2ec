#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decides one property on /repo's current working tree.
   check.py setup                          builds the model checking runtime.
   check.py <property> replay <file>       replays a recorded violation.

1. builds harness/<property>*.cpp twice from /repo/include: instrumented for the explorer (omc/rt.cpp), and natively
   (libgomp, address and undefined behaviour sanitizer) for the conformance runs;
2. explores every case of the harness exhaustively within its bounds;
3. runs the same cases natively: every outcome observed must be among the explored ones, and the oracle must agree;
4. filters the violations listed in known_findings.json, writes evidence/<property>.json and the verdict.
Exit 0: held on everything explored.  1: violated (VIOLATION line).  2: the machinery failed.
"""
import sys, os, json, signal, subprocess, tempfile, shutil, glob, time, hashlib, collections
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OMC_REPO", "/repo")          # only used to develop the checks; MANIFEST commands use /repo
INC = os.path.join(REPO, "include")
BUILD = os.path.join(HERE, "build")
WRAP = ("malloc calloc realloc free posix_memalign aligned_alloc mmap mmap64 munmap madvise posix_madvise msync mprotect open open64 "
        "__open_2 __open64_2 close fopen fopen64 fdopen fclose fseeko fseeko64 fseek ftello ftello64 ftell fputc fwrite fflush "
        "ftruncate ftruncate64 posix_fallocate fstat fstat64 lseek lseek64 write pwrite memcpy memmove memset memcmp memchr strlen "
        "strcmp strncmp vsnprintf snprintf sprintf abort exit _exit __assert_fail pthread_mutex_lock pthread_mutex_unlock "
        "pthread_mutex_trylock").split()
COMMON = ["-std=c++17", "-g", "-fopenmp", "-w", "-I" + INC]
EXPLORE = ["-O1", "-fPIE", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-mstringop-strategy=libcall",
           "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-tree-loop-distribute-patterns", "-fno-builtin-memcpy",
           "-fno-builtin-memset", "-fno-builtin-memmove", "-fno-builtin-memcmp", "-fno-builtin-strlen", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
NATIVE = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-DOMC_NATIVE=1"]

def run(cmd, timeout=None, **kw):
    """subprocess.run, but a time out ends the workers the process forked as well"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=timeout is not None, **kw)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait(); p.stdout.close()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out)

def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)

def build_runtime():
    os.makedirs(BUILD, exist_ok=True)
    src = b"".join(open(os.path.join(HERE, "omc", f), "rb").read() for f in ("rt.cpp", "omc.h", "native.cpp"))
    tag = hashlib.sha256(src).hexdigest()[:16]
    lib, nat = os.path.join(BUILD, "libomc-%s.so" % tag), os.path.join(BUILD, "native-%s.o" % tag)
    many = os.path.join(BUILD, "libomc-many-%s.so" % tag)
    if not os.path.exists(lib) or not os.path.exists(nat) or not os.path.exists(many):
        t = lib + ".%d" % os.getpid(); u = nat + ".%d" % os.getpid(); m = many + ".%d" % os.getpid()
        p = subprocess.Popen(["g++", "-std=c++17", "-O2", "-g", "-fopenmp", "-fsanitize=address", "-c", os.path.join(HERE, "omc/native.cpp"), "-o", u])
        rt = ["g++", "-std=c++17", "-O2", "-g", "-fPIC", "-shared", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-U_FORTIFY_SOURCE",
              "-fno-builtin-malloc", "-Wl,-Bsymbolic", "-Wl,-soname,libomc.so", os.path.join(HERE, "omc/rt.cpp"), "-ldl"]
        p2 = subprocess.Popen(rt + ["-DOMC_MANY", "-o", m])      # the same for teams of up to 300, canonical schedules only
        r = run(rt + ["-o", t])
        if p.wait() or p2.wait() or r.returncode: die("building the runtime failed\n" + r.stdout[-3000:])
        os.rename(u, nat); os.rename(m, many); os.rename(t, lib)
    return lib, nat

def build_harness(prop, work, lib, nat):
    srcs = sorted(glob.glob(os.path.join(HERE, "harness", prop + "*.cpp")))
    if not srcs: die("no harness for " + prop)
    srcs.append(os.path.join(HERE, "harness", "main.cpp"))
    jobs = []
    for s in srcs:
        b = os.path.basename(s)[:-4]
        flags, stdv, seq = [], None, False
        for line in open(s):
            if line.startswith("// FLAGS:"): flags = line[9:].split()
        seqf = [] if "-fno-openmp" not in flags else ["-fno-openmp"]
        for kind, fl in (("x", EXPLORE), ("n", NATIVE)):
            o = os.path.join(work, "%s.%s.o" % (b, kind))
            jobs.append((kind, o, ["g++"] + COMMON + fl + flags + ["-c", s, "-o", o]))
    running, todo, failed = [], list(jobs), None
    while todo or running:
        while todo and len(running) < 8:
            kind, o, cmd = todo.pop(0)
            log = open(o + ".log", "w")
            running.append((subprocess.Popen(cmd, stdout=log, stderr=log), o))
        for k, (p, o) in enumerate(running):
            rc = p.poll()
            if rc is not None:
                running.pop(k)
                if rc: failed = o
                break
        else: time.sleep(0.02)
        if failed:
            for p, o in running: p.kill(); p.wait()
            die("compiling the harness failed: " + open(failed + ".log").read()[:3000])
    xo = [j[1] for j in jobs if j[0] == "x"]; no = [j[1] for j in jobs if j[0] == "n"]
    x, n = os.path.join(work, "explore"), os.path.join(work, "native")
    shutil.copy(lib, os.path.join(work, "libomc.so"))
    os.makedirs(os.path.join(work, "many"), exist_ok=True)
    shutil.copy(os.path.join(os.path.dirname(lib), os.path.basename(lib).replace("libomc-", "libomc-many-")), os.path.join(work, "many", "libomc.so"))
    r = run(["g++", "-pie", "-Wl,-z,now"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-o", x] + xo + ["-L" + work, "-lomc", "-Wl,-rpath," + work])
    if r.returncode: die("linking the explored harness failed\n" + r.stdout[-3000:])
    r = run(["g++", "-fopenmp", "-fsanitize=address", "-o", n] + no + [nat])
    if r.returncode: die("linking the native harness failed\n" + r.stdout[-3000:])
    return x, n

def symbolize(exe, pc):
    if not pc or pc == "0x0": return ""
    r = run(["addr2line", "-Cfie", exe, hex(int(pc, 16) - 1)])
    l = [x for x in r.stdout.split("\n") if x]
    out = []
    for i in range(1, len(l), 2):
        f = l[i].split(" ")[0]
        if "/include/" in f or "harness" in f: out.append(os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f.split(":")[0]) + ":" + f.split(":")[-1])
    return " <- ".join(out[:4])

def load_known(prop):
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn): return []
    return [k for k in json.load(open(fn)).get("known", []) if k["property"] == prop]

def many_env(work): return dict(os.environ, LD_LIBRARY_PATH=os.path.join(work, "many"))

def explore(exe, work, tier, budget, extra=(), timeout=None, many=False):
    out = tempfile.mkdtemp(dir=work)
    try: r = run([exe, "--out", out, "--tier", tier, "--budget", str(budget), "--jobs", str(os.cpu_count() or 8)] + list(extra), timeout=timeout, env=many_env(work) if many else None)
    except subprocess.TimeoutExpired: return None, out, -9, ""
    tot = collections.Counter(); vios = []
    for f in glob.glob(os.path.join(out, "result.*.json")):
        try: d = json.load(open(f))
        except Exception as e: die("unreadable result %s: %s" % (f, e))
        vios += d.pop("violations"); d.pop("base", None); d.pop("wall", None)
        for k, v in d.items(): tot[k] += v
    return (tot, vios), out, r.returncode, r.stdout

def main():
    if len(sys.argv) < 2: die("usage: check.py <property> <quick|thorough>")
    if sys.argv[1] == "setup":
        build_runtime(); print("runtime built"); return 0
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lib, nat = build_runtime()
    work = tempfile.mkdtemp(prefix="omc-%s-" % prop, dir="/tmp")
    try:
        x, n = build_harness(prop, work, lib, nat)
        t_build = time.time() - t0
        if tier == "replay":
            d = json.load(open(sys.argv[3]))
            r = run([x, "--tier", d.get("tier", "quick"), "--replay", d["replay"]], env=many_env(work) if d.get("many") else None)
            print(r.stdout)
            return r.returncode
        return decide(prop, tier, t0, t_build, work, x, n)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, t0, t_build, work, x, n):
    quick = tier == "quick"
    budget = float(os.environ.get("OMC_BUDGET", 420 if quick else 2400))
    nat_budget = 60 if quick else 240
    res, out, rc, log = explore(x, work, tier, budget, timeout=budget * 1.5 + 120)
    if res is None: die("exploration exceeded its time limit")
    tot, vios = res
    for v in vios: v["many"] = False
    # the same cases (a selection) with teams of 70 and 300
    t_many = time.time()
    res2, outm, rcm, logm = explore(x, work, tier, 90 if quick else 300, timeout=400 if quick else 900, many=True)
    if res2 is None: die("exploration with large teams exceeded its time limit")
    many = res2[0]
    for v in res2[1]: v["many"] = True
    vios += res2[1]
    t_many = time.time() - t_many
    if os.environ.get("OMC_PROF"): print("  large teams: %d executions, %d capped, %.1f s" % (many["execs"], many["capped"], t_many)); log += logm.replace("PROF ", "PROF many:")
    if os.environ.get("OMC_PROF"):
        pr = collections.defaultdict(lambda: [0, 0])
        for l in log.split("\n"):
            if l.startswith("PROF "): _, s, t, e = l.split(); pr[s][0] += float(t); pr[s][1] += int(e)
        for s, (t, e) in sorted(pr.items(), key=lambda k: -k[1][0])[:25]: print("  %-50s %8.1f cpu s %10d executions" % (s, t, e))
    died = [l.split()[1:] + [False] for l in log.split("\n") if l.startswith("DIED ")]
    if rc > 1 and not died: die("explorer failed (%d): %s" % (rc, log[-2000:]))
    diedm = [l.split()[1:] + [True] for l in logm.split("\n") if l.startswith("DIED ")]
    if rcm > 1 and not diedm: die("explorer with large teams failed (%d): %s" % (rcm, logm[-2000:]))
    for suite, case, cfg, lt in died + diedm:     # a worker ended abnormally: decide that case alone, twice
        ends = []
        for _ in range(2):
            r2, o2, rc2, log2 = explore(x, work, tier, 120, ["--suite", suite, "--case", case, "--jobs", "1"], timeout=300, many=lt)
            if r2 is not None: 
                for v in r2[1]: v["many"] = lt
                if rc2 <= 1: vios += r2[1]
            ends.append(rc2)
        if all(e > 1 or e < 0 for e in ends):
            vios.append(dict(suite=suite, case=int(case), cfg=int(cfg), T=0, mode=0, bound=0, pattern=0, realchunk=0, faults=[], choices="", confirmed=True, pc="0x0", many=lt,
                             msg="the process running the code under test ended abnormally (%s)" % ends, desc=""))
        elif not any(v["suite"] == suite and v["case"] == int(case) for v in vios): die("worker died, not reproducible: " + log[-2000:])
    unconfirmed = [v for v in vios if not v["confirmed"]]
    vios = [v for v in vios if v["confirmed"]]
    if unconfirmed and not vios: die("violation not reproduced on replay: " + json.dumps(unconfirmed[0])[:2000])
    # conformance with the implementation running free
    explored = set()
    for f in glob.glob(os.path.join(out, "outcomes.*")):
        for l in open(f): explored.add(tuple(l.split()))
    keyed = set(e[:3] for e in explored)
    nat_rc, nlog = 0, ""
    nout = tempfile.mkdtemp(dir=work)
    try:
        r = run([n, "--out", nout, "--jobs", "4", "--tier", tier, "--budget", str(nat_budget), "--max", "4000" if quick else "40000"], timeout=nat_budget + (120 if not vios else 60),
                env=dict(os.environ, OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive"))
        nat_rc, nlog = r.returncode, r.stdout
    except subprocess.TimeoutExpired: nat_rc = -9
    nruns = validated = 0; mismatch = []; nfail = []
    for f in glob.glob(os.path.join(nout, "native.*")):
        for l in open(f, errors="replace"):
            p = l.rstrip("\n").split(" ", 4)
            if p[0] == "R" and len(p) > 1: nruns += int(p[1])
            elif p[0] == "F" and len(p) > 3: nfail.append((p[1], p[2], p[3], p[4] if len(p) > 4 else ""))
            elif p[0] == "O" and len(p) > 4:
                if tuple(p[1:5]) in explored: validated += 1
                elif tuple(p[1:4]) in keyed: mismatch.append(p[1:5])
    known = load_known(prop)
    def is_known(suite, msg, desc):
        for k in known:
            if k["suite"] == suite and any(c["input"] == desc and c["message"] in msg for c in k["cases"]): return k
        return None
    shown, new = {}, []
    for v in vios:
        k = is_known(v["suite"], v["msg"], v["desc"])
        if k: shown[k["id"]] = k
        else: new.append(v)
    nat_new = []
    for s, c, T, m in nfail:
        msg, _, desc = m.partition(" ;; ")
        k = is_known(s, msg, desc)
        if k: shown[k["id"]] = k
        else: nat_new.append((s, c, T, msg, desc))
    for k in shown.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep_dir = os.path.join(BUILD, "replay"); os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rep_dir, prop + ".*.json")): os.remove(f)
    seen = set(); shown_n = 0
    for v in sorted(new, key=lambda v: (v["suite"], v["case"], v["cfg"])):
        key = (v["suite"], v["msg"][:60])
        if key in seen and shown_n >= 3: continue
        seen.add(key); shown_n += 1
        if shown_n > 8: break
        rp = os.path.join(rep_dir, "%s.%d.json" % (prop, shown_n))
        d = dict(property=prop, tier=tier, many=v["many"], suite=v["suite"], case=v["case"], threads=v["T"], mode=["FULL", "BOUND", "POLICY"][v["mode"]], message=v["msg"], where=symbolize(x, v["pc"]), input=v["desc"],
                 replay="%s:%d:%d:%s:%s" % (v["suite"], v["case"], v["cfg"], ",".join(map(str, v["faults"])), v["choices"]),
                 how="python3 check.py %s replay %s" % (prop, rp))
        json.dump(d, open(rp, "w"), indent=1)
        print("  %s case %d T=%d %s: %s%s\n    input: %s" % (v["suite"], v["case"], v["T"], d["mode"], v["msg"], (" at " + d["where"]) if d["where"] else "", v["desc"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if not new and nat_new:
        rp = os.path.join(rep_dir, prop + ".native.json")
        json.dump(dict(property=prop, native=nat_new[:20]), open(rp, "w"), indent=1)
        for s, c, T, m, d in nat_new[:4]: print("  native %s case %s T=%s: %s\n    input: %s" % (s, c, T, m, d[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp)); new = nat_new
    if not new and nat_rc in (66, 134, 139, -6, -11) or (not new and nat_rc > 1):
        rp = os.path.join(rep_dir, prop + ".native.txt"); open(rp, "w").write(nlog)
        # reproduce alone before reporting
        ats = [l.split()[1:] for l in nlog.split("\n") if l.startswith("AT ")]
        rep = False
        for s, c in ats:
            for _ in range(3):
                o3 = tempfile.mkdtemp(dir=work)
                r3 = run([n, "--out", o3, "--jobs", "1", "--tier", tier, "--budget", "60", "--suite", s, "--case", c, "--max", "100000000"], timeout=120)
                if r3.returncode > 1: rep = True; nlog += r3.stdout
            if rep: print("  native run of %s case %s ends abnormally" % (s, c)); break
        print("\n".join([l for l in nlog.split("\n") if l.strip()][:40]))
        if rep:
            open(rp, "w").write(nlog)
            print("VIOLATION property=%s replay=%s" % (prop, rp)); new = [1]
        else: die("native run failed (%d), not reproducible" % nat_rc)
    if not new and nat_rc == -9: die("native run exceeded its time limit")
    if not new and mismatch: die("conformance: native outcomes the explorer did not find: %s" % mismatch[:5])
    if not new and tot["execs"] == 0: die("nothing was explored")
    samples = []
    r = run([x, "--list"]); suites = [l.split() for l in r.stdout.strip().split("\n") if l]
    for s, c in suites[:12]:
        if int(c) == 0: continue
        try: rr = run([x, "--tier", tier, "--replay", "%s:%d:0::" % (s, int(c) * 2 // 3)], timeout=60)
        except subprocess.TimeoutExpired: continue
        first = [l for l in rr.stdout.split("\n") if l.strip()]
        if first: samples.append("%s[%s cases] e.g. %s" % (s, c, first[0][:300]))
    for k in many:
        if k not in ("cases", "replays", "divergence_checks"): tot[k] += many[k]
    states = tot["states"] + tot["outcomes"] + tot["step_states"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(states=states, transitions=tot["transitions"] + tot["steps"], traces_validated_against_impl=validated + tot["divergence_checks"],
            samples=samples or ["-"], evaluations=tot["execs"], distinct_nontrivial=tot["outcomes"],
            rule="evaluations: executions of a harness body (one schedule, or schedule prefix cut by state or sleep set matching); distinct_nontrivial: distinct (case, team size, final result) triples; states: distinct states at barriers and ends of parallel regions + final results + states of the reference model; transitions: visible operations executed by the explorer + steps of the reference model",
            cases=tot["cases"], items=tot["items"], complete_executions=tot["complete"], pruned_by_state=tot["pruned"], pruned_by_sleep_set=tot["sleepcut"],
            schedule_points=tot["nodes"], accesses_checked=tot["accesses"], items_with_several_outcomes=tot["multi"], injected_faults=tot["faults"],
            replay_determinism_runs=tot["divergence_checks"], prefix_choices_replayed=tot["replays"], native_runs=nruns, native_runs_in_explored_set=validated,
            large_teams=dict(teams=[70, 300], cases=many["cases"], executions=many["execs"], transitions=many["transitions"], capped=many["capped"], wall_s=round(t_many, 1)),
            capped_items=tot["capped"], exhaustive=tot["capped"] == 0, suites={s: int(c) for s, c in suites}, build_s=round(t_build, 1)),
        assumptions=["sequentially consistent interleavings at synchronisation operations; data races are reported separately, so this is complete for race-free executions",
            "chunk sizes of dynamic and guided loops are set to 1 in exhaustive modes and kept in the schedule-policy mode",
            "libc calls behave as modelled by the runtime's wrappers (real files, injected failures)"],
        wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d executions, %d states, %d transitions, %d native runs (%d validated), %d capped, build %.0fs, total %.0fs" % (prop, tier, tot["cases"], tot["execs"], states, tot["transitions"] + tot["steps"], nruns, validated, tot["capped"], t_build, time.time() - t0))
    return 1 if new else 0

if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
