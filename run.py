#!/usr/bin/env python3
"""Build and run the monitors of one property against /repo's working tree.

  run.py P10                      one check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py P10 --replay FILE        run the single case a replay file names
  run.py --setup                  build the parts that do not depend on /repo

Exit 0: held on everything explored (known findings are printed, and do not count).
Exit 1: a VIOLATION line was printed.  Exit 2: the machinery itself failed.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NPROC = min(8, os.cpu_count() or 4)

CXX = "g++"     # what the project builds with
UB = "signed-integer-overflow,integer-divide-by-zero,shift,bounds,return,unreachable,bool,float-cast-overflow,vla-bound"
COMMON = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN"]
MODES = {
    # address + undefined behaviour sanitizers, Eigen and libc assertions on,
    # fresh Eigen storage filled with NaN so that a read of it shows in the result
    "asan": COMMON + ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address," + UB, "-fno-sanitize-recover=all"],
    "tsan": COMMON + ["-O1", "-fsanitize=thread", "-DMON_KEEP_EIGEN_ASSERT", "-DMON_NO_ENTROPY"],
    # no sanitizer: for valgrind memcheck (real uninitialised memory, not NaN)
    "plain": ["-std=c++17", "-g", "-w", "-O1", "-fno-omit-frame-pointer", "-DMON_KEEP_EIGEN_ASSERT"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=0:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:allocator_may_return_null=0:malloc_fill_byte=165:max_malloc_fill_size=4096:strict_init_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_thread_leaks=0",
    "LC_ALL": "C.UTF-8",
})

sys.path.insert(0, VERIF)
import props  # noqa: E402


class Machinery(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_digest():
    parts = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            parts += [os.path.relpath(p, REPO), read(p)]
    return sha(*parts)


def compile_one(src, mode, digest):
    """-> object path; content-addressed, so a stale object is never used."""
    flags = MODES[mode]
    hdrs = sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))
    key = sha(CXX, " ".join(flags), read(src), *[read(h) for h in hdrs], digest)
    obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + mode + "-" + key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [CXX] + flags + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Machinery("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[:6000]))
    # keep the cache small: drop older objects of the same source and mode
    for old in glob.glob(os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + mode + "-*.o")):
        if old != obj:
            try:
                os.unlink(old)
            except OSError:
                pass
    os.replace(tmp, obj)
    return obj


def eig_sources():
    return sorted(glob.glob(os.path.join(VERIF, "harness", "eig_*.cpp")))


def build(pid, mode, srcs, use_eig):
    os.makedirs(BUILD, exist_ok=True)
    digest = repo_digest()
    mon = os.path.join(VERIF, "harness", "mon.cpp")
    jobs = [(s, digest) for s in srcs] + [(mon, "static")]
    if use_eig:
        jobs = [(s, "static") for s in eig_sources()] + jobs
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], mode, j[1]), jobs))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (pid, mode, sha(*objs)))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (pid, mode))):
            try:
                os.unlink(old)
            except OSError:
                pass
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + MODES[mode] + objs + ["-o", tmp, "-lpthread"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Machinery("link failed\n" + r.stdout[:6000])
        os.replace(tmp, exe)
    return exe


def classify(err):
    """A short, line-number-free name for a crash report."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    kind = "asan-" + m.group(1) if m else None
    if not kind:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:70].strip().replace(" ", "_")
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        kind = "tsan-" + m.group(1).strip().replace(" ", "-") if m else None
    if not kind:
        m = re.search(r"Assertion [`'](.*?)' failed", err)
        kind = "assert-" + m.group(1)[:60].replace(" ", "_") if m else None
    if not kind:
        m = re.search(r"terminate called.*?instance of '([^']*)'", err, re.S)
        kind = "terminate-" + m.group(1) if m else None
    if not kind:
        m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched|Syscall param|Source and dest)", err)
        kind = "valgrind-" + m.group(1).replace(" ", "-") if m else None
    fn = ""
    if kind and kind.startswith("valgrind"):
        m = re.search(r"(?:at|by) 0x[0-9A-F]+: (openml::.*?) \(\w+\.hpp", err) or re.search(r"(?:at|by) 0x[0-9A-F]+: (.*?openml::.*?) \(\w+\.hpp", err)
        if m:
            fn = re.sub(r"<.*|\(.*", "", m.group(1).split("openml::")[-1]).split("::")[-1]
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+)", err):
        if "/repo/" in m.group(2) or REPO + "/" in m.group(2):
            fn = re.sub(r"<.*|\(.*", "", m.group(1)).split("::")[-1]
            break
    return (kind or "abnormal-exit") + ("@" + fn if fn else "")


def tail(p):
    with open(p, "rb") as f:
        return f.read(400000).decode("utf8", "replace")


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            a = f.read().rsplit(")", 1)[1].split()
        return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def watched(cmd, stat, errf, work, cpu, deadline):
    """Run cmd.  -> exit status; 77 when one case (see the status file) burns far more
    CPU time than allowed without its own alarm firing, or blocks for ten minutes;
    "deadline" when the whole check is out of time."""
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=work)
    last, c0, w0 = None, 0.0, time.time()
    while True:
        try:
            return p.wait(timeout=0.5 if last is None else 3)
        except subprocess.TimeoutExpired:
            pass
        st = read(stat)[:160] if os.path.exists(stat) else b""
        now = time.time()
        if st != last:
            last, c0, w0 = st, cpu_of(p.pid), now
        if deadline and now > deadline:
            p.kill(); p.wait()
            return "deadline"
        if cpu_of(p.pid) - c0 > 1.5 * cpu + 10 or now - w0 > 600:
            p.kill(); p.wait()
            return 77


def run_shard(exe, args, work, shard, nshard, wrapper, cpu, deadline):
    """Run one shard to its end, resuming after every crash.  -> (records, incidents, stderr, out of time)"""
    all_err, hangs = "", 0
    res = os.path.join(work, "r%s" % shard)
    stat = os.path.join(work, "s%s" % shard)
    incidents, start, restarts = [], 0, 0
    while True:
        if os.path.exists(stat):
            os.unlink(stat)
        errf = os.path.join(work, "e%s" % shard)
        rc = watched(wrapper + [exe, "--result", res, "--status", stat, "--shard", str(shard), "--nshard", str(nshard),
                                "--from", str(start), "--cpu", str(cpu)] + args, stat, errf, work, cpu, deadline)
        if rc == "deadline":
            return res, incidents, all_err + tail(errf), True
        st = read(stat).decode("latin1") if os.path.exists(stat) else ""
        line = st[:160].strip()
        err = tail(errf)
        all_err += err
        if rc == 0:
            return res, incidents, all_err, False
        if not line or not re.match(r"\d+ \S+ \d+", line):
            if line == "DONE":
                # sanitizer reports collected while running (tsan): caller looks at err
                return res, incidents, all_err, False
            raise Machinery("harness ended with %s before its first case\n%s" % (rc, err[-3000:]))
        pos, sc, i = line.split()
        if rc == 77:
            hangs += 1
            incidents.append((sc, int(i), "hang", "CPU time limit of %d s exceeded" % cpu, err))
        else:
            incidents.append((sc, int(i), classify(err), "process ended with status %s" % rc, err))
        start = int(pos) + 1
        restarts += 1
        if restarts >= 25 or hangs >= 2:
            return res, incidents, all_err, False


def known_findings(pid):
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                ks.append((m.group(2), m.group(3)))
    return ks


def check(pid, tier, seed, extra=None, verbose=True):
    t0 = time.time()
    deadline = t0 + (7200 if tier == "thorough" else 700)
    cfg = props.CHECKS[pid]
    thorough = tier == "thorough"
    args = ["--seed", str(seed)] + (["--thorough"] if thorough else [])
    violations, evals, hashes, samples, events = [], 0, set(), [], {}
    perscen, notes = {}, []
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        for part in cfg["parts"]:
            if part.get("thorough_only") and not thorough:
                continue
            mode = part.get("mode", "asan")
            srcs = []
            for g in part["src"]:
                srcs += sorted(glob.glob(os.path.join(VERIF, "harness", g)))
            if not srcs:
                raise Machinery("no source for " + str(part["src"]))
            tb = time.time()
            exe = build(pid + part.get("tag", ""), mode, srcs, part.get("eig", False))
            notes.append("%s build %.1fs" % (mode, time.time() - tb))
            wrapper, pargs = [], list(args)
            if part.get("valgrind"):
                wrapper = ["valgrind", "--quiet", "--error-exitcode=66", "--exit-on-first-error=yes", "--track-origins=no",
                           "--undef-value-errors=yes", "--leak-check=no"]
            sc = part.get("scale_thorough" if thorough else "scale_quick")
            if sc is not None:
                pargs += ["--scale", str(sc)]
            cpu = part.get("cpu", 200 if part.get("valgrind") else 20)
            n = NPROC
            sub = os.path.join(work, mode + part.get("tag", ""))
            os.makedirs(sub)
            with cf.ThreadPoolExecutor(n) as ex:
                outs = list(ex.map(lambda k: run_shard(exe, pargs, sub, k, n, wrapper, cpu, deadline), range(n)))
            for res, incidents, err, late in outs:
                if late:
                    notes.append("out of time: a shard of %s was cut short" % part["src"][0])
                for l in open(res, errors="replace") if os.path.exists(res) else []:
                    try:
                        j = json.loads(l)
                    except ValueError:
                        continue
                    if j["t"] == "c":
                        evals += 1
                        perscen[j["s"]] = perscen.get(j["s"], 0) + 1
                        if j["nt"]:
                            hashes.add(j["h"])
                        if "d" in j and len(samples) < 12:
                            samples.append(j["d"])
                    elif j["t"] == "ev":
                        events[j["n"]] = events.get(j["n"], 0) + j["k"]
                    elif j["t"] == "v":
                        violations.append((j["s"] + ":" + j["key"], j["s"], j["i"], j["msg"], j["d"], mode, exe, pargs))
                for s, i, key, msg, etext in incidents:
                    evals += 1
                    if key == "hang":
                        if any(v[0].endswith(":hang") for v in violations):
                            continue
                        # inconclusive once; a case that again burns many times its usual CPU time is a hang
                        r = run_single(exe, pargs, sub, s, i, wrapper, cpu * 2)
                        if r != 77:
                            notes.append("case %s#%d exceeded its CPU limit once, not again: inconclusive" % (s, i))
                            continue
                    violations.append((s + ":" + key, s, i, msg, etext[-5000:], mode, exe, pargs))
                if mode == "tsan" and "WARNING: ThreadSanitizer" in err:
                    for blk in err.split("=================="):
                        if "WARNING: ThreadSanitizer" in blk:
                            violations.append(("race:" + classify(blk), "race", 0, "ThreadSanitizer report", blk[:5000], mode, exe, pargs))
        if not violations and (evals == 0 or not hashes):
            raise Machinery("nothing was observed (evaluations=%d, distinct=%d)" % (evals, len(hashes)))
        # a scenario that observed nothing is a defect of the machinery
        kn = known_findings(pid)
        seen_known, new, byk = {}, [], {}
        for v in violations:
            hit = next((k for k in kn if k[0] == v[0]), None)
            if hit:
                seen_known.setdefault(hit, 0)
                seen_known[hit] += 1
            else:
                byk.setdefault(v[0], []).append(v)
        for k, d in kn:
            print("KNOWN-FINDING: property=%s %s %s (%d of this run's cases)" % (pid, k, d, seen_known.get((k, d), 0)))
        replays = []
        if byk:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for n, (k, vs) in enumerate(sorted(byk.items())):
                key, s, i, msg, d, mode, exe, pargs = vs[0]
                p = os.path.join(rd, "%s-%s.txt" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:80]))
                with open(p, "w") as f:
                    f.write("property: %s\nkey: %s\nscenario: %s\ncase: %d\nseed: %d\ntier: %s\nmode: %s\n" % (pid, key, s, i, seed, tier, mode))
                    f.write("replay: python3 /verif/run.py %s --replay %s\n" % (pid, p))
                    f.write("cases with this key in this run: %d\n\nmessage: %s\n\nobserved:\n%s\n" % (len(vs), msg, d))
                print("VIOLATION property=%s replay=%s" % (pid, p))
                if verbose:
                    print("  [%s] %d case(s), first %s#%d: %s" % (key, len(vs), s, i, msg[:400]))
        cov = {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"],
            "samples": samples or ["(no sample)"],
            "cases_per_scenario": perscen,
            "observed_events": dict(sorted(events.items())),
        }
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
            "coverage": cov, "assumptions": cfg.get("assumptions", []) + props.ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2), "violations": len(byk),
            "build": notes,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation key(s), %.1fs (%s)" %
              (pid, tier, seed, evals, len(hashes), len(byk), time.time() - t0, "; ".join(notes)))
        return 1 if byk else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_single(exe, args, work, s, i, wrapper, cpu):
    return watched(wrapper + [exe, "--result", os.path.join(work, "one"), "--status", os.path.join(work, "ones"), "--only",
                              "%s#%d" % (s, i), "--cpu", str(cpu)] + args, os.path.join(work, "ones"), os.path.join(work, "onee"), work, cpu, None)


def replay(pid, path):
    t = open(path).read()
    g = lambda k: re.search(r"^%s: (.*)$" % k, t, re.M).group(1)
    mode = g("mode")
    for part in props.CHECKS[pid]["parts"]:
        if part.get("mode", "asan") != mode:
            continue
        srcs = sum([sorted(glob.glob(os.path.join(VERIF, "harness", x))) for x in part["src"]], [])
        exe = build(pid + part.get("tag", ""), mode, srcs, part.get("eig", False))
        args = ["--seed", g("seed"), "--only", "%s#%s" % (g("scenario"), g("case"))]
        if g("tier") == "thorough":
            args.append("--thorough")
        os.execvpe(exe, [exe] + args, ENV)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        srcs = [os.path.join(VERIF, "harness", "mon.cpp")] + eig_sources()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: compile_one(j[0], j[1], "static"), [(s, m) for s in srcs for m in sorted(props.MODES_USED)]))
        print("setup done")
        return 0
    pid = a[0]
    if "--replay" in a:
        return replay(pid, a[a.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    if "--quick" in a:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        return check(pid, tier, seed)
    except Machinery as e:
        print("MACHINERY %s: %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
