#!/usr/bin/env python3
"""Runs the check of one property: builds the library from the working tree of /repo together with the
monitors in mon/, runs the case generators in worker processes, judges what the monitors report, and writes
evidence/<property>.json.

  run.py C01            quick (VERIF_TIER=quick) or thorough (VERIF_TIER=thorough)
  run.py --replay FILE  re-runs one recorded violation
  run.py --warm         builds every object the checks need
Exit: 0 held, 1 violated (VIOLATION line), 2 no answer (build failure or nothing observed)."""
import sys, os, json, re, subprocess, hashlib, time, shutil, tempfile, fcntl, threading, queue, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
MON = os.path.join(VERIF, "mon")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
JOBS = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVOURS  # noqa: E402

INC = ["-I", REPO + "/delynoi/include", "-I", REPO + "/delynoi/src", "-I", REPO + "/lib/utilities/include"]
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:max_allocation_size_mb=2500:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_string_checks=1:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=98:halt_on_error=1")


class NoAnswer(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def walk(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def lib_sources():
    """(path, is_c): the sources the repository's own build takes."""
    src = [(p, False) for p in walk(REPO + "/delynoi", (".cpp", ".cc", ".cxx")) + walk(REPO + "/lib/utilities", (".cpp", ".cc", ".cxx"))]
    src += [(p, True) for p in walk(REPO + "/delynoi", (".c",)) + walk(REPO + "/lib/utilities", (".c",))]
    return [(p, c) for p, c in src if "showme" not in p]


def header_hash():
    h = []
    for p in walk(REPO + "/delynoi", (".h", ".hpp", ".hh", ".inl", ".ipp", ".tpp")) + walk(REPO + "/lib", (".h", ".hpp", ".hh", ".inl", ".ipp", ".tpp")):
        h.append(p[len(REPO):])
        h.append(read(p))
    # sources that are themselves #included
    for p, _ in lib_sources():
        for m in re.findall(rb'#\s*include\s*[<"]([^">]*\.c(?:pp|c|xx)?)[">]', read(p)):
            name = os.path.basename(m.decode())
            for q, _ in lib_sources():
                if os.path.basename(q) == name:
                    h.append(read(q))
    return sha(*h)


def compile_objects(jobs):
    """jobs: list of (obj, cmd). Runs those whose object is missing; raises NoAnswer on failure."""
    todo = [(o, c) for o, c in jobs if not os.path.exists(o)]
    todo.sort(key=lambda oc: 0 if re.search(r"triangle\.c$|clipper\.cpp$", oc[1][-3]) else 1)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    errs = []

    def work():
        while not errs:
            try:
                o, c = q.get_nowait()
            except queue.Empty:
                return
            os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp = o + ".%d.tmp.o" % os.getpid()
            c = c[:-1] + [tmp]
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if r.returncode:
                errs.append((c, r.stdout.decode(errors="replace")))
                return
            os.rename(tmp, o)
    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise NoAnswer("compilation failed: %s\n%s" % (" ".join(errs[0][0]), errs[0][1][-3000:]))


def build(flavour, tus):
    fl = FLAVOURS[flavour]
    cxx, cc, flags = fl["cxx"], fl["cc"], fl["flags"]
    ver = subprocess.run([cxx, "--version"], stdout=subprocess.PIPE).stdout
    hh = header_hash()
    mh = sha(*[read(p) for p in walk(MON, (".h",))])
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs, libobjs, monobjs = [], [], []
    for p, is_c in lib_sources():
        key = sha(read(p), hh, ver, flags, REPO if REPO != "/repo" else "")
        o = os.path.join(d, os.path.basename(p) + "." + key + ".o")
        cmd = ([cc] + flags + ["-w", "-DTRILIBRARY", "-DANSI_DECLARATORS"] if is_c else [cxx, "-std=gnu++11", "-w"] + flags) + INC + ["-c", p, "-o", o]
        jobs.append((o, cmd))
        libobjs.append(o)
    for t in ["main.cpp", "geom.cpp", "gen.cpp", "lib.cpp"] + tus:
        p = os.path.join(MON, t)
        key = sha(read(p), mh, hh, ver, flags, REPO if REPO != "/repo" else "")
        o = os.path.join(d, "mon_" + t + "." + key + ".o")
        jobs.append((o, [cxx, "-std=gnu++17", "-w"] + flags + INC + ["-I", MON, "-c", p, "-o", o]))
        monobjs.append(o)
    # old objects of the same sources
    keep = set(o for o, _ in jobs)
    names = set(os.path.basename(o).rsplit(".", 2)[0] for o in keep)
    for f in os.listdir(d):
        if f.endswith(".o") and os.path.join(d, f) not in keep and f.rsplit(".", 2)[0] in names:
            os.unlink(os.path.join(d, f))
    compile_objects(jobs)
    exe = os.path.join(d, "run_" + sha(*(sorted(libobjs) + monobjs)))
    if not os.path.exists(exe):
        for f in os.listdir(d):
            if f.startswith("run_") and time.time() - os.path.getmtime(os.path.join(d, f)) > 1800:
                os.unlink(os.path.join(d, f))
        r = subprocess.run([cxx] + flags + ["-o", exe + ".tmp"] + monobjs + libobjs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise NoAnswer("link failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        os.rename(exe + ".tmp", exe)
    lock.close()
    return exe


def worker(exe, suite, seed, a, b, scratch, tag, thorough, cpu, valgrind=False, verbose=False, mem=3000, wall=0):
    """-> (status, report or None, idx, stderr tail). status: ok crash hang exit error"""
    home = os.path.join(scratch, "home_" + tag)
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    out, prog, errf = (os.path.join(scratch, tag + e) for e in (".json", ".prog", ".err"))
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, "--suite", suite, "--seed", str(seed), "--from", str(a), "--to", str(b), "--out", out, "--progress", prog, "--cpu", str(cpu), "--mem", "0" if valgrind else str(mem)]
    if thorough:
        cmd.append("--thorough")
    if wall:
        cmd += ["--wall", str(int(wall))]
    if verbose:
        cmd.append("--verbose")
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no", "--track-origins=no"] + cmd
    env = dict(ENV, HOME=home)
    with open(errf, "wb") as ef:
        try:
            rc = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else ef, env=env, cwd=home, timeout=wall + 240 if wall else 3600).returncode
        except subprocess.TimeoutExpired:
            rc = 95
    shutil.rmtree(home, ignore_errors=True)
    tail = ""
    if not verbose:
        raw = read(errf).decode(errors="replace")
        m = re.search(r"(runtime error:|ERROR: AddressSanitizer|==\d+== (?:Invalid|Conditional|Use of|Syscall|Jump|Process)|Assertion|Error: |terminate called)", raw)
        tail = raw[max(0, m.start() - 200):m.start() + 1800] if m else raw[-1200:]
    idx = -1
    try:
        idx = int.from_bytes(read(prog)[:8], "little", signed=True)
    except Exception:
        pass
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            rep = json.load(f)
        os.unlink(out)
        return "ok", rep, -1, tail
    if rc == 97 or rc == -signal.SIGPROF:
        return "hang", None, idx, tail
    if rc == 96:
        return "exit", None, idx, tail
    if rc == 95 or rc == -signal.SIGKILL:
        return "error", None, idx, "rc=%d %s" % (rc, tail)
    return "crash", None, idx, "rc=%d %s" % (rc, tail)


def crash_key(status, tail):
    if status != "crash":
        return status
    m = re.search(r"AddressSanitizer: ([\w-]+)", tail)
    if m:
        return "crash:asan:" + m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,60})", tail)
    if m:
        return "crash:ubsan:" + re.sub(r"[^a-z ]", "", m.group(1).lower()).strip().replace(" ", "-")[:40]
    m = re.search(r"==\d+== (Invalid|Conditional|Use of|Syscall|Jump)", tail)
    if m:
        return "crash:valgrind:" + m.group(1).split()[0].lower()
    return "crash:signal"


def run_suite(exe, run, tier, seed, scratch, t0, label):
    suite, thorough = run["suite"], tier == "thorough"
    n = run["thorough"] if thorough else run["quick"]
    valgrind = run.get("valgrind", False)
    cpu = run.get("cpu", 15) * (6 if valgrind else 1)
    chunk = run.get("chunk") or max(1, min(run.get("maxchunk", 4000), (n + 8 * 4 - 1) // (8 * 4)))
    q = queue.Queue()
    start = run.get("from", 0)
    for k in range(start, start + n, chunk):
        q.put((k, min(start + n, k + chunk)))
    agg = dict(ran=0, evaluations=0, nontrivial=0, skipped=0, violations=0, counters={}, distinct=set(), samples=[], viols=[], inconclusive=[])
    lock = threading.Lock()
    stop = []
    hangs = []
    budget = 3000 if thorough else 480          # seconds since the start of the check

    def merge(rep):
        with lock:
            for k in ("ran", "evaluations", "nontrivial", "skipped", "violations"):
                agg[k] += rep[k]
            for k, v in rep["counters"].items():
                agg["counters"][k] = max(agg["counters"].get(k, 0), v) if k.startswith("max_") else agg["counters"].get(k, 0) + v
            agg["distinct"].update(rep["distinct"])
            if len(agg["samples"]) < 4:
                agg["samples"] += rep["samples"][:2]
            agg["viols"] += rep["viols"]

    def work(w):
        while not stop:
            if time.time() - t0 > budget:
                with lock:
                    agg["truncated"] = True
                return
            try:
                a, b = q.get_nowait()
            except queue.Empty:
                return
            while a < b and not stop:
                tag = "%s_%s_%d" % (label, suite, w)
                st, rep, idx, tail = worker(exe, suite, seed, a, b, scratch, tag, thorough, cpu, valgrind, wall=max(1, budget - (time.time() - t0)))
                if st == "ok":
                    merge(rep)
                    if rep["ran"] < b - a and not rep["viols"]:
                        with lock:
                            agg["truncated"] = True
                    break
                if st == "error" or idx < a or idx >= b:
                    with lock:
                        agg["inconclusive"].append("%s [%d,%d): %s %s" % (suite, a, b, st, tail[-600:]))
                        if len(agg["inconclusive"]) > 6:
                            stop.append(1)
                    break
                # the part before the failing case, then the failing case again
                if idx > a:
                    s2, r2, i2, _ = worker(exe, suite, seed, a, idx, scratch, tag, thorough, cpu, valgrind)
                    if s2 == "ok":
                        merge(r2)
                s3, r3, i3, t3 = worker(exe, suite, seed, idx, idx + 1, scratch, tag, thorough, cpu * 2 if st == "hang" else cpu, valgrind)
                if s3 == "ok":
                    merge(r3)
                    if not r3["viols"]:
                        s3, r3, i3, t3 = worker(exe, suite, seed, a, idx + 1, scratch, tag, thorough, cpu, valgrind)
                with lock:
                    if s3 == st or (s3 not in ("ok", "error")):
                        agg["violations"] += 1
                        agg["ran"] += 1
                        agg["viols"].append(dict(idx=idx, key=crash_key(s3, t3), msg="the library %s while running this case: %s" % ({"crash": "crashed or tripped a sanitizer", "hang": "did not finish", "exit": "ended the process"}[s3], t3[-1500:]), desc="(case %d of suite %s, seed %d; replay to see the input)" % (idx, suite, seed)))
                    elif s3 != "ok":
                        agg["inconclusive"].append("%s case %d: %s then %s" % (suite, idx, st, s3))
                    elif not r3["viols"]:
                        agg["inconclusive"].append("%s case %d: %s, not reproduced" % (suite, idx, st))
                    if s3 == "hang":
                        hangs.append(1)
                    if len(agg["viols"]) > 200 or len(hangs) >= 3:
                        stop.append(1)
                a = idx + 1

    ts = [threading.Thread(target=work, args=(w,)) for w in range(run.get("jobs", JOBS))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return agg


def known():
    """known: property=<id> suite=<suite> case=<index> key=<key> <what>"""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) suite=(\S+) case=(\d+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(dict(property=m.group(1), suite=m.group(2), case=int(m.group(3)), key=m.group(4), what=m.group(5)))
    return res


def run_check(prop):
    t0 = time.time()
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7fffffffffffffff
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    evf = os.path.join(ev, prop + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    for f in os.listdir(os.path.join(ev, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(ev, "replay", f))
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run_check2(prop, chk, tier, seed, ev, evf, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check2(prop, chk, tier, seed, ev, evf, scratch, t0):
    tot = dict(ran=0, evaluations=0, nontrivial=0, skipped=0, counters={}, distinct=0, samples=[], suites={})
    viols, inconclusive, build_s, kf = [], [], 0.0, known()
    knownhit = []
    wanted = {}
    for run in chk["runs"]:
        if run["thorough"] if tier == "thorough" else run["quick"]:
            wanted.setdefault(run["flavour"], set()).update(run.get("tus", chk["tus"]))
    tb = time.time()
    exes = {fl: build(fl, sorted(t)) for fl, t in wanted.items()}
    build_s += time.time() - tb
    for k, run in enumerate(chk["runs"]):
        if not (run["thorough"] if tier == "thorough" else run["quick"]):
            continue
        exe = exes[run["flavour"]]
        ts = time.time()
        a = run_suite(exe, run, tier, seed, scratch, t0, "r%d" % k)
        name = run["suite"] + "/" + run["flavour"] + ("/valgrind" if run.get("valgrind") else "")
        tot["suites"][name] = dict(cases=a["ran"], oracle_evaluations=a["evaluations"], nontrivial=a["nontrivial"], distinct=len(a["distinct"]), skipped=a["skipped"], run_s=round(time.time() - ts, 2))
        for f in ("ran", "evaluations", "nontrivial", "skipped"):
            tot[f] += a[f]
        if run.get("count_distinct", True):
            tot["distinct"] += len(a["distinct"])
        for c, v in a["counters"].items():
            tot["counters"][c] = max(tot["counters"].get(c, 0), v) if c.startswith("max_") else tot["counters"].get(c, 0) + v
        tot["samples"] += a["samples"][:3]
        inconclusive += a["inconclusive"]
        for v in a["viols"]:
            if run.get("only_crashes") and not v["key"].startswith(("crash", "hang", "exit")):
                tot["counters"]["judged_by_other_checks"] = tot["counters"].get("judged_by_other_checks", 0) + 1
                continue
            hit = [x for x in kf if x["property"] == prop and x["suite"] == run["suite"] and x["case"] == v["idx"] and x["key"] == v["key"]]
            if hit:
                if hit[0] not in knownhit:
                    knownhit.append(hit[0])
            else:
                viols.append((run, v))
        if a["ran"] and a["nontrivial"] < run.get("floor", 1) and not a["viols"]:
            inconclusive.append("suite %s observed too little: %d non-trivial cases, floor %d" % (name, a["nontrivial"], run.get("floor", 1)))
        if a.get("truncated"):
            tot["suites"][name]["stopped_at_time_limit"] = True
        if len(viols) > 100:
            break
    for h in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, h["what"]))
    # one replay file per distinct key, at most 6
    seen = {}
    for run, v in viols:
        seen.setdefault((run["suite"], run["flavour"], v["key"]), []).append((run, v))
    lines = []
    for (suite, flavour, key), vs in list(seen.items())[:6]:
        run, v = vs[0]
        rp = os.path.join(ev, "replay", "%s-%s-%d.json" % (prop, suite, v["idx"]))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, suite=suite, flavour=flavour, valgrind=bool(run.get("valgrind")), tus=run.get("tus", chk["tus"]), seed=seed, case=v["idx"], tier=tier, key=key, message=v["msg"], input=v["desc"]), f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  suite=%s case=%d key=%s (%d such)\n    %s\n    input: %s" % (suite, v["idx"], key, len(vs), v["msg"][:1200], v["desc"][:1500]))
    cov = dict(evaluations=tot["ran"], distinct_nontrivial=tot["distinct"], rule=chk["rule"], samples=tot["samples"][:8] or ["(none recorded)"],
               oracle_evaluations=tot["evaluations"], skipped_cases=tot["skipped"], observed=dict(sorted(tot["counters"].items())), suites=tot["suites"],
               build_s=round(build_s, 1), inconclusive=inconclusive[:10], known_findings_seen=[h["what"] for h in knownhit])
    with open(evf, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols)), f, indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d oracle evaluations, build %.1fs, total %.1fs" % (prop, tier, seed, tot["ran"], tot["distinct"], tot["evaluations"], build_s, time.time() - t0))
    if lines:
        for l in lines:
            print(l)
        return 1
    if inconclusive:
        print("NO ANSWER: " + "; ".join(inconclusive[:5]))
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    exe = build(r["flavour"], r["tus"])
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        st, rep, idx, tail = worker(exe, r["suite"], r["seed"], r["case"], r["case"] + 1, scratch, "replay", r["tier"] == "thorough", 60, r.get("valgrind", False), verbose=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    bad = st != "ok" or rep["violations"]
    print("replay: %s%s" % (st, " - violation reproduced" if bad else " - no violation"))
    if bad:
        print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(path)))
    return 1 if bad else 0


def warm():
    for fl in FLAVOURS:
        tus = []
        for p, c in CHECKS.items():
            for run in c["runs"]:
                if run["flavour"] == fl and run["quick"]:
                    tus += [t for t in run.get("tus", c["tus"]) if t not in tus]
        if tus:
            build(fl, tus)
    return 0


def main():
    try:
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        if sys.argv[1:] == ["--warm"]:
            return warm()
        if len(sys.argv) == 2 and sys.argv[1] in CHECKS:
            return run_check(sys.argv[1])
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
