#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: verify the contracts of one property on /repo's current tree.

Exit 0: every obligation of every contract of the property was discharged (or the failure is a listed known finding).
Exit 1: a line VIOLATION property=<id> replay=<path>[ no-failing-input-found].
"""
import sys, os, json, time, importlib, multiprocessing as mp, subprocess, tempfile, shutil, signal, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "irvc"), os.path.join(HERE, "props")]
sys.setrecursionlimit(20000)
REPO = os.environ.get("IRVC_REPO", "/repo")
EVID = os.environ.get("IRVC_EVIDENCE", os.path.join(HERE, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
import registry

TOTAL = 780          # hard wall-clock limit of one check


def summarize(R, tot, ok, tm, vac):
    return {
        "contract": R.name, "function": R.fn, "error": R.error, "obligations": tot, "discharged": ok, "solver_s": round(tm, 3), "wall_s": round(R.wall, 2),
        "outcomes": R.outcomes, "normal_paths": R.normal, "loops": R.loops, "vacuity": vac, "bounded": R.bounded,
        "backends": {b: sum(1 for o in R.obligs if o.status == "proved" and (o.backend or "z3") == b) for b in {(o.backend or "z3") for o in R.obligs if o.status == "proved"}},
        "failed": [{"name": o.name, "kind": o.kind, "loc": o.loc, "status": o.status, "model": o.model} for o in R.obligs if o.status != "proved"],
        "names": sorted({o.name for o in R.obligs}),
        "inlined": sorted(R.inlined), "models": sorted(str(m) for m in R.models), "contracts_used": sorted(str(c) for c in R.contracts_used), "notes": sorted(str(n) for n in R.notes),
    }


def worker(conn, spec, mod, contracts, tmo, thorough):
    try:
        import contract as C
        t0 = time.time()
        import loops
        best = None
        for wide in (False, True):
            loops.WIDE = wide
            R = C.verify(spec, mod, contracts=contracts, bound=spec.bound)
            tot, ok, tm = C.discharge([R], tmo=tmo * (2 if wide else 1))
            vac = C.vacuity(R) if not R.error else None
            s = summarize(R, tot, ok, tm, vac)
            if best is None or good(s):
                best = s
            if good(s) or not R.loops or spec.bound is not None:
                break
        conn.send(best)
    except Exception as e:
        conn.send({"contract": spec.name, "function": None, "error": "internal: %s" % traceback.format_exc()[-800:], "obligations": 0, "discharged": 0, "solver_s": 0, "failed": [], "vacuity": None,
                   "bounded": None, "names": [], "inlined": [], "models": [], "contracts_used": [], "notes": [], "wall_s": 0, "backends": {}, "loops": 0, "outcomes": 0, "normal_paths": 0})
    conn.close()


def good(s):
    return not s["error"] and s["obligations"] > 0 and s["obligations"] == s["discharged"] and s["vacuity"] != "unsat"


def run_specs(jobs, deadline, thorough):
    """jobs: [(spec, mod, contracts)] -> {name: summary}"""
    out, live, todo = {}, [], list(jobs)
    while todo or live:
        while todo and len(live) < 8:
            spec, mod, cs = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(b, spec, mod, cs, spec.solver_tmo * (3 if thorough else 1), thorough))
            p.start()
            b.close()
            live.append((spec, p, a, min(deadline, time.time() + spec.wall)))
        for t in list(live):
            spec, p, a, dl = t
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                    err = "worker died"
                p.join(5)
            elif not p.is_alive():
                err = "worker died"
            elif time.time() > dl:
                err = "time limit reached"
                subprocess.run(["pkill", "-9", "-P", str(p.pid)], check=False)
                p.kill()
            else:
                continue
            if r is None:
                r = {"contract": spec.name, "function": None, "error": err, "obligations": 0, "discharged": 0, "solver_s": 0, "failed": [], "vacuity": None, "bounded": None, "names": [], "inlined": [],
                     "models": [], "contracts_used": [], "notes": [], "wall_s": 0, "backends": {}, "loops": 0, "outcomes": 0, "normal_paths": 0}
            out[spec.name] = r
            live.remove(t)
        time.sleep(0.01)
    return out


def prove(prop, work, deadline, thorough):
    import contract as C
    C.REPO = REPO
    sums, build_errors, order = {}, [], []
    units = registry.units(prop)
    mods = {}
    from concurrent.futures import ThreadPoolExecutor

    def build(u):
        try:
            return C.compile_unit_files(u, work)
        except C.BuildError as e:
            return e
    with ThreadPoolExecutor(8) as tp:
        built = list(tp.map(build, units))
    for u, bt in zip(units, built):
        if isinstance(bt, Exception):
            build_errors.append(str(bt))
            continue
        import llvmc
        try:
            mods[u.key] = llvmc.Module(bt)
        except Exception as e:
            build_errors.append("loading %s: %s" % (u.file, e))
    helpers = [(u, s) for u in units if u.key in mods for s in u.specs if s.helper]
    tops = [(u, s) for u in units if u.key in mods for s in u.specs if not s.helper]
    # helpers without contract dependencies first, then by rounds
    done_ok, failed_h = set(), set()
    pend = list(helpers)
    while pend:
        rnd = [(u, s) for u, s in pend if all(c.name in sums or not any(c.name == h.name for _, h in helpers) for c in s.contracts)]
        if not rnd:
            rnd = pend
        rs = run_specs([(s, mods[u.key], [c for c in s.contracts if c.name in done_ok or c.trusted]) for u, s in rnd], deadline, thorough)
        for u, s in rnd:
            sums[s.name] = rs[s.name]
            rs[s.name]["unit"] = u.file
            (done_ok if good(rs[s.name]) else failed_h).add(s.name)
        pend = [x for x in pend if x not in rnd]
    tn = {s.name for _, s in tops}
    rs = run_specs([(s, mods[u.key], [c for c in s.contracts if c.name in done_ok or c.name in tn or c.trusted]) for u, s in tops], deadline, thorough)
    for u, s in tops:
        sums[s.name] = rs[s.name]
        rs[s.name]["unit"] = u.file
    topn = [s.name for _, s in tops]
    missing = [s.name for u in units if u.key not in mods for s in u.specs if not s.helper]
    return sums, topn, [h.name for _, h in helpers], missing, build_errors


CXX = ["g++", "-std=c++17", "-O1", "-g", "-w", "-fno-access-control", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"]


def build_replay(name, work):
    import contract as C
    src = os.path.join(HERE, "replay", name)
    exe = os.path.join(work, os.path.basename(name) + ".exe")
    flags = []
    for ln in open(src):
        m = re.match(r"// FLAGS: (.*)", ln)
        if m:
            flags += m.group(1).replace("@VERIF@", HERE).replace("@REPO@", REPO).split()
    cxx = list(CXX)
    if "-nosan" in flags:
        flags.remove("-nosan")
        cxx = [c for c in cxx if not c.startswith("-fsanitize") and not c.startswith("-fno-sanitize")]
    base = cxx + [f for f in flags if f.startswith("-I")] + [x for i in C.INCS for x in ("-I", os.path.join(REPO, i))] + ["-I", REPO, "-I", os.path.join(HERE, "replay"), "-I", os.path.join(HERE, "units", "stubs")]
    base += [x for f in ("/usr/include/eigen3", "/usr/include/pcl-1.14") for x in ("-isystem", f)]
    link = [f for f in flags if f.startswith("-Wl,") or f.startswith("-l")]
    srcs = [src] + [f for f in flags if f.endswith(".cpp")]
    jobs = []
    for n, f in enumerate(srcs):
        o = "%s.%d.o" % (exe, n)
        jobs.append((o, subprocess.Popen(base + [x for x in flags if x not in link and x not in srcs] + ["-c", f, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    errs = [p.communicate()[1] for _, p in jobs]
    for (_, p), e in zip(jobs, errs):
        if p.returncode:
            return None, e[:2000]
    r = subprocess.run(cxx + [o for o, _ in jobs] + ["-o", exe] + [f for f in flags if f in link or f == "-pthread"] + ["-lfmt"], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[:2000]
    return exe, None


def run_replay(exe, seed, secs):
    """run the compiled code against the executable contract; ('fail', text) | ('ok', text)"""
    case = exe + ".case"
    if os.path.exists(case):
        os.unlink(case)
    env = dict(os.environ, REPLAY_CASE=case, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run([exe, str(seed), str(secs)], capture_output=True, text=True, timeout=secs + 60, env=env, errors="replace")
    except subprocess.TimeoutExpired as e:
        c = open(case, errors="replace").read() if os.path.exists(case) else ""
        return "fail", "the call did not return on input:\n%s" % c
    if r.returncode == 0:
        return "ok", r.stdout.strip()[-1500:]
    c = open(case, errors="replace").read() if os.path.exists(case) else ""
    return "fail", "exit %d\n%s\n%s\nlast case: %s" % (r.returncode, r.stdout[-3000:], r.stderr[-3000:], c)


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    t0 = time.time()
    deadline = t0 + TOTAL - 150
    work = tempfile.mkdtemp(prefix="irvc-%s-" % prop)
    rc = 1
    try:
        rc = check(prop, tier, thorough, t0, deadline, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, thorough, t0, deadline, work):
    info = registry.info(prop)
    exes = {}
    # the replay harnesses build while the proof runs
    from concurrent.futures import ThreadPoolExecutor
    tp = ThreadPoolExecutor(4)
    futs = {r: tp.submit(build_replay, r, work) for r in info.replay}
    sums, tops, helpers, missing, berr = prove(prop, work, deadline, thorough)
    bad = [sums[t] for t in tops if not good(sums[t])]
    kf = known(prop)
    fail = []
    for s in bad:
        rest = [f for f in s["failed"] if not any(k == s["contract"] + "::" + f["name"].replace(" ", "_") for k, _ in kf)]
        if s["error"] or rest or s["vacuity"] == "unsat" or s["obligations"] == 0:
            fail.append(s)
    proof_ok = not fail and not missing and not berr
    secs = (60 if thorough else 4) if proof_ok else (120 if thorough else 60)
    rep = {}
    for r, f in futs.items():
        exe, err = f.result()
        if not exe:
            rep[r] = ("nobuild", err)
            print("note: replay harness %s does not build: %s" % (r, err[:300]))
            continue
        n = max(1, len(futs))
        rep[r] = run_replay(exe, SEED, max(2, secs // n))
    found = [(r, x[1]) for r, x in rep.items() if x[0] == "fail"]
    allobl = sum(s["obligations"] for s in sums.values() if not s["bounded"])
    alldis = sum(s["discharged"] for s in sums.values() if not s["bounded"])
    violations = []
    path = None
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    if found or not proof_ok:
        path = os.path.join(EVID, "replay", "%s.txt" % prop)
        with open(path, "w") as f:
            f.write("property %s\n" % prop)
            for e in berr:
                f.write("\nBUILD ERROR (contracts could not be generated)\n%s\n" % e)
            for m in missing:
                f.write("\nNOT VERIFIED: contract %s\n" % m)
            for s in fail:
                f.write("\nCONTRACT %s on %s\n  error: %s  vacuity: %s  obligations %d discharged %d\n" % (s["contract"], s["function"], s["error"], s["vacuity"], s["obligations"], s["discharged"]))
                for o in s["failed"]:
                    f.write("  FAILED OBLIGATION [%s] %s (%s) at %s\n" % (o["status"], o["name"], o["kind"], o["loc"]))
                    if o["model"]:
                        f.write("    verifier counterexample: %s\n" % json.dumps({k: v for k, v in list(o["model"].items())[:40]}))
            for r, txt in found:
                f.write("\nFAILING INPUT on the real compiled code (harness replay/%s, seed %d)\n%s\n" % (r, SEED, txt))
            for r, x in rep.items():
                if x[0] != "fail":
                    f.write("\nharness replay/%s: %s\n%s\n" % (r, x[0], x[1]))
    for k, txt in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    rc = 0
    if found:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif not proof_ok:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
    if rc:
        for s in fail:
            print("  contract %s: %s" % (s["contract"], s["error"] or "; ".join("%s [%s] at %s" % (o["name"], o["status"], o["loc"]) for o in s["failed"][:4]) or "vacuous"))
        for e in berr:
            print("  " + e[:300])
        for r, txt in found:
            print("  failing input: " + txt[:600].replace("\n", "\n    "))
    bk = {}
    for s in sums.values():
        for b, n in s["backends"].items():
            bk[b] = bk.get(b, 0) + n
    models = sorted({m for s in sums.values() for m in s["models"]})
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": info.level,
        "coverage": {
            "obligations": allobl, "discharged": alldis,
            "checker_cmd": "python3-vt /verif/check.py %s %s" % (prop, tier),
            "trusted_base": registry.TRUSTED + models,
            "contracts": [{k: s[k] for k in ("contract", "function", "unit", "error", "obligations", "discharged", "backends", "solver_s", "wall_s", "outcomes", "normal_paths", "loops", "vacuity", "bounded", "contracts_used")} for s in sums.values() if "unit" in s],
            "helper_contracts_dropped": [h for h in helpers if not good(sums[h])],
            "obligations_by_backend": bk,
            "solver_s": round(sum(s["solver_s"] for s in sums.values()), 2),
            "functions_inlined": sorted({x for s in sums.values() for x in s["inlined"]})[:200],
            "obligation_names": sorted({n for s in sums.values() for n in s["names"]})[:200],
            "notes": sorted({n for s in sums.values() for n in s["notes"]}),
            "replay_cross_check": {r: {"result": x[0], "detail": x[1][-600:]} for r, x in rep.items()},
            "bounded_contracts": [s["contract"] for s in sums.values() if s["bounded"]],
            "evaluations": sum(int(m.group(1)) for x in rep.values() for m in [re.search(r"cases=(\d+)", x[1] or "")] if m) if rep else 0,
        },
        "assumptions": info.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": [path] if rc else [],
    }
    if info.level == "other" or info.level == "exploration":
        ev["coverage"]["explanation"] = info.note
    with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    if not rc:
        print("%s %s: %d/%d obligations discharged in %d contracts, %.1fs (solver %.1fs)" % (prop, tier, alldis, allobl, len(sums), time.time() - t0, ev["coverage"]["solver_s"]))
    return rc


if __name__ == "__main__":
    main()
