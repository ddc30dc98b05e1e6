#!/usr/bin/env python3-vt
"""Decide one property:  check.py C01 [--tier quick|thorough]

1. the contracts of the property's functions (vc/specs) are verified against /repo's current source (vc/): every proof
   obligation is generated from the source of this run and handed to the solvers;
2. the same contracts, as executable oracles (harness/), run against the real code compiled from /repo - the replay and
   counterexample search for failed obligations, and a bounded conformance check of the trusted contracts;
exit 0: the property held on everything explored; exit 1: a VIOLATION line."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("GM_REPO", "/repo")
INC = ["-I" + REPO, "-I" + REPO + "/libsrc", "-I" + REPO + "/_build", "-I/usr/include/hdf5/serial", "-I/usr/include/gdal", "-DWITH_GDAL", "-I" + HERE + "/harness", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lproj", "-lgdal", "-lpthread"]
PY = "python3-vt"


def log(*a):
    print(*a, flush=True)


class Build(threading.Thread):
    """compile libsrc and the harnesses of this property from /repo's working tree"""

    def __init__(self, names, out, san=True, libs=True, extra=(), flags=(), link=()):
        super().__init__(daemon=True)
        self.extra, self.xflags, self.xlink = list(extra), list(flags), list(link)
        self.names, self.out, self.error, self.seconds = names, out, None, 0
        self.flags = ["-std=c++14", "-g", "-O1"] + (SAN if san else []) + INC
        self.link = (SAN if san else []) + LIBS
        self.use_libs = libs

    def run(self):
        t0 = time.time()
        jobs = []
        self.flags, self.link = self.flags + self.xflags, self.link + self.xlink
        srcs = [REPO + "/" + x for x in self.extra] + (sorted(glob.glob(REPO + "/libsrc/geomodelgrids/*/*.cc")) if self.use_libs else [])
        objs = []
        for s in srcs:
            o = os.path.join(self.out, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            jobs.append((s, o))
        hobj = {}
        for n in self.names:
            hobj[n] = os.path.join(self.out, "h_" + n + ".o")
            jobs.insert(0, (os.path.join(HERE, "harness", n + ".cc"), hobj[n]))
        live, errs = [], []
        try:
            while jobs or live:
                while jobs and len(live) < 8:
                    s, o = jobs.pop(0)
                    p = subprocess.Popen(["g++"] + self.flags + ["-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
                    live.append((p, s))
                p, s = live.pop(0)
                _, e = p.communicate(timeout=400)
                if p.returncode:
                    errs.append("%s: %s" % (s, e[:1500]))
            for n in self.names:
                if errs:
                    break
                r = subprocess.run(["g++"] + [hobj[n]] + objs + ["-o", os.path.join(self.out, n)] + self.link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                if r.returncode:
                    errs.append(r.stdout[:1500])
        except Exception as e:
            errs.append(repr(e))
        self.error = "\n".join(errs) or None
        self.seconds = time.time() - t0


def run_harness(cmd, env, cwd, limit):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, timeout=limit, errors="replace", text=True)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "", "timeout"
    return out, err, rc


def parse(out, err, rc):
    fails, stats = [], {}
    for l in out.splitlines():
        if l.startswith("FAIL "):
            p = l[5:].split(" | ", 1)
            fails.append((p[0].strip(), p[1] if len(p) > 1 else ""))
        elif l.startswith("STATS "):
            try:
                stats = json.loads(l[6:])
            except ValueError:
                pass
    if rc not in (0, 7, "timeout") and not fails:
        tail = [l for l in err.splitlines() if l.strip()]
        sig = next((l for l in tail if "ERROR: AddressSanitizer" in l or "runtime error" in l), tail[-1] if tail else "")
        scen = next((l for l in reversed(out.splitlines()) if l.startswith("AT ")), "")
        fails.append(("crash", "exit %s: %s %s" % (rc, sig, scen)))
    return fails, stats


def known(pid):
    """entries 'finding: property=<id> key=<text> ...' of KNOWN_FINDINGS.txt"""
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) key=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1)
    from vc import props
    pr = props.PROPS[pid]
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
    try:
        return decide(pid, pr, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, pr, tier, seed, work, t0):
    thorough = tier == "thorough"
    hs = pr.get("harness", [])
    cc = [h for h in hs if not h.get("py")]
    build = None
    if cc:
        build = Build(sorted(set(h["src"] for h in cc)), work, san=pr.get("san", True), extra=pr.get("extra_src", ()), flags=pr.get("flags", ()), link=pr.get("link", ()))
        build.start()
    # ---- proof
    results, perr, ptime = [], None, time.time()
    tasks = []
    if pr.get("tasks"):
        try:
            from vc import front, verify
            files = pr.get("files") or sorted(glob.glob(REPO + "/libsrc/geomodelgrids/*/*.cc")) + [REPO + "/bin/%s.cc" % b for b in pr.get("bins", ())]
            prog = pr["program"](REPO) if pr.get("program") else front.Program(files)
            tasks = pr["tasks"]()
            results = verify.run_tasks(prog, tasks, procs=8, wall=600 if thorough else 300)
        except Exception as e:
            import traceback
            perr = traceback.format_exc()
    ptime = time.time() - ptime
    obl = [o for r in results for o in r.obligations]
    failed = [o for o in obl if o["status"] == "failed" and not o.get("imprecise")]
    undecided = [o for o in obl if o["status"] != "proved" and o not in failed]
    unsup = [(r.task, r.unsupported or (r.error or "").strip().splitlines()[-1]) for r in results if r.unsupported or r.error]
    vacuous = [r.task for r in results if r.vacuous]
    # ---- run-time contracts
    fails, stats, hnotes = [], [], []
    if build:
        build.join()
        if build.error:
            hnotes.append("harness could not be built: " + build.error[:600])
    secs = pr.get("secs", 8) * (6 if thorough else 1)
    if failed:
        secs *= 2

    def batch(secs, seeds):
        jobs = []
        for h in hs:
            for k in range(h.get("procs", 4)):
                sd = seeds + 101 * k
                d = os.path.join(work, "%s-%d-%d" % (h["src"].replace("/", "_"), sd, len(jobs)))
                os.makedirs(d, exist_ok=True)
                if h.get("py"):
                    cmd = [h.get("python", "/usr/bin/python3"), os.path.join(HERE, "harness", h["src"] + ".py")]
                else:
                    if build.error:
                        continue
                    cmd = [os.path.join(work, h["src"])]
                cmd += [pid, str(sd), str(secs), tier]
                env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_abort=0:handle_segv=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", GM_SCRATCH=d, GM_REPO=REPO,
                           PROJ_NETWORK="OFF", GM_WORK=work, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
                if h.get("exe"):
                    env["GM_EXE"] = os.path.join(work, h["exe"])
                jobs.append((h, sd, cmd, env, d))
        res = [None] * len(jobs)

        def go(i):
            h, sd, cmd, env, d = jobs[i]
            res[i] = run_harness(cmd, env, d, secs * 3 + 60)
        th = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        for (h, sd, cmd, env, d), (out, err, rc) in zip(jobs, res):
            f, s = parse(out, err, rc)
            if rc == "timeout":
                hnotes.append("%s seed %d: time limit" % (h["src"], sd))
            for key, det in f:
                fails.append((key, det, h["src"], sd, secs, err[-3000:]))
            if s:
                stats.append(dict(s, harness=h["src"], seed=sd))
    if hs:
        batch(secs, seed)
    kn = known(pid)
    real = [f for f in fails if not any(k and k in (f[0] + " | " + f[1]) for k, _ in kn)]
    if failed and not real and hs and pr.get("search", True):
        batch(secs * 2, seed + 7)          # directed search for an input that shows the failed obligation
        real = [f for f in fails if not any(k and k in (f[0] + " | " + f[1]) for k, _ in kn)]
    # ---- report
    for k, d in kn:
        log("KNOWN-FINDING: property=%s %s" % (pid, d))
    log("%s: %d obligations, %d proved, %d failed, %d undecided; %d functions under contract; solver %.1fs, proof %.1fs" % (
        pid, len(obl), len([o for o in obl if o["status"] == "proved"]), len(failed), len(undecided), len(results), sum(r.solver_time for r in results), ptime))
    for o in failed:
        log("  failed obligation: %s :: %s (%s line %s)" % (o["task"], o["name"], o["func"], o["line"]))
    for o in undecided[:10]:
        log("  bounded (obligation not decided): %s :: %s" % (o["task"], o["name"]))
    for t, m in unsup:
        log("  bounded (outside the verifier's reach): %s: %s" % (t, m))
    if perr:
        log("  bounded (front end): " + perr.strip().splitlines()[-1])
    for m in hnotes:
        log("  note: " + m)
    cases = sum(s.get("cases", 0) for s in stats)
    log("  run-time contracts: %d evaluations in %d runs, %d failures" % (cases, len(stats), len(fails)))
    viol, seen = 0, set()
    rdir = os.path.join(HERE, "evidence", "replay")
    for key, det, src, sd, sc, err in real:
        if key in seen:
            continue
        seen.add(key)
        viol += 1
        path = os.path.join(rdir, "%s-%d.json" % (pid, viol))
        json.dump({"property": pid, "kind": "failing input on the real code", "what": key, "detail": det, "harness": "harness/" + src, "seed": sd, "seconds": sc, "tier": tier,
                   "replay": "VERIF_SEED=%d python3-vt check.py %s" % (seed, pid), "stderr": err,
                   "failed_obligations": [dict(task=o["task"], name=o["name"], func=o["func"], line=o["line"], model=o.get("model")) for o in failed]}, open(path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (pid, path))
        log("  %s | %s" % (key, det[:400]))
    if failed and not real:
        viol += 1
        path = os.path.join(rdir, "%s-obligation.json" % pid)
        json.dump({"property": pid, "kind": "failed proof obligation", "obligations": [dict(task=o["task"], name=o["name"], kind=o["kind"], func=o["func"], line=o["line"], backend=o.get("backend"),
                   verifier_output="the solver found a counterexample to the obligation", counterexample=o.get("model")) for o in failed]}, open(path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    trusted = sorted(set("contract trusted: " + x for r in results for x in r.externals)) + list(pr.get("trusted", []))
    backends = {}
    for o in obl:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": pr.get("level", "proof"),
          "coverage": {
              "obligations": len(obl), "discharged": len([o for o in obl if o["status"] == "proved"]),
              "checker_cmd": "python3-vt check.py %s" % pid, "trusted_base": trusted,
              "functions_under_contract": [r.task for r in results],
              "inlined_helpers": sorted(set(x for r in results for x in r.inlined)),
              "callee_contracts_used": sorted(set(x for r in results for x in r.contracts_used)),
              "discharged_by_back_end": backends, "solver_seconds": round(sum(r.solver_time for r in results), 2),
              "undischarged_bounded": [o["task"] + " :: " + o["name"] for o in undecided] + ["%s: %s" % u for u in unsup] + (["front end: " + perr.strip().splitlines()[-1]] if perr else []),
              "failed_obligations": [o["task"] + " :: " + o["name"] for o in failed],
              "vacuity": {"preconditions_checked": len([r for r in results if r.vacuous is not None]), "contradictory": vacuous},
              "bounded_runtime_contracts": {"evaluations": cases, "runs": stats, "notes": hnotes, "label": "bounded: samples, never counted as proved"},
              "evaluations": cases,
              "not_covered": pr.get("gaps", []),
              "explanation": pr.get("note", ""),
          },
          "assumptions": props_assumptions(pr), "wall_s": round(time.time() - t0, 2), "violations": viol}
    if pr.get("level", "proof") != "proof":
        ev["coverage"]["rule"] = pr.get("rule", "random cases from the harness generators; every evaluation compares the real code with an independent oracle")
        ev["coverage"]["distinct_nontrivial"] = cases
        ev["coverage"]["samples"] = [s.get("counts") for s in stats[:2]] or ["none"]
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if vacuous:
        log("  note: contradictory preconditions in %s" % ", ".join(vacuous))
    return 1 if viol else 0


COMMON = ["double arithmetic is treated as real arithmetic (rounding is outside the proof; the run-time contracts allow 1e-9 relative)",
          "integers are mathematical; unsigned subtraction below zero and narrowing are obligations where they occur",
          "operator new does not fail; objects are distinct unless the contract says otherwise",
          "the clang 18 AST, the translation in vc/ and the solvers (z3 5.3, cvc5 1.4) are trusted"]


PYCOMMON = ["floating-point numbers are treated as reals (int() of a quotient is the exact floor)", "array elements are reals: the rounding of a stored value to 32 bits is outside the proof",
            "log messages and the text of exception messages are dropped", "arguments have the documented types", "the Python AST module, the translation in vc/pyvc.py and the solver (z3 5.3) are trusted"]


def props_assumptions(pr):
    return (PYCOMMON if pr.get("python") else COMMON) + list(pr.get("assumptions", []))


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        log("note: internal error of the check (nothing decided): %r" % e)
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
