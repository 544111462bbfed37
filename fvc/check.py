"""Runs the proof jobs of one property, decides, writes evidence, replays failures against the real code."""
import os, sys, json, time, traceback, pickle, importlib, subprocess, resource, hashlib, shutil, signal
from .prog import Program, ExtractError, VERIF, REPO, BUILD
from . import solve
from .spec import *
from . import models

NPROC = 8
def _limit():
    g = 6 << 30
    try: resource.setrlimit(resource.RLIMIT_AS, (g, g))
    except Exception: pass

def eval_job(prog, spec, name, fnc, kw, mode, timeout, unroll=0, deadline=None):
    """returns dict with obligation results"""
    kw2 = {k: v for k, v in kw.items() if k not in ("tier", "solver", "bounded_only", "timeout")}
    if unroll: kw2["unroll"] = unroll
    j = J(prog, name, **kw2)
    j.mode = mode
    if deadline: j.E.deadline = deadline
    r = {"job": name, "obls": [], "err": None}
    t0 = time.time()
    try:
        fnc(j)
    except NoNormal:
        r["err"] = "the function under contract never returns normally"
    except (Unsupported, KeyError, NotImplementedError) as ex:
        r["err"] = "%s: %s" % (type(ex).__name__, ex)
        if os.environ.get("FVC_TB"): traceback.print_exc()
    except Exception as ex:
        r["err"] = "%s: %s [%s]" % (type(ex).__name__, ex, traceback.format_exc(limit=-6).replace("\n", " | ")[-1500:])
    E = j.E
    r["eval_s"] = time.time() - t0
    for o in E.obls: o.aux = j.hints
    tm = kw.get("timeout", timeout)
    for o in E.obls:
        if o.res is None:
            if deadline and time.time() > deadline + 60: o.res, o.how, o.secs, o.model = "unknown", "budget", 0, ["time budget"]
            else: o.res, o.how, o.secs, o.model = solve.solve_one(o, tm, True)
    for o in E.obls:
        r["obls"].append(dict(name=o.name, kind=o.kind, fn=o.fn, line=o.line, res=o.res, how=o.how, secs=round(o.secs or 0, 3), model=o.model))
    r.update(inlined=sorted(E.inlined), modelled=dict(E.modelled), havocked=dict(E.havocked), loops_cut=E.loops_cut, loops_unrolled=E.loops_unrolled,
             bounded=E.bounded, loop_info=[(a, b, c, len(d)) for a, b, c, d in E.loop_info], assumed=list(E.assumed), contracts=sorted({str(k) for k in E.used_contracts}))
    return r

def run_jobs(prog, spec, jobs, timeout, unroll=0, budget=None):
    """fork one process per job, at most NPROC at a time"""
    pend = list(jobs); run = {}; out = []
    import select
    deadline = time.time() + budget if budget else None; tries = {}; byname = {j[0]: j for j in jobs}
    while pend or run:
        while pend and len(run) < NPROC:
            name, fnc, kw = pend.pop(0)
            rf, wf = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(rf); _limit(); signal.signal(signal.SIGALRM, signal.SIG_DFL)
                try:
                    try: res = eval_job(prog, spec, name, fnc, kw, "b" if unroll else "p", timeout, unroll, deadline)
                    except BaseException as ex: res = {"job": name, "obls": [], "err": "crash %r" % (ex,), "fatal": True}
                    with os.fdopen(wf, "wb") as f: pickle.dump(res, f)
                finally: os._exit(0)
            os.close(wf); run[rf] = (pid, name, b"", time.time())
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            pid, name, buf, t0 = run[r]
            d = os.read(r, 1 << 20)
            if d: run[r] = (pid, name, buf + d, t0); continue
            os.close(r); os.waitpid(pid, 0); del run[r]
            try: res = pickle.loads(buf)
            except Exception:
                if tries.get(name, 0) < 2 and not (deadline and time.time() > deadline): tries[name] = tries.get(name, 0) + 1; pend.append(byname[name]); continue      # a crash of the solver: once more
                res = {"job": name, "obls": [], "err": "verifier process died", "fatal": True}
            res["wall"] = time.time() - t0
            out.append(res)
        if deadline and time.time() > deadline + 90:
            for r, (pid, name, buf, t0) in list(run.items()):
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
                os.waitpid(pid, 0); os.close(r); del run[r]
                out.append({"job": name, "obls": [], "err": "time budget exhausted", "fatal": True, "wall": time.time() - t0})
            for name, _, _ in pend: out.append({"job": name, "obls": [], "err": "time budget exhausted (not started)", "fatal": True, "wall": 0})
            pend = []
    out.sort(key=lambda r: [n for n, _, _ in jobs].index(r["job"]))
    return out

def bad_obls(r): return [o for o in r["obls"] if o["res"] != "proved"]

# ------------------------------------------------------------------ replay harness on the real code
CXX = ["g++", "-std=c++20", "-msse4.2", "-DNDEBUG", "-DOPENSSL_API_COMPAT=0x10100000L", '-DFLASHMQ_VERSION="1.26.2"', "-w", "-fno-access-control", "-O1", "-g0"]
def lib_objects(san):
    """compile every repository source (content-addressed cache under /verif/build)"""
    import glob, concurrent.futures as cf
    flags = CXX + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"] if san else [])
    h = hashlib.sha256(" ".join(flags).encode())
    for f in sorted(glob.glob(REPO + "/*.h")): h.update(f.encode()); h.update(open(f, "rb").read())
    base = h.hexdigest()
    od = os.path.join(BUILD, "obj"); os.makedirs(od, exist_ok=True)
    srcs = [f for f in sorted(glob.glob(REPO + "/*.cpp")) if os.path.basename(f) not in ("main.cpp", "flashmqtestclient.cpp")]
    def one(f):
        k = hashlib.sha256(base.encode() + f.encode() + open(f, "rb").read()).hexdigest()[:24]
        o = os.path.join(od, os.path.basename(f)[:-4] + "-" + k + ".o")
        if not os.path.exists(o):
            t = o + ".%d" % os.getpid()
            r = subprocess.run(flags + ["-I" + REPO, "-c", f, "-o", t], capture_output=True, text=True)
            if r.returncode: raise RuntimeError("compile %s: %s" % (f, r.stderr[-1500:]))
            os.rename(t, o)
        return o
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, srcs)), flags

def run_harness(spec, secs, hints, seed, extra=()):
    """('fail', text) | ('ok', text) | ('none', why)"""
    if not spec.harness: return "none", "no harness for this property"
    src = os.path.join(VERIF, "harness", spec.harness)
    work = os.path.join(BUILD, "hx-%s-%d" % (spec.id, os.getpid())); os.makedirs(work, exist_ok=True)
    try:
        try: objs, flags = lib_objects(spec.sanitize)
        except RuntimeError as ex: return "none", str(ex)
        exe = os.path.join(work, "h")
        r = subprocess.run(flags + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness"), src, "-o", exe] + objs + ["-lpthread", "-ldl", "-lssl", "-lcrypto", "-lresolv", "-lanl"], capture_output=True, text=True)
        if r.returncode: return "none", "harness does not build against this tree: " + r.stderr[:1500]
        hf = os.path.join(work, "hints.txt")
        with open(hf, "w") as f:
            for k, v in hints: f.write("%s=%s\n" % (k, v))
        env = dict(os.environ, FVC_HINTS=hf, FVC_SECS=str(secs), FVC_SEED=str(seed), FVC_DIR=work, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=99")
        try: r = subprocess.run([exe] + list(extra), capture_output=True, text=True, errors="replace", timeout=secs + 60, cwd=work, env=env)
        except subprocess.TimeoutExpired as ex:
            o = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
            return "none", "harness timed out: " + o[-800:]
        fails = [l for l in r.stdout.splitlines() if l.startswith("FAIL")]
        if fails: return "fail", "\n".join(fails[:20]) + "\n" + r.stderr[-3000:]
        if r.returncode == 0: return "ok", r.stdout[-600:]
        return "none", "harness exit %d: %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
    finally: shutil.rmtree(work, ignore_errors=True)

# ------------------------------------------------------------------ decision
def main(argv):
    cid = argv[0]; tier = "quick"
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    only = argv[argv.index("--job") + 1] if "--job" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "specs"))
    mod = importlib.import_module(cid.lower())
    spec = mod.spec
    known = [l.strip() for l in open(os.path.join(VERIF, "known-findings.txt"))] if os.path.exists(os.path.join(VERIF, "known-findings.txt")) else []
    timeout = 20 if tier == "quick" else 120
    lines = []
    def say(*a):
        s = " ".join(str(x) for x in a); lines.append(s); print(s, flush=True)
    err = None; res = []
    jobs = [j for j in spec.jobs if (tier == "thorough" or j[2].get("tier") != "thorough") and (only is None or only in j[0])]
    try:
        prog = Program(spec.tus)
        t1 = time.time()
        res = run_jobs(prog, spec, jobs, timeout, budget=450 if tier == "quick" else 3000)
    except ExtractError as ex:
        err = "source cannot be extracted (does it compile?): %s" % ex; say(err[:1500])
    nob = sum(len(r["obls"]) for r in res); nok = sum(1 for r in res for o in r["obls"] if o["res"] == "proved")
    kf = []
    problems = []     # (job, obligation|None, text)
    for r in res:
        if verbose: say("JOB %-60s obls=%d bad=%d loops cut=%s wall=%.1fs eval=%.1fs%s" % (r["job"], len(r["obls"]), len(bad_obls(r)), r.get("loops_cut"), r.get("wall", 0), r.get("eval_s", 0), " ERR " + r["err"] if r["err"] else ""))
        if r["err"]: problems.append((r, None, r["err"]))
        if verbose and r.get("havocked"): say("     opaque:", ", ".join(r["havocked"]))
        if "-vv" in argv:
            for o in r["obls"]: say("      %-8s %-5s %6.2fs %s: %s [%s]" % (o["res"], o["how"], o["secs"] or 0, o["kind"], o["name"], o["fn"]))
        for o in bad_obls(r):
            if verbose: say("   ", o["res"], o["kind"], o["name"], o["fn"], o["line"], "%.1fs" % o["secs"], (o["model"] or [])[:12] if o["res"] != "proved" else "")
            problems.append((r, o, "%s: %s in %s" % (o["kind"], o["name"], o["fn"])))
    verdict = 0; replay = None; bounded_note = []; harness_note = None
    hx = None
    bres = {}
    if "-p" in argv:
        for r, o, t in problems[:40]: say("UNDISCHARGED %s: %s%s" % (r["job"], t[:300], "" if o is None else " (%s) %s" % (o["res"], o["line"])))
        say("%s: %d/%d obligations in %d jobs, %.0fs (proof only)" % (cid, nok, nob, len(res), time.time() - t0)); return 0
    if err or problems:
        # second opinion for what was not proved: bounded symbolic execution (loops unrolled, exact counter-models)
        again = [j for j in jobs if any(r["job"] == j[0] for r, _, _ in problems)]
        firm = []
        for r, o, t in problems:
            if o is not None and o["res"] == "refuted" and not r.get("loops_cut") and not r.get("havocked"): firm.append((r, o, t))
        if again:
            for r in run_jobs(prog, spec, again, min(timeout, 20), unroll=5, budget=150): bres[r["job"]] = r
        hints = []
        for r, o, t in problems:
            if o is not None and o.get("model"): hints += [tuple(x[1:].split("=", 1)) for x in o["model"] if x.startswith("@")]
        for r in bres.values():
            for o in bad_obls(r):
                if o.get("model"): hints += [tuple(x[1:].split("=", 1)) for x in o["model"] if x.startswith("@")]
        hx = run_harness(spec, spec.harness_secs if tier == "quick" else spec.harness_secs * 4, hints, seed)
        harness_note = "%s: %s" % (hx[0], hx[1][:400])
        bfirm = []
        for n, r in bres.items():
            for o in bad_obls(r):
                if o["res"] == "refuted" and (not r.get("havocked") or getattr(spec, "havoc_ok", False)): bfirm.append((r, o))
        os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "build", "replay", "%s-%d.txt" % (cid, os.getpid()))
        def write_replay(head):
            with open(rp, "w") as f:
                f.write(head + "\n\nUndischarged obligations (verifier output):\n")
                if err: f.write(err + "\n")
                for r, o, t in problems:
                    f.write("- [%s] %s%s\n" % (r["job"], t, "" if o is None else " -> %s by %s in %.2fs" % (o["res"], o["how"], o["secs"])))
                    if o is not None and o.get("model"): f.write("    counter-model: " + "; ".join(o["model"][:40]) + "\n")
                f.write("\nBounded re-check (loops unrolled 5 times):\n")
                for n, r in bres.items():
                    f.write("- %s: %s\n" % (n, r["err"] or "%d obligations, %d failed" % (len(r["obls"]), len(bad_obls(r)))))
                    for o in bad_obls(r): f.write("    %s %s in %s: %s\n" % (o["res"], o["name"], o["fn"], "; ".join((o.get("model") or [])[:40])))
                f.write("\nReplay on the real code: %s\n" % (hx,))
        for r, o, t in problems[:12]: say("UNDISCHARGED %s: %s%s" % (r["job"], t[:300], "" if o is None else " (%s)" % o["res"]))
        if hx[0] == "fail":
            write_replay("Concrete failing input, executed on the code built from %s:\n%s" % (REPO, hx[1])); verdict = 1; replay = rp
            say(hx[1].splitlines()[0])
            say("VIOLATION property=%s replay=%s" % (cid, rp))
        elif firm or bfirm:
            write_replay("No concrete failing input was found by the replay harness; the obligations below are refuted (exact counter-model over the extracted code)."); verdict = 1; replay = rp
            say("VIOLATION property=%s replay=%s no-failing-input-found" % (cid, rp))
        else:
            bounded_note = ["%s: %s" % (r["job"], t[:200]) for r, o, t in problems]
            if hx[0] == "none": say("harness: " + hx[1][:600])
            say("UNDECIDED by proof: %d obligation(s)/function(s); bounded re-check and replay on the real code found no violation" % len(problems))
    elif spec.harness and only is None and (tier == "thorough" or spec.standin):
        # bounded stand-in for the functions outside the verifier's reach (labelled as such in the evidence)
        hx = run_harness(spec, spec.harness_secs * (2 if tier == "thorough" else 1), [], seed)
        harness_note = "%s: %s" % (hx[0], hx[1][:400])
        if hx[0] == "none": say("harness: " + hx[1][:1500])
        if hx[0] == "fail":
            rp = os.path.join(VERIF, "build", "replay", "%s-%d.txt" % (cid, os.getpid())); os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, "w").write(hx[1]); verdict = 1; say(hx[1].splitlines()[0]); say("VIOLATION property=%s replay=%s" % (cid, rp))
    for l in known:
        if l.startswith("finding: property=%s " % cid): say("KNOWN-FINDING: " + l[len("finding: "):])
    write_evidence(spec, tier, seed, res, nob, nok, bounded_note, harness_note, time.time() - t0, verdict)
    say("%s %s: %d/%d obligations discharged in %d jobs, %.0fs -> exit %d" % (cid, tier, nok, nob, len(res), time.time() - t0, verdict))
    return verdict

def write_evidence(spec, tier, seed, res, nob, nok, bounded_note, harness_note, wall, verdict):
    fns = sorted({f for r in res for f in r.get("inlined", [])})
    mod = {}; hav = {}; by = {}; kinds = {}; st = 0; contracts = set()
    for r in res:
        for k, v in r.get("modelled", {}).items(): mod[k] = mod.get(k, 0) + v
        for k, v in r.get("havocked", {}).items(): hav[k] = hav.get(k, 0) + v
        contracts |= set(r.get("contracts", []))
        for o in r["obls"]:
            if o["res"] == "proved": by[o["how"]] = by.get(o["how"], 0) + 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1; st += o["secs"] or 0
    ok = not bounded_note and verdict == 0
    tb = ["clang 18 front end and the AST extractor (extract/extract.cpp)", "FVC semantics of C++ expressions and statements (fvc/engine.py)", "z3 / cvc5",
          "contracts of the C++ standard library (fvc/models.py): " + ", ".join(sorted(mod)[:60])] + ["assumed contract / havocked callee: " + k for k in sorted(hav)[:40]] + \
         ["contract used at call sites: " + c for c in sorted(contracts)[:60]] + list(spec.trusted)
    ev = {"property": spec.id, "tier": tier, "seed": seed, "level": "proof" if ok else "other", "wall_s": round(wall, 1),
          "coverage": {"obligations": nob, "discharged": nok, "checker_cmd": "python3-vt /verif/run.py %s --tier %s" % (spec.id, tier), "trusted_base": tb,
                       "functions_under_contract": [r["job"] for r in res], "functions_expanded": fns[:200], "by_backend": by, "obligation_kinds": kinds, "solver_seconds": round(st, 2),
                       "loops_with_inferred_invariant": sum(r.get("loops_cut") or 0 for r in res), "loops_unrolled_exactly": sum(r.get("loops_unrolled") or 0 for r in res),
                       "undecided": bounded_note[:40], "replay": harness_note, "note": spec.note, "bounded_stand_in": spec.standin}}
    if not ok: ev["coverage"]["explanation"] = "functions listed under undecided were only checked with loops unrolled 5 times and by the replay harness on the real code; not counted as proved"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", spec.id + ".json"), "w") as f: json.dump(ev, f, indent=1)
