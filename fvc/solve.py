"""Discharging obligations: z3 (Python API) first, cvc5 (SMT-LIB over a pipe) as second back end."""
import z3, os, shutil, subprocess, tempfile, time, signal, pickle, multiprocessing as mp
from .vals import *
from . import vals as V
from . import engine as EN

def decl_names(fs):
    """names of all constants / functions occurring in the formulas, plus map-enumeration sorts"""
    names = set(); seen = set(); st = list(fs)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t): st.append(t.body()); continue
        if z3.is_app(t):
            names.add(t.decl().name()); st.extend(t.children())
    return names
EXTRA_AXIOMS = []   # (trigger names, axioms)
_strax = None
STRFUN = [("slen",), ("smk", ), ("smk",), ("ssub",), ("ssub",), ("scat",), ("scat",), ("supd",), ("supd",), ("schr",), (), ()]
def axioms_for(fs, rounds=3):
    global _strax
    if _strax is None: _strax = V.string_axioms()
    out = []; have = set(); lits = set()
    cur = list(fs); names = set()
    for _ in range(rounds):
        n2 = decl_names(cur)
        new = n2 - names
        names |= n2
        cur = []
        strs = any(n in names for n in ("slen", "sat", "smk", "ssub", "scat", "supd", "schr", "str!empty")) or any(n.startswith("lit!") for n in names)
        if strs:
            for i, (ax, tr) in enumerate(zip(_strax, STRFUN)):
                if i in have: continue
                if i == 0 or i >= 10 or (tr and tr[0] in names):
                    have.add(i); out.append(ax)
        for f in EN.lit_facts(names):
            if f.get_id() not in lits: lits.add(f.get_id()); out.append(f); cur.append(f)
        for key, (mkey, mpos, msz, ax) in EN._mk.items():
            if (mkey.name() in names or mpos.name() in names) and key not in have:
                have.add(key); out += ax; cur += ax
        for j, (trig, ax) in enumerate(EXTRA_AXIOMS):
            if ("x", j) not in have and any(t in names for t in trig):
                have.add(("x", j)); ax2 = ax() if callable(ax) else ax; out += ax2; cur += ax2
        if not cur: break
    return out

_hq = {}
def has_quant(f):
    st = [f]; seen = set()
    k = f.get_id()
    if k in _hq and _hq[k][0].eq(f): return _hq[k][1]
    r = False
    while st:
        t = st.pop(); i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t):
            if not t.is_lambda(): r = True; break
            st.append(t.body()); continue
        st.extend(t.children())
    _hq[k] = (f, r)
    return r
FASTMS = 1500
def check(pc, goal, timeout=10000, want_model=False):
    """valid(pc => goal)? returns 'proved' | 'refuted' | 'unknown' (, model)"""
    fs = [f for f in pc] + [z3.Not(goal)]
    if timeout >= 2000:
        q = [f for f in pc if not has_quant(f)]
        if len(q) < len(pc):
            s = z3.Solver(); s.set("timeout", FASTMS); s.add(*q); s.add(z3.Not(goal))
            if s.check() == z3.unsat: return "proved", None
    s = z3.SolverFor("ALL") if False else z3.Solver()
    s.set("timeout", int(timeout))
    for a in axioms_for(fs): s.add(a)
    s.add(*fs)
    r = s.check()
    if r == z3.unsat: return "proved", None
    if r == z3.sat:
        return "refuted", (s.model() if want_model else None)
    return "unknown", s.reason_unknown()

def to_smt2(pc, goal):
    fs = [f for f in pc] + [z3.Not(goal)]
    s = z3.Solver()
    for a in axioms_for(fs): s.add(a)
    s.add(*fs)
    return s.to_smt2()

def check_cvc5(pc, goal, timeout=10):
    txt = to_smt2(pc, goal)
    txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info") )
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().splitlines()
        if o and o[0] == "unsat": return "proved"
        if o and o[0] == "sat": return "refuted"
        return "unknown"
    except subprocess.TimeoutExpired: return "unknown"
    finally: os.unlink(f.name)

def check_znew(pc, goal, timeout=10):
    """the newer z3 release, as a separate process"""
    if not Z3NEW: return "unknown"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(to_smt2(pc, goal))
    try:
        r = subprocess.run([Z3NEW, "-T:%d" % max(1, int(timeout)), f.name], capture_output=True, text=True, timeout=timeout + 5); o = r.stdout.strip().splitlines()
        return "proved" if o and o[0] == "unsat" else "refuted" if o and o[0] == "sat" else "unknown"
    except subprocess.TimeoutExpired: return "unknown"
    finally: os.unlink(f.name)
Z3NEW = shutil.which("z3-new")

class Houdini:
    """incremental context for the invariant filter"""
    def __init__(self, pc, timeout):
        self.pc = pc; self.timeout = timeout

def fmt_model(m, obl):
    out = []
    try:
        for d in m.decls()[:400]:
            if d.arity() == 0:
                s = str(m[d])
                if len(s) < 80: out.append("%s = %s" % (d.name(), s))
    except z3.Z3Exception: pass
    return sorted(out)

def hint_lines(m, hints):
    out = []
    for k, t in (hints or {}).items():
        try:
            if t.sort() == StrS:
                n = m.eval(slen(t), True).as_long()
                if n > 400: n = 400
                out.append("@%s=%s" % (k, "".join("%02x" % m.eval(sat(t, bv(i)), True).as_long() for i in range(n))))
            elif z3.is_bv(t): out.append("@%s=%d" % (k, m.eval(t, True).as_long()))
            elif z3.is_bool(t): out.append("@%s=%d" % (k, 1 if z3.is_true(m.eval(t, True)) else 0))
        except Exception: pass
    return out

def _split_goal(g):
    if z3.is_and(g):
        r = []
        for x in g.children(): r += _split_goal(x)
        return r
    return [g]

MULDIV = None
def wants_int(fs):
    """does the obligation multiply or divide by constants other than powers of two?"""
    seen = set(); st = list(fs)
    ks = (z3.Z3_OP_BMUL, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)
    while st:
        t = st.pop(); i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.decl().kind() in ks: return True
            st.extend(t.children())
    return False
def abstract_mul(fs):
    """the same formulas with every product, quotient and remainder by a constant uninterpreted: what holds then, holds"""
    ks = {z3.Z3_OP_BMUL: "mul", z3.Z3_OP_BSDIV: "sdiv", z3.Z3_OP_BSDIV_I: "sdiv", z3.Z3_OP_BUDIV: "udiv", z3.Z3_OP_BUDIV_I: "udiv", z3.Z3_OP_BUREM: "urem", z3.Z3_OP_BUREM_I: "urem"}; memo = {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][1]
        r = t
        if z3.is_app(t) and t.num_args():
            ch = [go(x) for x in t.children()]; k = t.decl().kind()
            if k in ks and len(ch) == 2 and any(z3.is_bv_value(x) for x in ch):
                c, x = (ch[0], ch[1]) if z3.is_bv_value(ch[0]) else (ch[1], ch[0])
                if k == z3.Z3_OP_BMUL or c is ch[1]: r = z3.Function("%s.%s.%d" % (ks[k], c, t.size()), t.sort(), t.sort())(x)
                else: r = t.decl()(*ch)
            elif any(a is not b for a, b in zip(ch, t.children())): r = t.decl()(*ch)
        memo[i] = (t, r); return r
    return [go(f) for f in fs]
def solve_one(o, timeout, second):
    t0 = time.time()
    if o.pc is None: return ("proved", "simplifier", 0, None)
    if o.kind == "cover":
        # reachable?
        fs = list(o.pc) + [o.goal]
        s = z3.Solver(); s.set("timeout", int(timeout * 1000))
        for a in axioms_for(fs): s.add(a)
        s.add(*fs); r = s.check()
        return ("proved" if r == z3.sat else "vacuous" if r == z3.unsat else "unknown", "z3", time.time() - t0, None)
    if wants_int(list(o.pc) + [o.goal]):
        r, m = check(o.pc, o.goal, 1500, True)
        if r == "unknown":
            fs = abstract_mul(list(o.pc) + [o.goal])
            if check(fs[:-1], fs[-1], 1500)[0] == "proved": return ("proved", "z3 (constant products uninterpreted)", time.time() - t0, None)
            from . import toint
            try:
                if toint.check_int(o.pc, o.goal, min(timeout, 10) * 1000): return ("proved", "z3 (integers)", time.time() - t0, None)
            except z3.Z3Exception: pass
    else: r = "unknown"
    if r == "unknown":
        quick = min(timeout, 6); r, m = check(o.pc, o.goal, quick * 1000, True)
        if r == "unknown" and timeout > quick and second:
            if check_znew(o.pc, o.goal, 6) == "proved": return ("proved", "z3-new", time.time() - t0, None)
            if check_cvc5(o.pc, o.goal, 6) == "proved": return ("proved", "cvc5", time.time() - t0, None)
            r, m = check(o.pc, o.goal, timeout * 1000, True)
        elif r == "unknown" and timeout > quick: r, m = check(o.pc, o.goal, timeout * 1000, True)
    if r == "proved": return ("proved", "z3", time.time() - t0, None)
    if r == "unknown":
        # split conjunctive goals
        gs = _split_goal(o.goal)
        if len(gs) > 1:
            ok = True
            for g in gs:
                r2, m2 = check(o.pc, g, timeout * 1000, True)
                if r2 != "proved": ok = False; r, m = r2, m2; break
            if ok: return ("proved", "z3", time.time() - t0, None)
        if r == "unknown" and second:
            c = check_cvc5(o.pc, o.goal, timeout)
            if c == "proved": return ("proved", "cvc5", time.time() - t0, None)
            if c == "unknown" and check_znew(o.pc, o.goal, timeout) == "proved": return ("proved", "z3-new", time.time() - t0, None)
            if c == "refuted": return ("refuted", "cvc5", time.time() - t0, ["cvc5: sat"])
    info = hint_lines(m, o.aux) + fmt_model(m, o) if r == "refuted" and m is not None else [str(m)]
    return (r, "z3", time.time() - t0, info)

def solve_all(obls, timeout=20, second=True, nproc=8, budget=None):
    """discharge in parallel by forking; results written back into the obligations"""
    todo = [i for i, o in enumerate(obls) if o.res is None]
    if not todo: return
    nproc = min(nproc, len(todo))
    if nproc <= 1 and len(todo) <= 1:
        for i in todo: _apply(obls[i], solve_one(obls[i], timeout, second))
        return
    # dynamic distribution through a shared counter
    ctr = mp.Value("i", 0); pipes = []; pids = []
    for w in range(nproc):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r); out = os.fdopen(wfd, "wb")
                while True:
                    with ctr.get_lock():
                        k = ctr.value; ctr.value += 1
                    if k >= len(todo): break
                    i = todo[k]
                    try: res = solve_one(obls[i], timeout, second)
                    except Exception as ex: res = ("unknown", "error", 0, [repr(ex)[:300]])
                    pickle.dump((i, res), out); out.flush()
                out.close()
            finally: os._exit(0)
        os.close(wfd); pipes.append(os.fdopen(r, "rb")); pids.append(pid)
    import select
    for f in pipes:
        while True:
            try: i, res = pickle.load(f)
            except (EOFError, pickle.UnpicklingError): break
            _apply(obls[i], res)
        f.close()
    for p in pids: os.waitpid(p, 0)
    for i in todo:
        if obls[i].res is None: obls[i].res = "unknown"; obls[i].how = "crash"
def _apply(o, res): o.res, o.how, o.secs, o.model = res
