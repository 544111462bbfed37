"""Specification API: contracts and proof jobs over functions extracted from /repo's current source."""
import z3, traceback, time
from .vals import *
from . import vals as V
from .engine import *
from .prog import Program
from . import solve, loops

class NoNormal(Exception): pass

class Spec:
    def __init__(self, id, tus, harness=None, hsrc="all", trusted=(), note="", harness_secs=60, sanitize=False, standin=None):
        self.id = id; self.tus = tus; self.jobs = []; self.harness = harness; self.hsrc = hsrc; self.trusted = list(trusted); self.note = note
        self.harness_secs = harness_secs; self.sanitize = sanitize; self.standin = standin
    def job(self, name, **kw):
        def d(f): self.jobs.append((name, f, kw)); return f
        return d

class J:
    """one proof job: an engine plus conveniences for stating contracts"""
    def __init__(self, prog, name, bounds=False, exhaust=None, unroll=0, termination=False, null=False, depth=None, houdini_ms=3000, **kw):
        self.prog = prog; self.E = Engine(prog, name, bounds); E = self.E
        if exhaust: E.exhaust = dict(exhaust) if isinstance(exhaust, dict) else {"*": exhaust}
        E.unroll = unroll; E.termination = termination; E.check_null = null; E.houdini_ms = houdini_ms
        if depth: E.maxdepth = depth
        self.throws = []; self.hints = {}; self.inl_pat = []
        E.aux_hints = self.hints
    # --- building symbolic inputs
    def fn(self, qn, params=None): return self.prog.find(qn, params)
    def ty(self, name):
        t = self.prog.types.get(name)
        if t is None: raise KeyError("type " + name)
        return t
    def this(self, cls, name="this"):
        """an arbitrary object on the heap"""
        t = self.ty(cls) if isinstance(cls, str) else cls
        r = z3.Const(name, RefS); self.E.assume(r != null); self.E.assume(age(r) <= 0)
        return self.E.obj(r, t)
    def sym(self, ty, name):
        if isinstance(ty, str): ty = self.ty(ty)
        return self.E.fresh_val(shape_of(ty), name)
    def args(self, f, **given):
        out = []
        for p in f.params:
            if p["n"] in given:
                a = given[p["n"]]
                if p["t"].k == "ref" and isinstance(a, Val): a = self.E.temp(a, p["n"])
                out.append(a); continue
            t = p["t"]
            if t.k == "ref":
                if t.to.k == "rec" and shape_of(t.to).kind == "rec" and shape_of(t.to).keys is not None and t.to.rec is not None:
                    r = z3.Const(fresh_name("arg." + p["n"]), RefS); self.E.assume(r != null); self.E.assume(age(r) <= 0)
                    out.append(self.E.obj(r, t.to))
                else: out.append(self.E.temp(self.E.fresh_val(shape_of(t.to), p["n"]), p["n"]))
            else: out.append(self.E.fresh_val(shape_of(t), p["n"]))
        return out
    def rv(self, x): return self.E.rv(x)
    def f(self, loc, *names):
        """term of a (nested) scalar field"""
        for n in names: loc = lmap(loc, lambda l, n=n: l.fld(n))
        v = self.E.load(loc)
        return v.lv[0] if len(v.lv) == 1 else v
    def opt(self, loc):
        """the value inside an optional (its presence is not checked)"""
        return lmap(loc, lambda l: l.ext(("o",), l.sh.elem))
    def path(self, loc, *names):
        """nested location; '*' steps into an optional"""
        for n in names: loc = self.opt(loc) if n == "*" else lmap(loc, lambda l, n=n: l.fld(n))
        return loc
    def val(self, loc, *names): return self.E.load(self.path(loc, *names))
    def set(self, loc, *names, to=None):
        for n in names: loc = loc.fld(n)
        self.E.store(loc, to if isinstance(to, Val) else Val(loc.sh, [to]))
    def assume(self, f): self.E.assume(f)
    def hint(self, name, term): self.hints[name] = term
    def pure(self, *names, throws=None, ret=None):
        """assumed frame contract: the callee changes nothing the proof talks about, except non-const reference arguments; its result is arbitrary"""
        for n in names:
            def h(E, c, n=n):
                for i, a in enumerate(c.args):
                    t = c.f["ps"][i] if i < len(c.f["ps"]) else None
                    if t is not None and t.k == "ref" and not t.cst and not t.rv and isinstance(a, (Loc, Choice)) and throws != "keepargs": E.havoc_loc(a)
                if throws and throws != "keepargs": E.maybe_throw(E.fresh_val(BOOL, "thr").t, throws)
                return ret(E, c) if ret else E.fresh_result(c.f["ret"], n.split("::")[-1])
            self.E.contracts[n] = h
    def ghost(self, name, init=None):
        """scalar ghost variable, never touched by the code: ghost(name, value) sets it, ghost(name) reads it"""
        k = "ghost:" + name
        if init is not None: self.E.st.H[k] = init
        return self.E.st.H[k]
    def fnptr(self, loc, name, h):
        """contract of the function a function-pointer member points to"""
        self.E.contracts[("fnptr", self.E.load(loc.fld(name)).lv[0].n)] = h
    def dead(self, *names):
        """callee that never returns"""
        for n in names:
            def h(E, c): raise Dead()
            self.E.contracts[n] = h
    # --- running
    def run(self, f, this, args):
        """execute; afterwards E.st is the merged normal-return state; self.throws the exceptional exits"""
        self.E.throws = [[]]
        if isinstance(f, str): f = self.fn(f)
        try: v = self.E.call_fn(f, this, args); dead = False
        except Dead: v = None; dead = True
        self.throws = self.E.throws[0]; self.E.throws = [[]]
        if dead: raise NoNormal()
        return v
    def run_any(self, f, this, args):
        """(returns_normally, value)"""
        try: return True, self.run(f, this, args)
        except NoNormal: return False, None
    def post(self, name, goal, kind="postcondition"): self.E.prove(name, goal, kind)
    def lemma(self, name, f, ms=5000):
        """intermediate step: proved now and then available; when it does not hold it is simply not used"""
        t0 = time.time(); r, how = "unknown", "z3"
        if solve.wants_int(list(self.E.st.pc) + [f]):
            from . import toint
            r, _ = solve.check(self.E.st.pc, f, 1000)
            if r == "unknown" and toint.check_int(self.E.st.pc, f, ms): r = "proved"; how = "z3 (integers)"
        if r == "unknown": r, _ = solve.check(self.E.st.pc, f, ms)
        if r == "proved":
            self.E.prove(name, f, "lemma"); o = self.E.obls[-1]; o.res = "proved"; o.how = o.how or how; o.secs = time.time() - t0
            self.E.assume(f)
        return r == "proved"
    def quotient_is(self, name, term, ms=5000):
        """lemma: a division performed by the code yields this term (tried for each division; only used where it is proved)"""
        return any([self.lemma(name, q == term, ms) for q in self.E.quots])
    def cover(self, name, cond=TRUE): self.E.cover(name, cond=cond)
    def on_throws(self, fnc):
        """fnc(ety, val) evaluated in each exceptional exit state"""
        save = self.E.st
        for st, ety, val in self.throws:
            self.E.st = st; fnc(ety, val)
        self.E.st = save
    def at(self, st):
        J_ = self
        class C:
            def __enter__(s): s.o = J_.E.st; J_.E.st = st; return J_
            def __exit__(s, *a): J_.E.st = s.o
        return C()
    def in_ok(self, e): return True

def exname(ety): return ety if isinstance(ety, str) else (ety.name or ety.s)
def ult(a, b): return z3.ULT(a, b)
def ule(a, b): return z3.ULE(a, b)
def ugt(a, b): return z3.UGT(a, b)
def uge(a, b): return z3.UGE(a, b)
