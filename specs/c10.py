"""C10: one present member of a shared group."""
from fvc.spec import *
from route_c import pub_nr
from fvc.engine import UREM
spec = Spec("C10", ["subscriptionstore.cpp", "subscription.cpp", "sharedsubscribers.cpp", "types.cpp", "session.cpp"], harness="c10.cpp", harness_secs=10, trusted=["std::unordered_map iteration visits each element once"])
@spec.job("SubscriptionStore::publishNonRecursively", houdini_ms=60)
def _(J): pub_nr(J, ("C10",))
class Group:
    def __init__(self, J):
        self.J = J; E = J.E; self.E = E; self.this = J.this("SharedSubscribers"); self.members, self.index = self.this.fld("members"), self.this.fld("index"); self.any = z3.BitVec("any", 64); J.assume(ule(self.n(), bv(1 << 31 - 1)))
    def n(self): return self.E.load(self.members).lv[0]
    def col(self, name): v = self.E.load(self.members); return v.lv[1 + v.sh.elem.fields[name][0]]
    def ses(self, i): return z3.Select(self.col("session"), i)
    def live(self, i): r = self.ses(i); return z3.And(r != null, z3.Select(self.E.st.hmap("#alive", z3.BoolSort()), r))
    def slot(self, k): v = self.E.load(self.index); return z3.Select(v.lv[1], k), z3.Select(v.lv[2], k)
    def wf(self, k, k2=None):
        """every indexed client has its own slot"""
        h, i = self.slot(k); c = [z3.Implies(h, z3.And(i >= 0, z3.ULT(resize(i, 64, True), self.n())))]
        if k2 is not None: h2, i2 = self.slot(k2); c.append(z3.Implies(z3.And(h, h2, k != k2), i != i2))
        return z3.And(*c)
LIM = 1 << 62
def rot(c, i, n, rem): r = rem(c, n); return z3.Implies(z3.And(z3.ULT(i, n), c >= 0, c < LIM, n < (1 << 31)), z3.And(rem(c + i, n) == z3.If(z3.ULT(r + i, n), r + i, r + i - n), z3.ULT(r, n)))
@spec.job("consecutive remainders visit every position (lemma)")
def _(J): c, i, n = z3.BitVecs("c i n", 64); J.assume(z3.And(c >= 0, c < LIM, n > 0, n < (1 << 31), i >= 0, i < n)); J.post("position after i steps", rot(c, i, n, z3.URem), "lemma")
def step_of(L, r, n): return z3.If(uge(L, r), L - r, L + n - r)
def there(L, r, n, j): return z3.Implies(z3.And(ult(L, n), ult(r, n), n < (1 << 31), n >= 0), z3.And(ult(j, n), z3.If(ult(r + j, n), r + j, r + j - n) == L))
@spec.job("each position is reached within one round (lemma)")
def _(J): L, r, n = z3.BitVecs("L r n", 64); J.post("the step at which a position is reached", there(L, r, n, step_of(L, r, n)), "lemma")
def select(J, f, counter=None):
    """an arbitrary member L that is present: when the loop ends without a choice it has been looked at"""
    g = Group(J); E = J.E; a = J.args(f); n = g.n(); L = g.any; E.abstract_rem = E.no_search = True; J.assume(ult(L, n)); c64 = lambda t: resize(t, 64, True)
    if counter: J.assume(z3.And(c64(J.f(g.this, counter)) >= 0, c64(J.f(g.this, counter)) < (1 << 62)))
    def gen(E, ctx):
        out = []; ms = [m for m in ctx.mods if isinstance(m.h, z3.BitVecRef) and m.h.size() in (32, 64)]; w = lambda t: resize(t, 64, True)
        for i in ms: out.append(("looked at the members before", z3.Implies(ult(L, w(i.h)), z3.Not(g.live(L)))))
        for c in ms:
            c0 = w(c.entry); r0 = UREM(64)(c0, n); j = z3.Function("step_to", I64, I64)(r0); E.assume(there(L, r0, n, j))
            for i in ms:
                if i is c: continue
                E.assume(rot(c0, w(i.h), n, UREM(64))); E.assume(z3.Implies(n != 0, ult(r0, n))); E.assume(z3.Implies(ult(c0, n), r0 == c0)); out.append(("in step", w(c.h) == c0 + w(i.h))); out.append(("looked at the members passed", z3.Implies(ult(j, w(i.h)), z3.Not(g.live(L)))))
        return out
    E.loop_specs.append(gen); m0 = [g.col("session"), n, g.live(L)]; ok, r = J.run_any(f, g.this, a); v = E.rv(r); nul = E.ptr_eq(v.lv[0], null)
    J.post("somebody is chosen when a member is present", z3.Implies(g.live(L), z3.Not(nul))); J.post("the one chosen is present", z3.Implies(z3.Not(nul), (lambda s: z3.And(s != null, z3.Select(E.st.hmap("#alive", z3.BoolSort()), s)))(J.f(E.deref(v), "session")))); J.post("the group is unchanged", z3.And(g.col("session") == m0[0], g.n() == m0[1])); J.cover("chosen", z3.Not(nul))
@spec.job("SharedSubscribers::getFirst")
def _(J): select(J, J.fn("SharedSubscribers::getFirst"))
@spec.job("SharedSubscribers::getNext()")
def _(J): select(J, [f for f in J.prog.byqn["SharedSubscribers::getNext"] if not f.params][0], "roundRobinCounter")
@spec.job("SharedSubscribers::getNext(hash)")
def _(J): select(J, [f for f in J.prog.byqn["SharedSubscribers::getNext"] if f.params][0])
def wf_args(J): g = Group(J); k, k2 = z3.Consts("key key2", StrS); J.assume(z3.And(g.wf(k, k2), g.wf(k2, k), ule(g.n(), bv(1 << 30)))); return g, k, k2
@spec.job("SharedSubscribers::operator[]")
def _(J):
    g, k, k2 = wf_args(J); E = J.E; f = J.fn("SharedSubscribers::operator[]"); a = J.args(f); c = J.val(a[0]).t; J.assume(z3.And(g.wf(c, k), g.wf(c, k2), g.wf(k, c))); any = g.any; n0 = g.n(); s0, hk = g.col("session"), g.slot(k); h0 = g.slot(c); ok, r = J.run_any(f, g.this, a)
    if not ok: return
    h, i = g.slot(c); h2, i2 = g.slot(k); J.post("the client has a slot", z3.And(h, z3.Implies(h0[0], z3.And(i == h0[1], g.n() == n0)), z3.Implies(z3.Not(h0[0]), z3.And(resize(i, 64, True) == n0, g.n() == n0 + 1))))
    J.post("that is the slot returned", J.f(r, "session") == g.ses(resize(i, 64, True))); J.post("nobody else's slot changes", z3.Implies(k != c, z3.And(h2 == hk[0], i2 == hk[1]))); J.post("no member changes", z3.Implies(ult(any, n0), g.ses(any) == z3.Select(s0, any))); J.post("slots stay separate and inside", z3.And(g.wf(k, k2), g.wf(c, k), g.wf(k, c))); J.cover("new", g.n() == n0 + 1)
    J.post("a new slot is empty", z3.Implies(z3.Not(h0[0]), g.ses(resize(i, 64, True)) == null))
@spec.job("SharedSubscribers::erase")
def _(J):
    g, k, k2 = wf_args(J); E = J.E; f = J.fn("SharedSubscribers::erase"); a = J.args(f); c = J.val(a[0]).t; J.assume(z3.And(g.wf(c, k), g.wf(c, k2))); any = g.any; n0 = g.n(); s0, hk, h0 = g.col("session"), g.slot(k), g.slot(c); ok, r = J.run_any(f, g.this, a); J.post("does not fail", z3.BoolVal(ok))
    J.post("the client's slot is empty", z3.Implies(h0[0], g.ses(resize(h0[1], 64, True)) == null)); J.post("no other member changes", z3.Implies(z3.And(ult(any, n0), z3.Not(z3.And(h0[0], resize(h0[1], 64, True) == any))), g.ses(any) == z3.Select(s0, any))); J.post("every slot stays where it is", z3.And(g.n() == n0, g.slot(k)[0] == hk[0], g.slot(k)[1] == hk[1])); J.cover("member", h0[0])
@spec.job("SharedSubscribers::purgeAndReIndex", houdini_ms=500)
def _(J):
    """for an arbitrary client k: keeps its session if that is present, is gone otherwise; positions are counted by the loop"""
    g, k, k2 = wf_args(J); E = J.E; f = J.fn("SharedSubscribers::purgeAndReIndex"); s0, hk = g.col("session"), g.slot(k); E.no_search = True; ses0 = lambda i: z3.Select(s0, i); alive = lambda r: z3.And(r != null, z3.Select(E.st.hmap("#alive", z3.BoolSort()), r)); J.assume(ule(E.load(g.index).lv[0], bv(1 << 30))); want = z3.And(hk[0], alive(ses0(resize(hk[1], 64, True))))
    keep = ses0(resize(hk[1], 64, True)); from_ = lambda: None
    def locals_(E):
        vec = [(kk, v) for kk, v in E.st.L.items() if isinstance(v, Val) and v.sh.kind == "vec" and "Subscription" in repr(v.sh)]; mp = [(kk, v) for kk, v in E.st.L.items() if isinstance(v, Val) and v.sh.kind == "map" and v.sh.key.kind == "str"]
        return vec, mp
    def gen(E, ctx):
        vec, mp = locals_(E); out = []
        if len(vec) != 1 or len(mp) != 1 or "dom" not in ctx.extra: return out
        v, m = vec[0][1], mp[0][1]; idx = E.load(ctx.extra["idx"]).t; pos = ctx.extra["mpos"](ctx.extra["dom"], k); so = 1 + v.sh.elem.fields["session"][0]; h, i = z3.Select(m.lv[1], k), z3.Select(m.lv[2], k); seen = z3.And(hk[0], ult(pos, idx))
        i64 = resize(i, 64, True); out.append(("the members kept so far", z3.And(h == z3.And(seen, want), z3.Implies(h, z3.And(i >= 0, ult(i64, v.lv[0]), z3.Select(v.lv[so], i64) == keep))))); out.append(("every one of them is present", z3.Implies(ult(g.any, v.lv[0]), alive(z3.Select(v.lv[so], g.any))))); out.append(("as many as visited at most", ule(v.lv[0], idx))); 
        h_, i_ = z3.Select(m.lv[1], k2), z3.Select(m.lv[2], k2); out += [("known positions", z3.Implies(h_, z3.And(i_ >= 0, ult(resize(i_, 64, True), v.lv[0])))), ("slots are separate", z3.Implies(z3.And(h, h_, k != k2), i != i_))]
        for c in ctx.ints(32): out.append(("the next position", resize(c.h, 64, True) == v.lv[0]))
        return out
    E.loop_specs.append(gen); ok, r = J.run_any(f, g.this, [])
    if not ok: return
    h, i = g.slot(k); J.post("exactly the present members stay indexed", h == want); J.post("with their subscription", z3.Implies(h, z3.And(i >= 0, ult(resize(i, 64, True), g.n()), g.ses(resize(i, 64, True)) == keep))); J.post("slots stay separate and inside", z3.And(g.wf(k, k2), g.wf(k2, k))); J.post("only present members remain", z3.Implies(ult(g.any, g.n()), alive(g.ses(g.any))))
