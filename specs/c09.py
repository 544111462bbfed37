"""C09: subscribing and unsubscribing change exactly the named subscription."""
from fvc.spec import *
from fvc.engine import SIter
spec = Spec("C09", ["subscriptionstore.cpp", "subscription.cpp", "sharedsubscribers.cpp", "types.cpp", "session.cpp"], harness="c09.cpp", harness_secs=10, trusted=["session expiry between two steps of one operation is not considered"])
FN = ("qos", "noLocal", "retainAsPublished", "subscriptionIdentifier")
class Node:
    def __init__(self, J, o):
        self.J, self.E, self.o = J, J.E, o; self.subs, self.shared = o.fld("subscribers"), o.fld("sharedSubscribers")
    def el(self, k): m = self.subs; return z3.Select(self.E.load(m).lv[1], k), m.ext(("k", k), m.sh.elem)
    def vals(self, l): return [self.J.f(l, "session")] + [self.J.f(l, n) for n in FN]
    def sub(self, k): h, l = self.el(k); return [h] + self.vals(l)
    def grp(self, s): m = self.shared; return z3.Select(self.E.load(m).lv[1], s), m.ext(("k", s), m.sh.elem)
    def slot(self, s, k): h, g = self.grp(s); i = self.E.load(g.fld("index")); return z3.And(h, z3.Select(i.lv[1], k)), z3.Select(i.lv[2], k), g
    def member(self, s, k):
        """subscription of client k in share s"""
        h, i, g = self.slot(s, k); m = g.fld("members"); return [h] + self.vals(m.ext(("i", resize(i, 64, True)), m.sh.elem))
    def wf(self, s, k, k2):
        h, i, g = self.slot(s, k); h2, i2, g = self.slot(s, k2); n = self.E.load(g.fld("members")).lv[0]; i64 = resize(i, 64, True); return z3.And(ule(n, bv((1 << 30) + 1)), z3.Implies(h, z3.And(i >= 0, ult(i64, n))), z3.Implies(z3.And(h, h2, k != k2), i != i2))
def small(N, *shares): return z3.And(*[ule(N.E.load(N.grp(s)[1].fld("members")).lv[0], bv(1 << 30)) for s in shares])
def eqs(a, b): return z3.And(a[0] == b[0], z3.Implies(a[0], z3.And(*[x == y for x, y in zip(a[1:], b[1:])])))
def setup(J, fname):
    o = J.this("SubscriptionNode"); f = J.fn(fname); a = J.args(f); N = Node(J, o); E = J.E; E.opaque_keeps = "locks and clock"; ses = E.load(a[0]).lv[0]; T = J.ty("Session"); cid = J.f(E.obj(ses, T), "client_id"); k, s = z3.Consts("other_client other_share", StrS); return o, f, a, N, E, ses, cid, k, s
@spec.job("SubscriptionNode::addSubscriber")
def _(J):
    o, f, a, N, E, ses, cid, k, s = setup(J, "SubscriptionNode::addSubscriber"); share = J.val(a[4]).t; direct = slen(share) == 0; J.assume(z3.And(*[N.wf(x, y, z) for x in (share, s) for y, z in ((cid, k), (k, cid))])); J.assume(small(N, share, s)); before = [N.sub(k), N.member(s, k), N.sub(cid), N.member(s, cid), N.member(share, cid)]; alive = lambda r: z3.And(r != null, z3.Select(E.st.hmap("#alive", z3.BoolSort()), r)); g0 = N.grp(share)[0]
    ok, r = J.run_any(f, o, a)
    if not ok: return
    given = [TRUE, ses, a[1].t, a[2].t, a[3].t, a[5].t]; J.post("the subscription is there with the options given", z3.Implies(ses != null, z3.If(direct, eqs(N.sub(cid), given), eqs(N.member(share, cid), given)))); J.cover("shared", z3.And(ses != null, z3.Not(direct)))
    J.post("no other client's subscription on this filter changes", z3.Implies(z3.Or(k != cid, z3.Not(direct), ses == null), eqs(N.sub(k), before[0]))); J.post("no other member of any share changes", z3.Implies(z3.Or(k != cid, s != share, direct, ses == null), eqs(N.member(s, k), before[1])))
    old = z3.If(direct, z3.And(before[2][0], alive(before[2][1])), z3.And(before[4][0], alive(before[4][1]))); J.post("reported as new exactly when the client had none there", z3.Implies(ses != null, r.t == z3.If(old, bv(2, r.t.size()), bv(1, r.t.size()))))
    J.post("slots stay separate and inside", N.wf(share, cid, k))
@spec.job("SubscriptionNode::removeSubscriber")
def _(J):
    o, f, a, N, E, ses, cid, k, s = setup(J, "SubscriptionNode::removeSubscriber"); J.assume(ses != null); share = J.val(a[1]).t; direct = slen(share) == 0; J.assume(z3.And(*[N.wf(x, y, z) for x in (share, s) for y, z in ((cid, k), (k, cid))])); J.assume(small(N, share, s)); before = [N.sub(k), N.member(s, k), N.sub(cid)]
    ok, r = J.run_any(f, o, a); J.post("does not fail", z3.BoolVal(ok)); J.post("the client's subscription is gone", z3.If(direct, z3.Not(N.sub(cid)[0]), z3.Implies(N.member(share, cid)[0], N.member(share, cid)[1] == null)))
    J.post("no other client's subscription on this filter changes", z3.Implies(z3.Or(k != cid, z3.Not(direct)), eqs(N.sub(k), before[0]))); J.post("no other member of any share changes", z3.Implies(z3.Or(k != cid, s != share, direct), eqs(N.member(s, k), before[1])))
def same(a, b): return z3.BoolVal(isinstance(a, Loc) and loc_eq(a, b))
@spec.job("SubscriptionStore::addSubscription")
def _(J):
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::addSubscription"); a = J.args(f); E = J.E; J.ghost("n", bv(0, 32)); node = z3.Const("node", RefS); E.contracts["SubscriptionStore::getDeepestNode"] = lambda E, c: (E.prove("the node of exactly this filter, made when missing", z3.And(same(c.args[0], a[1]), z3.Not(E.rv(c.args[1]).t) if c.n > 1 else TRUE), "call"), Val(shape_of(c.ret), [node]))[1]; ses = E.load(a[0]).lv[0]
    def add(E, c): E.prove("in that node, with all options given", z3.And(c.this.root[1] == node, E.load(c.args[0]).lv[0] == ses, *[E.rv(c.args[i]).t == E.rv(a[i + 1]).t for i in (1, 2, 3, 5)], E.str_eq(E.rv(c.args[4]).t, E.rv(a[5]).t), J.ghost("n") == 0), "call"); J.ghost("n", bv(1, 32)); r = E.fresh_val(shape_of(c.ret), "type"); J.ghost("r", r.t); return r
    J.ghost("r", bv(0, 32)); E.contracts["SubscriptionNode::addSubscriber"] = add; ok, r = J.run_any(f, this, a); J.post("subscribed", z3.Implies(z3.And(ses != null, node != null), J.ghost("n") == 1))
    if ok: J.post("and reported as the node says", z3.Implies(J.ghost("n") == 1, r.t == J.ghost("r")))
@spec.job("SubscriptionStore::removeSubscription")
def _(J):
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::removeSubscription"); a = J.args(f); E = J.E; J.ghost("n", bv(0, 32)); node = z3.Const("node", RefS); E.contracts["SubscriptionStore::getDeepestNode"] = lambda E, c: (E.prove("the node of exactly this filter, none is made", z3.And(same(c.args[0], a[1]), E.rv(c.args[1]).t if c.n > 1 else FALSE), "call"), Val(shape_of(c.ret), [node]))[1]; ses = E.load(a[0]).lv[0]
    def rem(E, c): E.prove("from that node", z3.And(c.this.root[1] == node, E.load(c.args[0]).lv[0] == ses, E.str_eq(E.rv(c.args[1]).t, E.rv(a[2]).t), J.ghost("n") == 0), "call"); J.ghost("n", bv(1, 32))
    E.contracts["SubscriptionNode::removeSubscriber"] = rem; ok, r = J.run_any(f, this, a); J.post("unsubscribed", z3.Implies(z3.And(ses != null, node != null), J.ghost("n") == 1))
@spec.job("SubscriptionStore::getDeepestNode", houdini_ms=300)
def _(J):
    """ghost path P: the node reached after each level"""
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::getDeepestNode"); a = J.args(f); E = J.E; E.opaque_keeps = "locks"; T = J.ty("SubscriptionNode"); lv = E.load(a[0]).lv; n, s = lv[0], lv[1]; any = z3.BitVec("any", 64); J.assume(ule(n, bv(65535))); s0 = z3.Select(s, bv(0)); dollar = z3.And(n != 0, slen(s0) != 0, sat(s0, bv(0)) == 36); root = z3.If(dollar, J.f(this, "rootDollar"), J.f(this, "root")); J.assume(z3.And(J.f(this, "rootDollar") != null, J.f(this, "root") != null)); abort = a[1].t
    H, PL = str_lit(b"#"), str_lit(b"+")
    def edge(r, l): ob = E.obj(r, T); m = E.load(ob.fld("children")); return z3.If(E.str_eq(l, H), J.f(ob, "childrenPound"), z3.If(E.str_eq(l, PL), J.f(ob, "childrenPlus"), z3.If(z3.Select(m.lv[1], l), z3.Select(m.lv[2], l), null)))
    J.ghost("P", z3.Store(z3.Const("path", z3.ArraySort(I64, RefS)), bv(0), root)); o = z3.Const("other", RefS); key, k, sh = z3.Consts("level client share", StrS); J.assume(z3.And(o != null, age(o) <= 0)); No = Node(J, E.obj(o, T)); e0 = edge(o, key); b0 = [No.sub(k), No.member(sh, k)]
    def frame(): e = edge(o, key); return z3.And(z3.If(e0 != null, e == e0, z3.Implies(abort, e == null)), eqs(No.sub(k), b0[0]), eqs(No.member(sh, k), b0[1]))
    def here(E):
        it = [v.lv[0] for v in E.st.L.values() if isinstance(v, Val) and len(v.lv) == 1 and isinstance(v.lv[0], SIter) and loc_eq(v.lv[0].loc, a[0])]; pn = [v for v in E.st.L.values() if isinstance(v, Val) and len(v.lv) == 1 and v.sh.kind == "ref" and isinstance(v.lv[0], (Loc, Choice)) and loc_sh(v.lv[0]).kind == "ref" and "SubscriptionNode" in repr(loc_sh(v.lv[0]))]
        return it, pn
    def step(E):
        it, pn = here(E)
        if it: d = it[0].idx - 1; P = J.ghost("P"); J.ghost("P", z3.If(ult(d, n), z3.Store(P, d + 1, edge(z3.Select(P, d), z3.Select(s, d))), P))
    E.loop_steps.append(step); path = lambda d: (lambda P: z3.Implies(ult(any, d), z3.And(edge(z3.Select(P, any), z3.Select(s, any)) == z3.Select(P, any + 1), z3.Select(P, any + 1) != null)))(J.ghost("P"))
    E.age_idx = [any]
    def gen(E, ctx):
        it, pn = here(E); out = [("other edges and all subscriptions stay", frame()), ("from the root", z3.Select(J.ghost("P"), bv(0)) == root)]
        if not it: return out
        d = it[0].idx; out += [("the levels walked so far", path(d)), ("not beyond the filter", ule(d, n)), ("on an existing node", z3.Select(J.ghost("P"), d) != null)]
        for v in pn: out.append(("at the node reached", E.load(v.lv[0]).lv[0] == z3.Select(J.ghost("P"), d)))
        return out
    E.loop_specs.append(gen); ok, r = J.run_any(f, this, a)
    if not ok: return
    r = E.rv(r).lv[0]; P = J.ghost("P"); J.post("the node of exactly this filter", z3.Implies(r != null, z3.And(z3.Select(P, bv(0)) == root, z3.Select(P, n) == r, path(n)))); J.post("other edges and all subscriptions stay", frame()); J.post("none only when asked not to make one", z3.Implies(r == null, abort)); J.cover("found", r != null)
