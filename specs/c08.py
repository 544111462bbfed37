"""C08: a message reaches exactly the matching subscriptions."""
from fvc.spec import *
from route_c import *
from fvc.engine import SIter
spec = Spec("C08", ["subscriptionstore.cpp", "subscription.cpp", "sharedsubscribers.cpp", "types.cpp", "session.cpp", "publishcopyfactory.cpp"], harness="c08.cpp", harness_secs=10, trusted=["null children are never stored in the subscription tree (established by getDeepestNode, C09)", "the subscription tree is a tree: a node has one parent"])
@spec.job("SubscriptionStore::publishNonRecursively", houdini_ms=60)
def _(J): pub_nr(J, ("C08",))
@spec.job("SubscriptionStore::queuePacketAtSubscribers")
def _(J): queue_at(J)
CNT = z3.Function("visits", RefS, I64, z3.BitVecSort(32))
one = lambda c: z3.If(c, bv(1, 32), bv(0, 32))
@spec.job("SubscriptionStore::publishRecursively")
def _(J):
    """visits(node, i): how often the subscriptions of an arbitrary node x are offered the message when the levels from i on are
    matched below node - the MQTT rule in tree form; the recursive calls are replaced by this contract"""
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::publishRecursively"); E = J.E; levels = E.temp(J.sym(J.fn("SubscriptionStore::setRetainedMessage").params[1]["t"].noref(), "levels")); ps = f.params; a = J.args(f, **{ps[i]["n"]: Val(shape_of(ps[i]["t"]), [SIter(levels, z3.BitVec("it%d" % i, 64))]) for i in (0, 1)}); T = J.ty("SubscriptionNode"); x = z3.Const("x", RefS); J.ghost("n", bv(0, 32)); cur, end = a[0].lv[0], a[1].lv[0]; node = a[2].lv[0]
    vec = cur.loc; n = E.load(vec).lv[0]; s = E.load(vec).lv[1]; i0 = cur.idx; J.assume(z3.And(ule(n, bv(1 << 40)), ule(i0, n), end.idx == n)); ob = E.obj(node, T); pound, plus = J.f(ob, "childrenPound"), J.f(ob, "childrenPlus"); m = E.load(ob.fld("children")); lvl = z3.Select(s, i0); h, c = z3.Select(m.lv[1], lvl), z3.Select(m.lv[2], lvl); J.assume(z3.Implies(m.lv[0] == 0, z3.Not(h))); J.assume(z3.Implies(h, c != null)); J.assume(z3.Implies(i0 != n, node != null))
    hash_ = one(z3.And(pound != null, pound == x)); J.assume(CNT(node, i0) == z3.If(i0 == n, z3.If(node == null, bv(0, 32), one(node == x) + hash_), hash_ + z3.If(plus != null, CNT(plus, i0 + 1), bv(0, 32)) + z3.If(h, CNT(c, i0 + 1), bv(0, 32)))); rest = lambda c, k: z3.BoolVal(all(loc_eq(y, z) for y, z in zip(c.args[k:], a[3:])))
    def offer(E, c): r = E.rv(c.args[0]).lv[0]; E.prove("an existing node", r != null, "call"); E.prove("the same list and publisher", rest(c, 1), "call"); J.ghost("n", J.ghost("n") + one(r == x))
    def rec(E, c):
        i, e, r = E.rv(c.args[0]).lv[0], E.rv(c.args[1]).lv[0], E.rv(c.args[2]).lv[0]; E.prove("the remaining levels of the same topic", z3.And(z3.BoolVal(loc_eq(i.loc, vec)), e.idx == n, ule(i.idx, n)), "call"); E.prove("an existing node", z3.Implies(i.idx != n, r != null), "call"); E.prove("the same list and publisher", rest(c, 3), "call"); J.ghost("n", J.ghost("n") + CNT(r, i.idx))
    E.contracts["SubscriptionStore::publishNonRecursively"] = offer; E.contracts[f.qn] = rec; ok, r = J.run_any(f, this, a)
    J.post("every node is offered the message exactly as often as the rule says", z3.And(z3.BoolVal(ok), J.ghost("n") == CNT(node, i0)))
@spec.job("the tree form of the rule is the MQTT matching rule (induction step)")
def _(J):
    """x stands at the end of filter F (m levels) below the root: path P[0..m]; M is the rule of the standard on levels"""
    x = z3.Const("x", RefS); F, Tp = z3.Consts("F T", z3.ArraySort(I64, StrS)); P = z3.Const("P", z3.ArraySort(I64, RefS)); m, n, i, j = z3.BitVecs("m n i j", 64); pound, plus = z3.Function("pound", RefS, RefS), z3.Function("plus", RefS, RefS); has, kid = z3.Function("has", RefS, StrS, z3.BoolSort()), z3.Function("kid", RefS, StrS, RefS); M = z3.Function("matches", I64, I64, z3.BoolSort()); IN = z3.Function("x_below", RefS, z3.BoolSort()); H, PL = str_lit(b"#"), str_lit(b"+")
    def eqn(y, j): h = one(z3.And(pound(y) != null, pound(y) == x)); return CNT(y, j) == z3.If(j == n, z3.If(y == null, bv(0, 32), one(y == x) + h), h + z3.If(plus(y) != null, CNT(plus(y), j + 1), bv(0, 32)) + z3.If(has(y, z3.Select(Tp, j)), CNT(kid(y, z3.Select(Tp, j)), j + 1), bv(0, 32)))
    def rule(i, j): f = z3.Select(F, i); return M(i, j) == z3.If(i == m, j == n, z3.If(f == H, i == m - 1, z3.If(j == n, FALSE, z3.And(z3.Or(f == PL, f == z3.Select(Tp, j)), M(i + 1, j + 1)))))
    y, p, q = z3.Select(P, i), z3.Select(P, i + 1), z3.Select(F, i); t = z3.Select(Tp, j); J.assume(z3.And(ule(m, bv(1 << 40)), ule(n, bv(1 << 40)), ule(i, m), ule(j, n), H != PL)); zero = lambda c: CNT(c, j + 1) == 0
    legal = z3.And(z3.Implies(z3.And(ult(i, m), q == H), i == m - 1), z3.Implies(ult(j, n), z3.And(t != H, t != PL)))
    tree = z3.And(x != null, y != null, (y == x) == (i == m), z3.Implies(ult(i, m), z3.And(p != null, z3.If(q == H, pound(y) == p, z3.If(q == PL, plus(y) == p, z3.And(has(y, q), kid(y, q) == p))), (p == x) == (i + 1 == m))), z3.Implies(z3.And(pound(y) == x), z3.And(ult(i, m), q == H)))
    J.ghost("z", bv(0)); off = z3.And(z3.Implies(z3.Or(i == m, q != PL), zero(plus(y))), z3.Implies(z3.Or(i == m, q != t), zero(kid(y, t)))); IH = z3.Implies(z3.And(ult(i, m), ult(j, n)), CNT(p, j + 1) == one(M(i + 1, j + 1)))
    J.post("a filter is visited once if it matches and not at all otherwise", z3.Implies(z3.And(legal, tree, off, IH, eqn(y, j), rule(i, j)), CNT(y, j) == one(M(i, j))), "lemma")
    w = z3.Const("w", RefS); out = lambda r: z3.Implies(z3.Not(IN(r)), CNT(r, j + 1) == 0); closed = z3.Implies(z3.Not(IN(w)), z3.And(w != x, pound(w) != x, z3.Not(IN(plus(w))), z3.Not(IN(kid(w, t)))))
    J.post("subtrees without x are never visited for it", z3.Implies(z3.And(z3.Not(IN(w)), closed, x != null, out(plus(w)), out(kid(w, t)), eqn(w, j)), CNT(w, j) == 0), "lemma")
