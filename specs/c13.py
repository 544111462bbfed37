"""C13: the queue of unacknowledged messages keeps order, count and byte size.
rank is the moment a message was queued (ghost); next leads to a newer message, only the newest has no next and only the oldest no
prev, so (finitely many messages) walking next from the oldest meets all of them, each once, in the order they were queued."""
from fvc.spec import *
from fvc.engine import MIter
spec = Spec("C13", ["qospacketqueue.cpp", "types.cpp", "publishcopyfactory.cpp"], harness="c13.cpp", harness_secs=10, trusted=["callers queue under identifiers that are not in use (C12)"])
rank = z3.Function("rank", RefS, z3.IntSort()); X = z3.Const("X", RefS); Kany = z3.BitVec("Kany", 16)
class Q:
    """the queue as it is in the current state"""
    def __init__(q, J, this): q.J, q.this = J, this; q.sh = J.ty("QueuedPublish"); q.v = J.E.load(this.fld("queue")).lv; q.head, q.tail, q.bytes = [J.E.load(this.fld(x)).lv[0] for x in ("head", "tail", "qosQueueBytes")]; q.dom = q.v[1]; q.obj = q.v[2]
    def n(q, r): return q.J.E.obj(r, q.sh)
    def f(q, r, *ns): return q.J.f(q.n(r), *ns)
    def prev(q, r): return q.f(r, "prev")
    def next(q, r): return q.f(r, "next")
    def pid(q, r): return q.f(r, "packet_id")
    def IN(q, r): k = q.pid(r); return z3.And(r != null, z3.Select(q.dom, k), z3.Select(q.obj, k) == r)
    def foot(q, r): return slen(q.f(r, "publish", "topic")) + slen(q.f(r, "publish", "payload"))
    def parts(q, x):
        p, n = q.prev(x), q.next(x); i = q.IN(x); al = z3.Select(q.J.E.st.hmap("#alive", z3.BoolSort()), x)
        side = lambda w, e, y, back, newer: [("only the %s message has none %s" % (e[0], w), z3.Implies(i, (y == null) == (e[1] == x)))] + [("the one %s a queued message %s" % (w, t), z3.Implies(z3.And(i, y != null), g)) for t, g in (("is queued", q.IN(y)), ("leads back to it", back(y) == x), ("was queued %s it" % w, newer(y)))]
        return side("before", ("oldest", q.tail), p, q.next, lambda y: rank(x) > rank(y)) + side("after", ("newest", q.head), n, q.prev, lambda y: rank(y) > rank(x)) + [
                ("owned", z3.Implies(i, al))]
    def ends(q): return [("the ends of the list are queued messages", z3.And(z3.Implies(q.head != null, q.IN(q.head)), z3.Implies(q.tail != null, q.IN(q.tail)), (q.head == null) == (q.tail == null)))]
    def keyed(q, k): return [("every identifier leads to the message with it", z3.Implies(z3.Select(q.dom, k), z3.And(z3.Select(q.obj, k) != null, q.pid(z3.Select(q.obj, k)) == k)))]
def inv(q, *nodes):
    al = [X] + list(nodes); al += [q.prev(x) for x in al] + [q.next(x) for x in al]; al += [q.tail, q.head]
    return z3.And([z3.Implies(x != null, age(x) <= 0) for x in al + [z3.Select(q.obj, Kany)]] + [f for x in al for _, f in q.parts(x)] + [f for _, f in q.ends()] + [f for _, f in q.keyed(Kany)])
def J_inv(J, q): [J.post(n, f) for n, f in q.parts(X) + q.ends() + q.keyed(Kany)]
def setup(J):
    this = J.this("QoSPublishQueue"); E = J.E; E.opaque_keeps = "x"; q = Q(J, this); J.assume(z3.And(q.bytes >= 0, q.bytes < bv(1 << 61), ult(q.v[0], bv(65536)))); return this, E, q
def added(J, this, q, id, foot, t0):
    r = Q(J, this); nw = z3.Select(r.obj, id); J.post("under its identifier", z3.And(z3.Select(r.dom, id), nw != null, r.pid(nw) == id)); J.assume(z3.And(rank(nw) > rank(X), rank(nw) > rank(q.head))); J_inv(J, r); J.post("the newest", r.head == nw)
    J.post("the others as they were", z3.Implies(Kany != id, z3.And(z3.Select(r.dom, Kany) == z3.Select(q.dom, Kany), z3.Select(r.obj, Kany) == z3.Select(q.obj, Kany)))); J.post("one more", r.v[0] == q.v[0] + 1); J.post("byte size", z3.And(r.bytes == q.bytes + r.foot(nw)))
    J.post("the others stay where they were", z3.Implies(z3.And(X != nw, X != null), z3.And(r.prev(X) == t0[0], z3.Implies(X != q.head, r.next(X) == t0[1])))); return r, nw
def queue(J, f, this, a, id, q, t):
    E = J.E; J.ghost("exp", null); E.contracts["QoSPublishQueue::addToExpirationQueue"] = lambda E, c: J.ghost("exp", E.load(c.args[0]).lv[0]); t0 = q.prev(X), q.next(X); J.run(f, this, a); r, nw = added(J, this, q, id, None, t0)
    J.post("the message", z3.And(E.str_eq(r.f(nw, "publish", "topic"), t[0]), E.str_eq(r.f(nw, "publish", "payload"), t[1]))); J.post("listed to expire", J.ghost("exp") == nw); J.cover("after others", q.head != null)
@spec.job("QoSPublishQueue::queuePublish from publish")
def _(J):
    this, E, q = setup(J); f = J.fn("QoSPublishQueue::queuePublish", ["Publish", "", ""]); a = J.args(f); pub = a[0]; id = J.val(a[1]).t; t = J.f(pub, "topic"), J.f(pub, "payload"); J.assume(z3.And(id != 0, z3.Not(z3.Select(q.dom, id)), ule(slen(t[0]), bv(65535)), ule(slen(t[1]), bv(1 << 40)))); J.assume(inv(q)); queue(J, f, this, a, id, q, t)

@spec.job("QoSPublishQueue::queuePublish from factory")
def _(J):
    this, E, q = setup(J); f = J.fn("QoSPublishQueue::queuePublish", [""] * 6); a = J.args(f); id = J.val(a[1]).t; t = z3.Const("topic", StrS), z3.Const("payload", StrS); J.assume(z3.And(id != 0, z3.Not(z3.Select(q.dom, id)), ule(slen(t[0]), bv(65535)), ule(slen(t[1]), bv(1 << 40)))); J.assume(inv(q))
    def new(E, c): v = E.fresh_val(shape_of(c.ret), "pub"); E.assume(z3.And(*[v.lv[v.sh.fields[n][0]] == x for n, x in zip(("topic", "payload"), t)])); return v
    E.contracts["PublishCopyFactory::getNewPublish"] = new; queue(J, f, this, a, id, q, t)
def removed(J, this, q, n, id, o, pre=True):
    """n (under id) is gone, all others are there as before, and follow each other as before; o: prev and next of n and X before"""
    r = Q(J, this); np, nn, xp, xn = o[:4]; J.post("no longer under its identifier", z3.Not(z3.Select(r.dom, id))); J.post("one less", r.v[0] == q.v[0] - 1)
    J.post("the others as they were", z3.Implies(Kany != id, z3.And(z3.Select(r.dom, Kany) == z3.Select(q.dom, Kany), z3.Select(r.obj, Kany) == z3.Select(q.obj, Kany))))
    J.post("the others follow each other as before", z3.Implies(z3.And(q.IN(X), X != n), z3.And(r.prev(X) == z3.If(xp == n, np, xp), r.next(X) == z3.If(xn == n, nn, xn)))); J.post("oldest", r.tail == z3.If(q.tail == n, nn, q.tail)); J.post("newest", r.head == z3.If(q.head == n, np, q.head))
    J.post("identifiers untouched", z3.Implies(z3.And(X != null, X != n), r.pid(X) == o[4])); return r
@spec.job("the list stays consistent when one message is taken out")
def _(J):
    """from the postconditions of eraseFromMapAndRelinkList alone"""
    F = lambda n, s=RefS: z3.Function(n, RefS, s); B = z3.BoolSort(); pr, nx, IN0 = F("prev"), F("next"), F("queued", B); n, h, t = z3.Consts("n head tail", RefS)
    def parts(IN, pr, nx, h, t, x): p, m = pr(x), nx(x); return [z3.Implies(IN(x), (p == null) == (t == x)), z3.Implies(z3.And(IN(x), p != null), z3.And(IN(p), nx(p) == x, rank(x) > rank(p))), z3.Implies(IN(x), (m == null) == (h == x)), z3.Implies(z3.And(IN(x), m != null), z3.And(IN(m), pr(m) == x, rank(m) > rank(x)))]
    ends = lambda IN, h, t: z3.And(z3.Implies(h != null, IN(h)), z3.Implies(t != null, IN(t)), (h == null) == (t == null))
    IN1 = lambda x: z3.And(IN0(x), x != n); pr1 = lambda x: z3.If(pr(x) == n, pr(n), pr(x)); nx1 = lambda x: z3.If(nx(x) == n, nx(n), nx(x)); h1 = z3.If(h == n, pr(n), h); t1 = z3.If(t == n, nx(n), t)
    al = [n, X, h, t]; al += [pr(x) for x in al] + [nx(x) for x in al]; J.assume(z3.And([f for x in al for f in parts(IN0, pr, nx, h, t, x)] + [ends(IN0, h, t), IN0(n), z3.Not(IN0(null))]))
    for nm, f in zip(("only the oldest has none before it", "the one before it is queued, earlier, and leads back to it", "only the newest has none after it", "the one after it is queued, later, and leads back to it"), parts(IN1, pr1, nx1, h1, t1, X)): J.post(nm, f)
    J.post("the ends of the list are queued messages", ends(IN1, h1, t1))
def one(J, q):
    id = z3.BitVec("id", 16); n = z3.Select(q.obj, id); J.assume(inv(q, n)); J.assume(z3.Implies(z3.Select(q.dom, id), q.IN(n))); return id, n
def olds(q, n): return q.prev(n), q.next(n), q.prev(X), q.next(X), q.pid(X)
@spec.job("QoSPublishQueue::eraseFromMapAndRelinkList")
def _(J):
    this, E, q = setup(J); f = J.fn("QoSPublishQueue::eraseFromMapAndRelinkList"); id, n = one(J, q); o = olds(q, n); J.assume(z3.Select(q.dom, id)); it = Val(shape_of(f.params[0]["t"]), [MIter(this.fld("queue"), q.dom, q.v[0], id, FALSE)]); J.cover("in the middle", z3.And(o[0] != null, o[1] != null))
    J.run(f, this, [it]); r = removed(J, this, q, n, id, o); J.post("byte size untouched", r.bytes == q.bytes)
def unlink(J, this, q0):
    """contract of eraseFromMapAndRelinkList: its effect on the identifiers; the list is proved above"""
    def h(E, c):
        it = E.rv(c.args[0]).lv[0]; v = E.load(this.fld("queue")); E.prove("a queued message is removed", z3.And(z3.Not(it.end) if not isinstance(it.end, bool) else z3.BoolVal(not it.end), z3.Select(v.lv[1], it.key)), "call"); J.ghost("gone", it.key); J.ghost("times", J.ghost("times") + 1)
        E.store(this.fld("queue"), Val(v.sh, [v.lv[0] - 1, z3.Store(v.lv[1], it.key, FALSE)] + v.lv[2:]))
    J.E.contracts["QoSPublishQueue::eraseFromMapAndRelinkList"] = h; J.ghost("gone", bv(0, 16)); J.ghost("times", bv(0, 32))
@spec.job("QoSPublishQueue::erase")
def _(J):
    this, E, q = setup(J); f = J.fn("QoSPublishQueue::erase"); id, n = one(J, q); isin = z3.Select(q.dom, id); foot = q.foot(n); J.assume(z3.Implies(isin, z3.And(ule(slen(q.f(n, "publish", "topic")), bv(65535)), ule(slen(q.f(n, "publish", "payload")), bv(1 << 40)), ule(foot, q.bytes)))); unlink(J, this, q); a = J.args(f); J.assume(J.val(a[0]).t == id)
    r = J.run(f, this, a).t; z = Q(J, this); J.post("whether there was one", r == isin); J.post("removed exactly that one", z3.And(J.ghost("times") == z3.If(isin, bv(1, 32), bv(0, 32)), z3.Implies(isin, J.ghost("gone") == id))); J.post("byte size", z.bytes == z3.If(isin, q.bytes - foot, q.bytes)); J.cover("one", r)
for m, what, get in (("size", "count", lambda q: q.v[0]), ("getByteSize", "bytes", lambda q: q.bytes)):
    @spec.job("QoSPublishQueue::" + m)
    def _(J, m=m, what=what, get=get): this, E, q = setup(J); J.post(what, J.run("QoSPublishQueue::" + m, this, []).t == get(q))
@spec.job("QoSPublishQueue::getTail")
def _(J): this, E, q = setup(J); r = J.run("QoSPublishQueue::getTail", this, []); J.post("the oldest", E.load(r).lv[0] == q.tail)
@spec.job("QueuedPublish::getPacketId")
def _(J): this = J.this("QueuedPublish"); J.post("its identifier", J.run("QueuedPublish::getPacketId", this, []).t == J.f(this, "packet_id"))
@spec.job("QoSPublishQueue::addToExpirationQueue")
def _(J):
    this, E, q = setup(J); f = J.fn("QoSPublishQueue::addToExpirationQueue"); a = J.args(f); qp = E.load(a[0]).lv[0]; J.ghost("n", bv(0, 32)); T = z3.BitVec("due", 64); has = z3.Bool("expires")
    def at(E, c): v = E.fresh_val(shape_of(c.ret), "at"); E.assume(z3.And(v.lv[0] == has, v.lv[1] == T)); return v
    E.contracts["Publish::expiresAt"] = at; E.contracts["PublishBase::expiresAt"] = at
    J.assume(E.load(q.n(qp).fld("publish").fld("expireInfo")).lv[0] == has)
    def put(E, c): E.prove("at the second its time is up", z3.And(E.rv(c.args[0]).lv[0] == T / bv(1000000000), E.rv(c.args[1]).lv[0] == qp), "call"); J.ghost("n", J.ghost("n") + 1); return E.fresh_result(c.ret, "r")
    E.contracts["std::multimap<std::chrono::time_point<std::chrono::steady_clock, std::chrono::duration<long>>, std::weak_ptr<QueuedPublish>>::emplace"] = put; J.run(f, this, a); J.post("once, if it expires", J.ghost("n") == z3.If(z3.And(qp != null, has), bv(1, 32), bv(0, 32)))
@spec.job("QoSPublishQueue::clearExpiredMessages")
def _(J):
    this, E, q = setup(J); f = J.fn("QoSPublishQueue::clearExpiredMessages"); unlink(J, this, q); any = z3.BitVec("any", 64); J.ghost("started", FALSE); J.ghost("t0", bv(0)); J.ghost("sub", null); foot = z3.Function("footprint", RefS, I64); E.age_idx = [any]
    J.assume(z3.And(J.E.load(this.fld("queueExpirations")).lv[0] < bv(1 << 40)))
    old = E.models["std::chrono::steady_clock::now"] if "std::chrono::steady_clock::now" in E.models else None; E.models = dict(E.models)
    def now(c): v = old(c); J.ghost("t0", z3.If(J.ghost("started"), J.ghost("t0"), v.lv[0])); J.ghost("started", TRUE); J.ghost("now", v.lv[0]); return v
    E.models["std::chrono::steady_clock::now"] = now; J.ghost("now", bv(0))
    def sub(E, c): J.ghost("sub", E.rv(c.args[0]).lv[0])
    E.contracts["QoSPublishQueue::subtractQoSBytes"] = sub; un = E.contracts["QoSPublishQueue::eraseFromMapAndRelinkList"]
    def rel(E, c): it = E.rv(c.args[0]).lv[0]; v = E.load(this.fld("queue")); E.prove("its size is taken off", J.ghost("sub") == z3.Select(v.lv[2], it.key), "call"); E.prove("only what is due", z3.And(J.ghost("due"), J.ghost("ent") == z3.Select(v.lv[2], it.key)), "call"); return un(E, c)
    E.contracts["QoSPublishQueue::eraseFromMapAndRelinkList"] = rel; J.ghost("due", FALSE); J.ghost("ent", null); er = E.models["seq::erase"]
    def erase(c):
        it = c.v(0).lv[0]; v = E.load(c.this); J.ghost("ent", z3.Select(v.lv[2], it.idx)); J.ghost("due", z3.Select(v.lv[1], it.idx) * bv(1000000000) <= J.ghost("now")); E.prove("only what is due is taken from the schedule", J.ghost("due"), "call"); return er(c)
    E.models["seq::erase"] = erase;
    E.loop_specs.append(lambda E, ctx: [("time goes on", J.ghost("t0") <= E.st.gh["now.steady"].lv[0]), ("the clock was read", J.ghost("started"))] + [("reported so far", reported(v)) for v in E.st.L.values() if isinstance(v, Val) and v.sh.kind == "vec" and len(v.lv) == 2 and v.lv[1].sort().range() == z3.BitVecSort(16)])
    reported = lambda v: z3.And(v.lv[0] == resize(J.ghost("times"), 64, False), z3.Implies(v.lv[0] != 0, z3.Select(v.lv[1], v.lv[0] - 1) == J.ghost("gone"))); J.assume(ult(q.v[0], bv(65536)))
    r = J.run(f, this, []); v = E.load(this.fld("queueExpirations")); at = lambda i: z3.Select(v.lv[1], i); J.assume(z3.Implies(ult(any, v.lv[0]), at(bv(0)) <= at(any)))   # std::multimap keeps its entries in order of their keys
    J.assume(z3.And(*[z3.And(at(x) >= 0, at(x) <= bv(1 << 33)) for x in (any, bv(0))])); ml = z3.Function("seconds", I64, I64); x, y = z3.BitVecs("x y", 64); J.lemma("later seconds are later", z3.Implies(z3.And(x >= 0, y <= bv(1 << 33), x <= y), x * bv(1000000000) <= y * bv(1000000000))); E.assume(z3.Implies(at(bv(0)) <= at(any), at(bv(0)) * bv(1000000000) <= at(any) * bv(1000000000))); J.post("nothing that was due stays scheduled", z3.Implies(ult(any, v.lv[0]), at(any) * bv(1000000000) > J.ghost("t0"))); J.post("every removed identifier is reported", reported(r)); J.cover("some wait", v.lv[0] != 0)
