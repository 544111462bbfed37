"""C22: the retained store."""
from fvc.spec import *
spec = Spec("C22", ["subscriptionstore.cpp", "retainedmessage.cpp", "publishcopyfactory.cpp", "types.cpp", "threaddata.cpp"], harness="c22.cpp", harness_secs=10)
def tree(J, cls="RetainedMessageNode"):
    """contents of the node map: (present, child) of node r for level s"""
    E = J.E; t = J.ty(cls)
    def kid(r, s): m = E.load(E.obj(r, t).fld("children")); return z3.Select(m.lv[1], s), z3.Select(m.lv[2], r if False else s)
    return kid
def path(J, N, levels, any, kid, n):
    """the nodes N[0..n] are connected through the given levels"""
    h, c = kid(z3.Select(N, any), z3.Select(levels, any)); return z3.Implies(ult(any, n), z3.And(h, c == z3.Select(N, any + 1), c != null))
@spec.job("SubscriptionStore::setRetainedMessage", houdini_ms=60)
def _(J):
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::setRetainedMessage"); a = J.args(f); E = J.E; E.opaque_keeps = "locks, logging and limits do not touch the tree"; kid = tree(J); lv = E.load(a[1]).lv; n, s = lv[0], lv[1]; any = z3.BitVec("any", 64)
    J.assume(z3.And(uge(n, bv(1)), ule(n, bv(65535)))); J.pure("SubscriptionStore::setRetainedLimitReached", "ThreadGlobals::getSettings", "RWLockGuard::rdlock", "RWLockGuard::wrlock", "RWLockGuard::tryrdlock", "RWLockGuard::trywrlock", "recompose_topic", "RetainedMessageNode::propagateChildCountIncrement")
    s0 = z3.Select(s, bv(0)); dollar = z3.And(slen(s0) != 0, sat(s0, bv(0)) == 36); root = z3.If(dollar, J.f(this, "retainedMessagesRootDollar"), J.f(this, "retainedMessagesRoot")); J.assume(z3.And(J.f(this, "retainedMessagesRootDollar") != null, J.f(this, "retainedMessagesRoot") != null))
    N0 = z3.Store(z3.Const("path", z3.ArraySort(I64, RefS)), bv(0), root); J.ghost("N", N0); J.ghost("d", bv(0)); J.ghost("added", bv(0, 32)); J.ghost("diff", bv(0)); cnt = lambda: J.f(this, "retainedMessageCount"); c0 = cnt(); T = J.ty("RetainedMessageNode"); o, k = z3.Const("other", RefS), z3.Const("key", StrS); J.assume(z3.And(o != null, age(o) <= 0)); ko = kid(o, k); mo = J.f(E.obj(o, T), "message")
    def step(E):
        N, d = J.ghost("N"), J.ghost("d"); h, c = kid(z3.Select(N, d), z3.Select(s, d)); go = z3.And(h, c != null); J.ghost("N", z3.If(go, z3.Store(N, d + 1, c), N)); J.ghost("d", z3.If(go, d + 1, d))
    E.loop_steps.append(step); E.age_idx = [any]
    def frame(): h, c = kid(o, k); return z3.And(z3.Implies(z3.And(ko[0], ko[1] != null), z3.And(h, c == ko[1])), J.f(E.obj(o, T), "message") == mo)
    def gen(E, ctx):
        N, d = J.ghost("N"), J.ghost("d"); out = [("the levels walked so far", z3.And(z3.Select(N, bv(0)) == root, path(J, N, s, any, kid, d))), ("not beyond the topic", ule(d, n)), ("on an existing node", z3.Select(N, d) != null), ("other entries stay", frame()), ("nothing stored yet", z3.And(J.ghost("added") == 0, cnt() == c0))]
        for v in E.st.L.values():
            if isinstance(v, Val) and len(v.lv) == 1 and v.sh.kind == "ref" and isinstance(v.lv[0], (Loc, Choice)) and loc_sh(v.lv[0]).kind == "ref" and "RetainedMessageNode" in repr(loc_sh(v.lv[0])):  out.append(("at the node reached", E.load(v.lv[0]).lv[0] == z3.Select(N, d)))
            if isinstance(v, Val) and len(v.lv) == 1 and isinstance(v.lv[0], SIter): out.append(("as many levels as walked", v.lv[0].idx == d))
        return out
    E.loop_specs.append(gen)
    def add(E, c):
        N = J.ghost("N"); E.prove("stored in the node of exactly this topic", z3.And(J.ghost("d") == n, c.this.root[1] == z3.Select(N, n), z3.Select(N, bv(0)) == root, path(J, N, s, any, kid, n)), "call"); E.prove("once", J.ghost("added") == 0, "call"); E.prove("this message", z3.BoolVal(c.args[0] is a[0] or (isinstance(c.args[0], Loc) and c.args[0].root == a[0].root and c.args[0].path == a[0].path)), "call"); E.prove("nothing else is touched", frame(), "call"); r = E.fresh_val(shape_of(c.ret), "diff"); J.ghost("added", bv(1, 32)); J.ghost("diff", r.t); return r
    E.contracts["RetainedMessageNode::addPayload"] = add
    ok, r = J.run_any(f, this, a)
    if ok: J.cover("stored", J.ghost("added") == 1); J.post("the count follows", cnt() == c0 + J.ghost("diff")); J.post("reported as done when stored", z3.Implies(J.ghost("added") == 1, r.t)); J.post("other topics are untouched", frame())
@spec.job("RetainedMessageNode::addPayload")
def _(J):
    this = J.this("RetainedMessageNode"); f = J.fn("RetainedMessageNode::addPayload"); a = J.args(f); E = J.E; msg = lambda: J.f(this, "message"); m0 = msg(); J.ghost("set", bv(0, 32)); J.ghost("own", m0); J.ghost("time", FALSE); empty = slen(J.f(a[0], "payload")) == 0
    same = lambda x: z3.BoolVal(isinstance(x, Loc) and x.root == a[0].root and x.path == a[0].path)
    def put(E, c): E.prove("the new message replaces the stored one", z3.And(same(c.args[0]), J.ghost("set") == 0, c.this.root[1] == msg()), "call"); J.ghost("set", bv(1, 32)); return c.this
    def new(E, c): E.prove("the new message is stored", z3.And(same(c.args[0]), J.ghost("set") == 0), "call"); J.ghost("set", bv(1, 32)); J.ghost("own", c.this.root[1])
    E.contracts["RetainedMessage::operator="] = put; E.contracts["RetainedMessage::RetainedMessage"] = new
    ok, r = J.run_any(f, this, a); J.cover("stored", z3.Not(empty))
    if ok: J.post("an empty payload removes the message", z3.Implies(empty, z3.And(msg() == null, J.ghost("set") == 0))); J.post("otherwise the message is stored", z3.Implies(z3.Not(empty), z3.And(msg() != null, J.ghost("set") == 1, msg() == J.ghost("own")))); J.post("the difference in stored messages is reported", r.t == z3.If(msg() != null, bv(1), bv(0)) - z3.If(m0 != null, bv(1), bv(0)))
def stored(J, run):
    pass
def kept_message(J, f, this, a):
    """contents of the stored message after construction or assignment"""
    E = J.E; J.pure("ThreadGlobals::getSettings"); J.ghost("ceil", FALSE); lim = lambda: None; src = {n: J.f(a[0], n) for n in ("topic", "payload", "qos")}
    def ceil(E, c): E.prove("the stored copy gets the configured maximum age", z3.And(z3.Not(J.ghost("ceil")), z3.BoolVal(c.this.path[:1] == this.fld("publish").path[:1]), c.this.root[1] == this.root[1]), "call"); J.ghost("ceil", TRUE)
    E.contracts["Publish::setExpireAfterToCeiling"] = ceil; ok, r = J.run_any(f, this, a)
    if ok: J.post("topic, payload and QoS of the message", z3.And(E.str_eq(J.f(this, "publish", "topic"), src["topic"]), E.str_eq(J.f(this, "publish", "payload"), src["payload"]), J.f(this, "publish", "qos") == src["qos"])); J.post("marked as retained", J.f(this, "publish", "retain")); J.post("with the configured maximum age", J.ghost("ceil"))
@spec.job("RetainedMessage(const Publish&)")
def _(J): f = J.fn("RetainedMessage::RetainedMessage", ["Publish"]); kept_message(J, f, J.this("RetainedMessage"), J.args(f))
@spec.job("RetainedMessage::operator=")
def _(J): f = J.fn("RetainedMessage::operator=", ["Publish"]); kept_message(J, f, J.this("RetainedMessage"), J.args(f))
@spec.job("RetainedMessage::hasExpired")
def _(J):
    this = J.this("RetainedMessage"); E = J.E; px = z3.Bool("publish_expired"); age_ = z3.BitVec("age", 64); sets = J.this("Settings", "settings"); lim = J.f(sets, "expireRetainedMessagesAfterSeconds"); E.contracts["Publish::hasExpired"] = lambda E, c: E.boolv(px); E.contracts["ThreadGlobals::getSettings"] = lambda E, c: Val(shape_of(c.ret), [sets.root[1]]); E.contracts["Publish::getAge"] = lambda E, c: Val(shape_of(c.ret), [age_])
    l64 = resize(lim, 64, True); J.assume(z3.And(l64 >= 0, l64 <= (1 << 32), age_ >= 0)); r = J.run("RetainedMessage::hasExpired", this, []).t; J.cover("alive", z3.Not(r)); J.post("expired by its own interval or by the configured one", r == z3.Or(px, age_ > l64 * 1000))
@spec.job("SubscriptionStore::expireRetainedMessages", houdini_ms=60)
def _(J):
    """the recursive call is replaced by the contract being proved, stated for an arbitrary node and map entry"""
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::expireRetainedMessages", ["RetainedMessageNode", "time_point", "deque", "long"]); a = J.args(f); E = J.E; E.opaque_keeps = "settings"; J.pure("ThreadGlobals::getSettings", "RetainedMessageNode::getMessageSetAt"); T = J.ty("RetainedMessageNode")
    node = a[0].lv[0]; J.assume(z3.And(node != null, age(node) <= 0)); kid = tree(J); ob = lambda r: E.obj(r, T); msg = lambda r: J.f(ob(r), "message"); size = lambda r: E.load(ob(r).fld("children")).lv[0]; o, k = z3.Const("other", RefS), z3.Const("key", StrS); J.assume(z3.And(o != null, age(o) <= 0)); h0, c0 = kid(o, k); m0, mc0, n0, nn0 = msg(o), msg(c0), size(c0), msg(node); cnt = lambda: E.load(a[3]).t; dl = lambda: E.load(a[2]).lv[0]; k0, d0 = cnt(), dl(); J.assume(ule(d0, bv(1 << 40)))
    EXP = z3.Function("expired", RefS, z3.BoolSort()); E.contracts["RetainedMessage::hasExpired"] = lambda E, c: E.boolv(EXP(c.this.root[1])); J.ghost("rec", FALSE); J.ghost("pushed", FALSE); J.ghost("inuse", FALSE); J.ghost("sum", bv(0)); J.ghost("orphan", FALSE)
    kept = lambda m, m2: z3.Or(m2 == m, z3.And(m2 == null, EXP(m)))
    def law(): h, c = kid(o, k); return z3.And(kept(m0, msg(o)), kept(mc0, msg(c0)), ule(size(c0), n0), z3.Implies(z3.Not(h0), z3.Not(h)), z3.Implies(z3.And(h0, c0 != null), z3.Or(z3.And(h, c == c0), z3.And(z3.Not(h), msg(c0) == null, size(c0) == 0))))
    def rec(E, c):
        r = c.args[0].lv[0]; E.prove("each child is processed once", z3.And(z3.Not(J.ghost("rec")), z3.Not(J.ghost("pushed"))), "call"); E.prove("the same limit, list and counter", z3.BoolVal(all(isinstance(x, Loc) and x.root == y.root and x.path == y.path for x, y in zip(c.args[1:], a[1:]))), "call")
        b = (msg(o), msg(c0), size(c0), kid(o, k))
        for key in list(E.st.H):
            if key.startswith("RetainedMessageNode.") : E.st.H[key] = z3.Store(z3.Const(fresh_name("rec." + key), E.st.H[key].sort()), node, z3.Select(E.st.H[key], node))
        h, x = kid(o, k); E.assume(z3.And(kept(b[0], msg(o)), kept(b[1], msg(c0)), ule(size(c0), b[2]), z3.Implies(z3.Not(b[3][0]), z3.Not(h)), z3.Implies(z3.And(b[3][0], b[3][1] != null), z3.Or(z3.And(h, x == b[3][1]), z3.And(z3.Not(h), z3.Implies(b[3][1] == c0, z3.And(msg(c0) == null, size(c0) == 0)))))))
        d = z3.BitVec(fresh_name("found"), 64); E.store(a[3], Val(a[3].sh, [cnt() + d])); J.ghost("sum", J.ghost("sum") + d); l = E.load(a[2]); g = E.fresh_val(a[2].sh, "deferred"); E.assume(z3.And(uge(g.lv[0], l.lv[0]), ule(g.lv[0], bv(1 << 40)))); E.store(a[2], g); J.ghost("rec", TRUE)
    E.contracts[f.qn] = rec; E.models = dict(E.models); pb = E.models["seq::push_back"]
    def push(c):
        E.prove("only unprocessed children are deferred", z3.And(z3.Not(J.ghost("rec")), z3.Not(J.ghost("pushed"))), "call"); J.ghost("pushed", TRUE); return pb(c)
    E.models["seq::push_back"] = push; uc = E.models["std::shared_ptr::use_count"]
    def use(c): r = uc(c); J.ghost("inuse", r.t != 1); return r
    E.models["std::shared_ptr::use_count"] = use; orp = lambda E, c: E.boolv((lambda t: (J.ghost("orphan", t), t)[1])(z3.And(msg(c.this.root[1]) == null, size(c.this.root[1]) == 0))); E.contracts["RetainedMessageNode::isOrphaned"] = orp
    def step(E): E.prove("no child is left out: it is processed, deferred, empty or in use", z3.Or(J.ghost("rec"), J.ghost("pushed"), J.ghost("inuse"), J.ghost("orphan")), "call"); [J.ghost(x, FALSE) for x in ("rec", "pushed", "inuse", "orphan")]
    E.loop_steps.append(step)
    def gen(E, ctx): return [("only expired messages and empty nodes go", law()), ("one child at a time", z3.And(*[z3.Not(J.ghost(x)) for x in ("rec", "pushed", "inuse", "orphan")])), ("the messages found are counted", cnt() == k0 + z3.If(msg(node) != null, bv(1), bv(0)) + J.ghost("sum")), ("this node's message", msg(node) == z3.If(z3.And(nn0 != null, EXP(nn0)), null, nn0)), ("deferred", ule(dl(), bv(1 << 41)))]
    E.loop_specs.append(gen); ok, r = J.run_any(f, this, a)
    J.post("only expired messages and empty nodes are removed, nothing is added", law()); J.post("an expired message is removed", msg(node) == z3.If(z3.And(nn0 != null, EXP(nn0)), null, nn0)); J.post("each stored message is counted once", cnt() == k0 + z3.If(msg(node) != null, bv(1), bv(0)) + J.ghost("sum"))
@spec.job("RetainedMessageNode::isOrphaned")
def _(J): this = J.this("RetainedMessageNode"); r = J.run("RetainedMessageNode::isOrphaned", this, []); J.post("without message and children", r.t == z3.And(J.f(this, "message") == null, J.val(this, "children").lv[0] == 0))
@spec.job("SubscriptionStore::trySetRetainedMessages")
def _(J):
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::trySetRetainedMessages"); a = J.args(f); E = J.E; E.opaque_keeps = "counters, clock and random numbers"; td = J.this("ThreadData", "td"); hold = E.temp(Val(shape_of(J.fn("ThreadGlobals::getThreadData").d["ret"] if False else J.fn("ThreadGlobals::getThreadData").ret.noref()), [td.root[1]])) if False else None; e = z3.Bool("none_queued"); J.ghost("ok", FALSE); J.ghost("set", bv(0, 32)); J.ghost("q", bv(0, 32)); J.pure("ThreadGlobals::getSettings", "DerivableCounter::inc", "ThreadData::randomish"); same = lambda c: z3.BoolVal(c.args[0].root == a[0].root and c.args[0].path == a[0].path and c.args[1].root == a[1].root and c.args[1].path == a[1].path)
    E.contracts["ThreadGlobals::getThreadData"] = lambda E, c: E.temp(Val(shape_of(c.ret.noref()), [td.root[1]])); E.contracts["ThreadData::queuedRetainedMessagesEmpty"] = lambda E, c: E.boolv(e)
    def st(E, c): E.prove("never before messages that are queued", z3.And(e, J.ghost("set") == 0, J.ghost("q") == 0), "call"); E.prove("this message under its own topic", same(c), "call"); r = E.fresh_val(shape_of(c.ret), "ok"); J.ghost("ok", r.t); J.ghost("set", bv(1, 32)); return r
    def q(E, c): E.prove("queued only when not stored, once", z3.And(z3.Not(J.ghost("ok")), J.ghost("q") == 0), "call"); E.prove("queued under its own topic", same(c), "call"); J.ghost("q", bv(1, 32))
    E.contracts["SubscriptionStore::setRetainedMessage"] = st; E.contracts["ThreadData::queueSettingRetainedMessage"] = q; ok, r = J.run_any(f, this, a)
    if ok: J.cover("queued", J.ghost("q") == 1); J.post("stored or queued", z3.Or(J.ghost("ok"), J.ghost("q") == 1))
@spec.job("ThreadData::setQueuedRetainedMessages", houdini_ms=60)
def _(J):
    this = J.this("ThreadData"); f = J.fn("ThreadData::setQueuedRetainedMessages"); E = J.E; E.opaque_keeps = "counters and clock"; J.pure("DerivableCounter::inc", "ThreadData::wakeUpThread")
    any = z3.BitVec("any", 64); q = lambda: J.path(this, "priv", "*", "queuedRetainedMessages"); po = lambda v: (lambda o: v.lv[1 + o])(v.sh.elem.fields["p"][0] + v.sh.elem.fields["p"][1].fields["payload"][0]); v0 = E.load(q()); n0 = v0.lv[0]; P0 = po(v0); J.ghost("d", bv(0)); J.ghost("fail", FALSE); J.assume(ule(n0, bv(1 << 40)))
    rest = lambda: (lambda v: z3.And(v.lv[0] == n0 - J.ghost("d"), ule(J.ghost("d"), n0), z3.Implies(z3.And(uge(any, J.ghost("d")), ult(any, n0)), z3.Select(po(v), any - J.ghost("d")) == z3.Select(P0, any))))(E.load(q()))
    def st(E, c):
        p, t = c.args[0], c.args[1]; i = next(x[1] for x in p.path if x[0] == "i"); E.prove("the oldest queued message is stored next", z3.And(z3.Not(J.ghost("fail")), z3.Implies(any == J.ghost("d"), J.f(p, "payload") == z3.Select(P0, any))), "call"); E.prove("under its own topic", z3.And(z3.BoolVal(p.root == t.root), next(x[1] for x in t.path if x[0] == "i") == i), "call"); r = E.fresh_val(shape_of(c.ret), "ok"); J.ghost("fail", z3.Not(r.t)); J.ghost("d", z3.If(r.t, J.ghost("d") + 1, J.ghost("d"))); return r
    E.contracts["SubscriptionStore::setRetainedMessage"] = st
    def gen(E, ctx): return [("the messages not stored yet, in order", rest()), ("none failed", z3.Not(J.ghost("fail")))] + [("at the front", m.h == 0) for m in ctx.ints(64)]
    E.loop_specs.append(gen); ok, r = J.run_any(f, this, [])
    if ok: J.cover("some", ugt(J.ghost("d"), bv(1))); J.post("stored messages leave the queue, the others stay in order", rest())
