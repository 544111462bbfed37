"""Contracts on the routing functions, shared by C08, C10 and C36."""
from fvc.spec import *
from fvc.models import MIter
def cur_el(E, m):
    """the map element a loop over m stands at"""
    hit = []
    def under(l):
        if isinstance(l, Loc) and len(l.path) > len(m.path) and loc_eq(Loc(l.root, l.path[:len(m.path)], m.sh, m.rsh), m) and l.path[len(m.path)][0] == "k": hit.append(m.ext(("k", l.path[len(m.path)][1]), m.sh.elem))
    def go(x, d=0):
        if isinstance(x, Loc): under(x)
        elif isinstance(x, MIter):
            if loc_eq(x.loc, m): hit.append(m.ext(("k", x.key), m.sh.elem))
        elif isinstance(x, Val): [go(y, d + 1) for y in x.lv if not isinstance(y, z3.ExprRef)]
        elif isinstance(x, (tuple, list)) and d < 4: [go(y, d + 1) for y in x]
        elif hasattr(x, "__slots__") and d < 4 and not isinstance(x, z3.AstRef): [go(getattr(x, s, None), d + 1) for s in x.__slots__]
    for v in E.st.L.values(): go(v)
    return hit[-1] if hit else None
def pub_nr(J, parts):
    """publishNonRecursively: one decision per subscription and per shared group; the list grows by exactly the entries kept"""
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::publishNonRecursively"); a = J.args(f); E = J.E; E.opaque_keeps = "locks and settings"; node = E.deref(a[0]); out = a[1]; T = J.ty("Session"); TS = J.ty("Subscription"); sender = J.val(a[2]).t; grp = E.load(a[3]).lv; J.assume(a[0].lv[0] != null)
    ln = lambda: E.load(out).lv[0]; FN = ("session", "qos", "retainAsPublished", "subscriptionIdentifier")
    def at(k): v = E.load(out); return [z3.Select(v.lv[1 + v.sh.elem.fields[n][0]], k) for n in FN]
    n0 = ln(); J.assume(ule(n0, bv(1 << 40))); any = z3.BitVec("any", 64); J.ghost("prev", n0); J.ghost("sel", null); J.ghost("nsel", bv(0, 32)); FG = [J.ghost("any_" + n, x) for n, x in zip(FN, at(any))]; subs, shared = node.fld("subscribers"), node.fld("sharedSubscribers")
    J.assume(z3.And(*[ule(E.load(m).lv[0], bv(1 << 32)) for m in (subs, shared)])); J.pure("ThreadGlobals::getSettings"); fg = lambda r: E.load(E.obj(r, T).fld("fmq_client_group_id")).lv; alive = lambda r: z3.And(r != null, z3.Select(E.st.hmap("#alive", z3.BoolSort()), r)); group = lambda r: z3.And(fg(r)[0], grp[0], E.str_eq(fg(r)[1], grp[1])); own = lambda r: E.str_eq(J.f(E.obj(r, T), "client_id"), sender)
    sets = J.this("Settings", "settings"); J.assume(ule(J.f(sets, "sharedSubscriptionTargeting"), bv(2, 32))); E.contracts["ThreadGlobals::getSettings"] = lambda E, c: Val(shape_of(c.ret), [sets.root[1]]); P = lambda p, n, c: E.prove(n, c, "call") if p in parts else None
    def select(E, c):
        el = cur_el(E, shared); J.assume(z3.Implies(E.load(el.fld("overrideSharedSubscriptionTarget")).lv[0], ule(E.load(el.fld("overrideSharedSubscriptionTarget")).lv[1], bv(2, 32)))) if False else None
        P("C10", "a member of the group at hand, asked for once", z3.And(z3.BoolVal(el is not None and loc_eq(c.this, el)), J.ghost("nsel") == 0)); r = z3.Const(fresh_name("member"), RefS); E.assume(z3.Implies(r != null, z3.And(age(r) <= 0, alive(J.f(E.obj(r, TS), "session"))))); J.ghost("sel", r); J.ghost("nsel", bv(1, 32)); return Val(shape_of(c.ret), [r])
    for n in (("SharedSubscribers::getNext", 0), ("SharedSubscribers::getNext", 1), "SharedSubscribers::getFirst"): E.contracts[n] = select
    def step(E):
        sh = cur_el(E, shared); el = cur_el(E, subs); p = J.ghost("prev"); has = ln() == p + 1; no = ln() == p; val = lambda o: [J.f(o, n) if n != "session" else E.load(o.fld(n)).lv[0] for n in FN]; e = at(p)
        if sh is not None:
            m = J.ghost("sel"); o = E.obj(m, TS); v = val(o); ov = E.load(sh.fld("overrideSharedSubscriptionTarget")).lv; legal = z3.Implies(ov[0], ule(ov[1], bv(2, 32))); good = z3.And(m != null, alive(v[0]), z3.Not(group(v[0]))); P("C10", "every group is asked for a member", z3.Implies(legal, J.ghost("nsel") == 1)); P("C10", "exactly one entry for the member of the group, none without one", z3.If(good, has, no)); P("C10", "the member's subscription", z3.Implies(good, z3.And(*[x == y for x, y in zip(e, v)]))); P("C36", "a group member of the publisher's client group gets nothing", z3.Implies(z3.And(m != null, group(v[0])), no))
            P("C36", "a group member outside the publisher's client group is served", z3.Implies(good, has))
        else:
            v = val(el); nl = J.f(el, "noLocal"); out_ = z3.Or(z3.And(nl, own(v[0])), group(v[0])); good = z3.And(alive(v[0]), z3.Not(out_)); P("C08", "one entry for each subscription of a living session", z3.If(good, has, no)); P("C08", "with the subscription's session, QoS, flags and identifier", z3.Implies(good, z3.And(*[x == y for x, y in zip(e, v)])))
            P("C36", "nothing to the publisher on a no-local subscription, nothing to its client group", z3.Implies(out_, no)); P("C36", "everybody else is served", z3.Implies(good, z3.And(has, e[0] == v[0]))); P("C10", "only group members are chosen", J.ghost("nsel") == 0)
        for n, x in zip(FN, e): J.ghost("any_" + n, z3.If(z3.And(has, any == p), x, J.ghost("any_" + n)))
        J.ghost("prev", ln()); J.ghost("sel", null); J.ghost("nsel", bv(0, 32))
    E.loop_steps.append(step)
    keep = lambda: z3.Implies(ult(any, ln()), z3.And(*[x == J.ghost("any_" + n) for n, x in zip(FN, at(any))]))
    def gen(E, ctx): return [("the list holds what was decided so far", z3.And(ln() == J.ghost("prev"), keep())), ("one selection at a time", z3.And(J.ghost("nsel") == 0, J.ghost("sel") == null)), ("the list only grows", z3.And(uge(ln(), n0), ule(ln(), bv(1 << 41))))]
    E.loop_specs.append(gen)
    ok, r = J.run_any(f, this, a)
    J.post("nothing is added or removed after the decisions", z3.And(ln() == J.ghost("prev"), keep()))
def queue_at(J):
    """queuePacketAtSubscribers: the tree walk starts at the right root with all levels of the topic, and each entry of the list is delivered once"""
    this = J.this("SubscriptionStore"); f = J.fn("SubscriptionStore::queuePacketAtSubscribers"); a = J.args(f); E = J.E; E.opaque_keeps = "locks"; topic = z3.Const("topic", StrS); J.ghost("walks", bv(0, 32)); J.ghost("d", bv(0)); any = z3.BitVec("any", 64); levels = J.sym(J.fn("PublishCopyFactory::getSubtopics").ret.noref(), "levels") if False else None
    sub = {}
    def topics(E, c):
        if "l" not in sub: sub["l"] = E.temp(E.fresh_val(shape_of(c.ret.noref()), "levels")); J.assume(ule(E.load(sub["l"]).lv[0], bv(1 << 20)))
        return sub["l"]
    E.contracts["PublishCopyFactory::getTopic"] = lambda E, c: E.temp(Val(shape_of(c.ret.noref()), [topic])); E.contracts["PublishCopyFactory::getSubtopics"] = topics; dollar = a[3].t; st = {}
    def rec(E, c):
        s, e = c.args[0] if isinstance(c.args[0], Val) else E.rv(c.args[0]), E.rv(c.args[1]); n = E.load(sub["l"]).lv[0]; s, e = s.lv[0], e.lv[0]; E.prove("all levels of this topic", z3.And(z3.BoolVal(loc_eq(s.loc, sub["l"]) and loc_eq(e.loc, sub["l"])), s.idx == 0, e.idx == n), "call"); E.prove("from the root of ordinary or of $ topics", E.rv(c.args[2]).lv[0] == z3.If(dollar, J.f(this, "rootDollar"), J.f(this, "root")), "call"); E.prove("once, with the publisher's identity and client group", z3.And(J.ghost("walks") == 0, z3.BoolVal(loc_eq(c.args[4], a[1]) and loc_eq(c.args[5], a[2]))), "call"); E.prove("starting from an empty list", E.load(c.args[3]).lv[0] == 0, "call")
        v = E.fresh_val(c.args[3].sh, "receivers"); E.assume(ule(v.lv[0], bv(1 << 40))); E.store(c.args[3], v); st["l"] = c.args[3]; J.ghost("walks", bv(1, 32)); sf = v.sh.elem.fields; E.assume(z3.Implies(ult(any, v.lv[0]), z3.Select(v.lv[1 + sf["session"][0]], any) != null)); st["v"] = v
    E.contracts["SubscriptionStore::publishRecursively"] = rec; FN = ("qos", "retainAsPublished", "subscriptionIdentifier")
    def wr(E, c):
        d = J.ghost("d"); v = st["v"]; g = lambda n: z3.Select(v.lv[1 + v.sh.elem.fields[n][0]], d); E.prove("the next entry of the list, with its own QoS, retain flag and identifier", z3.And(ult(d, v.lv[0]), c.this.root[1] == g("session"), *[c.t(i + 1) == g(n) for i, n in enumerate(FN)]), "call"); E.prove("this message", z3.BoolVal(loc_eq(c.args[0], a[0])), "call"); J.ghost("d", d + 1); return E.fresh_result(c.ret, "drop")
    E.contracts["Session::writePacket"] = wr
    def gen(E, ctx): return [("as many delivered as visited", z3.And(J.ghost("walks") == 1, *[m.h == J.ghost("d") for m in ctx.ints(64) if m.kind == "L"]))]
    E.loop_specs.append(gen); ok, r = J.run_any(f, this, a); skip = z3.And(z3.Not(dollar), slen(topic) != 0, sat(topic, bv(0)) == 36); n = st["v"].lv[0] if "v" in st else bv(0)
    J.post("every entry is delivered once, in order", z3.Implies(z3.Not(skip), z3.And(J.ghost("walks") == 1, J.ghost("d") == n))); J.post("topics starting with $ are refused to clients", z3.Implies(skip, J.ghost("walks") == 0)); J.cover("refused", skip)
