"""C12: packet identifiers in flight are never reused."""
from fvc.spec import *
from qos_c import *
from fvc.vals import fresh
spec = Spec("C12", ["usedids.cpp", "session.cpp"], harness="c12.cpp", harness_secs=12, trusted=["a finite set whose cardinality is 0 is empty (used for the reset of the bit set)"],
            standin="histories of queueing, sending, acknowledging, reconnecting, saving and loading with nearly all identifiers in use (bounded)")
NS = 65536
def member(J, this, x):
    """x is in the set, read off the representation"""
    E = J.E; o = E.load(this.fld("m_bits")); ids = E.load(this.fld("m_ids")).lv[-1]; n = J.f(this, "m_ids_used")
    small = z3.Or(*[z3.And(ult(bv(i), n), z3.Select(ids, bv(i)) == x) for i in range(8)])
    w = z3.Select(o.lv[2], z3.ZeroExt(48, z3.LShR(x, bv(6, 16))))
    bit = (z3.LShR(w, z3.ZeroExt(48, x & bv(63, 16))) & bv(1)) == bv(1)
    return z3.If(o.lv[0], bit, small)
def inv(J, this):
    E = J.E; o = E.load(this.fld("m_bits")); ids = E.load(this.fld("m_ids")).lv[-1]; n = J.f(this, "m_ids_used")
    dist = z3.And(*[z3.Implies(ult(bv(j), n), z3.Select(ids, bv(i)) != z3.Select(ids, bv(j))) for j in range(8) for i in range(j)])
    return z3.And(z3.Implies(o.lv[0], o.lv[1] == bv(1024)), z3.Implies(z3.Not(o.lv[0]), z3.And(ule(n, bv(8)), dist)))
def setup(J, fn, bits=None):
    this = J.this("UsedIds"); f = J.fn("UsedIds::" + fn); args = J.args(f); J.assume(inv(J, this)); id = args[0].t; J.hint("id", id); x = z3.BitVec("x", 16)
    if bits is not None:
        has = J.E.load(this.fld("m_bits")).lv[0]; J.assume(has if bits else z3.Not(has))
    return this, f, args, id, x, member(J, this, x), member(J, this, id)
for fn, bits in (("bits_is_used", True), ("ids_is_used", False)):
    @spec.job("UsedIds::" + fn, exhaust=9, bounds=True)
    def _(J, fn=fn, bits=bits):
        this, f, args, id, x, m0, m = setup(J, fn, bits); r = J.run(f, this, args).t; J.cover("used", r); J.post("says whether the id is in the set", r == m); J.post("set unchanged", member(J, this, x) == m0)
for fn, bits, add in (("bits_mark_used", True, True), ("bits_mark_free", True, False), ("ids_mark_free", False, False), ("ids_mark_used", False, True)):
    @spec.job("UsedIds::" + fn, exhaust=9, bounds=True)
    def _(J, fn=fn, bits=bits, add=add):
        this, f, args, id, x, m0, m = setup(J, fn, bits); cnt0 = J.f(this, "m_bits_used"); n0 = J.f(this, "m_ids_used")
        if fn == "ids_mark_used": J.assume(ult(n0, bv(8)))
        J.run(f, this, args)
        J.cover("done"); J.post("exactly the id itself changes", member(J, this, x) == z3.If(x == id, z3.BoolVal(add), m0)); J.post("representation stays well-formed", inv(J, this))
        if bits: J.post("the count changes exactly with the set", J.f(this, "m_bits_used") == cnt0 + z3.If(m, bv(0 if add else -1), bv(1 if add else 0)))
@spec.job("UsedIds::contains", exhaust=9)
def _(J):
    this, f, args, id, x, m0, m = setup(J, "contains"); r = J.run(f, this, args).t; J.post("says whether the id is in the set", r == m)
@spec.job("UsedIds::insert", exhaust=9, bounds=True)
def _(J):
    this, f, args, id, x, m0, m = setup(J, "insert"); E = J.E
    def used(E, c):
        # contract proved above, at the arbitrary id x of the postcondition
        o = E.load(this.fld("m_bits")); t = member(J, this, x); nb = fresh("bits", o.lv[2].sort())
        E.store(this.fld("m_bits"), Val(o.sh, [o.lv[0], o.lv[1], nb])); E.assume(member(J, this, x) == z3.Or(x == c.t(0), t))
    E.contracts["UsedIds::bits_mark_used"] = used
    J.run(f, this, args); J.cover("turned into a bit set", J.E.load(this.fld("m_bits")).lv[0])
    J.post("adds exactly the id", member(J, this, x) == z3.Or(x == id, m0)); J.post("representation stays well-formed", inv(J, this))
@spec.job("UsedIds::erase", exhaust=9, bounds=True)
def _(J):
    this, f, args, id, x, m0, m = setup(J, "erase"); E = J.E
    def free(E, c):
        # contract proved above, plus: the count is the cardinality of the set, so at 0 nothing is in it
        o = E.load(this.fld("m_bits")); w0 = o.lv[2]; idx = z3.ZeroExt(48, z3.LShR(c.t(0), bv(6, 16))); mask = bv(1) << z3.ZeroExt(48, c.t(0) & bv(63, 16)); was = member(J, this, c.t(0))
        E.store(this.fld("m_bits"), Val(o.sh, [o.lv[0], o.lv[1], z3.Store(w0, idx, z3.Select(w0, idx) & ~mask)])); J.set(this, "m_bits_used", to=J.f(this, "m_bits_used") - z3.If(was, bv(1), bv(0)))
        E.assume(z3.Implies(J.f(this, "m_bits_used") == 0, z3.Not(member(J, this, x))))
    E.contracts["UsedIds::bits_mark_free"] = free
    J.run(f, this, args); J.post("removes exactly the id", member(J, this, x) == z3.And(x != id, m0)); J.post("representation stays well-formed", inv(J, this))
@spec.job("UsedIds::UsedIds")
def _(J):
    this = J.this("UsedIds"); J.run("UsedIds::UsedIds", this, []); J.post("starts empty", z3.Not(member(J, this, z3.BitVec("x", 16)))); J.post("well-formed", inv(J, this))

@spec.job("Session::QoSData::getNextPacketId", termination=True)
def _(J):
    this = J.this("Session::QoSData"); S0 = usedset(J); start = J.f(this, "nextPacketId"); q0 = J.f(this, "flowControlQuota"); x = z3.BitVec("x", 16); J.hint("start", start)
    def gen(E, ctx):
        nx = J.f(this, "nextPacketId"); out = []
        for v in [m.h for m in ctx.ints(32) if m.kind == "L"]:
            t = z3.Extract(15, 0, v); wrapped = z3.And(start != 0, v != 0, ule(nx, start))
            out.append(("counter relation", z3.And(v >= 0, v <= bv(65535, 32), nx - start == t + z3.If(wrapped, bv(1, 16), bv(0, 16)), z3.Implies(v > 0, nx != 0))))
            out.append(("ids tried so far are used", z3.ForAll([x], z3.Implies(z3.And(v > 0, x != 0, ule(x - start - 1, nx - start - 1)), z3.Select(S0, x)))))
        return out
    J.E.loop_specs.append(gen)
    r = J.run("Session::QoSData::getNextPacketId", this, []); has, id = r.lv[0], r.lv[1]; S = J.ghost("used")
    J.cover("an id is given", has); J.cover("no id", z3.Not(has))
    J.post("never 0", z3.Implies(has, id != 0)); J.post("not an id in use", z3.Implies(has, z3.Not(z3.Select(S0, id))))
    J.post("the id is in use from now on, and no other id changes", S == z3.If(has, z3.Store(S0, id, TRUE), S0))
    J.post("refused only without quota or when every id is in use", z3.Implies(z3.And(z3.Not(has), q0 != 0), z3.ForAll([x], z3.Implies(x != 0, z3.Select(S0, x)))))
    J.post("no id without quota", z3.Implies(q0 == 0, z3.Not(has)))
    J.post("quota", J.f(this, "flowControlQuota") == z3.If(has, q0 - 1, q0))
def setop(J, fn, add):
    this = J.this("Session::QoSData"); S0 = usedset(J); f = J.fn("Session::QoSData::" + fn); a = J.args(f); J.run(f, this, a); J.post("exactly this id " + ("becomes used" if add else "is released"), J.ghost("used") == z3.Store(S0, a[0].t, z3.BoolVal(add)))
for fn, add in (("releasePacketId", False), ("loadUsedPacketId", True), ("increaseFlowControlQuota", False)):
    @spec.job("Session::QoSData::" + fn)
    def _(J, fn=fn, add=add): setop(J, fn, add)
@spec.job("Session::QoSData::decreaseFlowControlQuotaAgain / resetFlowControlCounters keep the ids")
def _(J):
    this = J.this("Session::QoSData"); S0 = usedset(J)
    for fn in ("decreaseFlowControlQuotaAgain", "resetFlowControlCounters", "eraseQueuedPublish"):
        J.pure("QoSPublishQueue::erase"); f = J.fn("Session::QoSData::" + fn); J.run(f, this, J.args(f)); J.post(fn + " releases no id", J.ghost("used") == S0)
@spec.job("Session::QoSData::packetIdAwaitsAck")
def _(J):
    this = J.this("Session::QoSData"); S0 = usedset(J); f = J.fn("Session::QoSData::packetIdAwaitsAck"); a = J.args(f); out = J.E.load(this.fld("outgoingQoS2MessageIds"))
    r = J.run(f, this, a).t; J.post("only ids in use", z3.Implies(r, z3.Select(S0, a[0].t))); J.post("none in the second half of a QoS 2 handshake", z3.Implies(r, z3.Not(z3.Select(out.lv[1], a[0].t))))
