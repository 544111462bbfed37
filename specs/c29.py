"""C29: message expiry."""
from fvc.spec import *
spec = Spec("C29", ["types.cpp", "retainedmessage.cpp", "utils.cpp", "mqttpacket.cpp"], harness="c29.cpp", harness_secs=10, trusted=["std::chrono::steady_clock::now is monotone"], standin="delivery from session queues and the retained store, and saving and loading both, checked on random sets of messages with random ages (bounded)")
NS = 10 ** 9
def tp(J, name="t"):
    n = z3.Const(name, I64); J.assume(z3.And(n >= 0, n < bv(1 << 60))); J.hint(name, n); return n
def clock(J, now): J.E.contracts["std::chrono::steady_clock::now"] = lambda E, c: Val(shape_of(c.ret), [now])
def info(J, this):
    """createdAt (ns) and expiresAfter (s, up to 2^33: what the store and restore code produces) of a PublishExpireInfo location"""
    c = J.f(this, "createdAt"); e = J.f(this, "expiresAfter"); J.assume(z3.And(c >= 0, c < bv(1 << 60), e >= 0, e < bv(1 << 33))); J.hint("created", c); J.hint("after", e); return c, e

@spec.job("PublishExpireInfo::expiresAt")
def _(J):
    this = J.this("PublishExpireInfo"); c, e = info(J, this)
    r = J.run("PublishExpireInfo::expiresAt", this, []).t
    J.post("expires exactly its interval after it was published", r == c + e * NS)

@spec.job("PublishExpireInfo::getCurrentTimeToExpire")
def _(J):
    this = J.this("PublishExpireInfo"); c, e = info(J, this); now = tp(J, "now"); clock(J, now); J.assume(c <= now)
    r = J.run("PublishExpireInfo::getCurrentTimeToExpire", this, []).t
    J.cover("alive", r > 0); J.cover("over", r == 0)
    J.post("never negative", r >= 0)
    J.post("never more than was published", r <= e)
    J.post("reduced by the whole seconds waited", z3.Implies(r > 0, z3.And((e - r) * NS <= now - c, now - c < (e - r + 1) * NS)))
    J.post("zero only when less than a second is left", z3.Implies(r == 0, now - c > (e - 1) * NS))

def pub(J, cls="Publish"):
    this = J.this(cls); return this
def exp(J, this):
    l = this.fld("expireInfo"); return J.val(l).lv[0], J.opt(l)
@spec.job("Publish::hasExpired")
def _(J):
    this = pub(J); has, i = exp(J, this); c, e = info(J, i); now = tp(J, "now"); clock(J, now); at_ = tp(J, "at")
    J.E.contracts["PublishExpireInfo::expiresAt"] = lambda E, cc: Val(shape_of(cc.ret), [J.f(cc.this, "createdAt") + J.f(cc.this, "expiresAfter") * NS])
    r = J.run("Publish::hasExpired", this, []).t
    J.cover("expired", r)
    J.post("expired exactly when its interval has elapsed", r == z3.And(has, c + e * NS < now))
@spec.job("Publish::expiresAt")
def _(J):
    this = pub(J); has, i = exp(J, this); c, e = info(J, i)
    J.E.contracts["PublishExpireInfo::expiresAt"] = lambda E, cc: Val(shape_of(cc.ret), [J.f(cc.this, "createdAt") + J.f(cc.this, "expiresAfter") * NS])
    r = J.run("Publish::expiresAt", this, [])
    J.post("present exactly with an interval", r.lv[0] == has); J.post("is the moment it expires", z3.Implies(has, r.lv[1] == c + e * NS))
@spec.job("Publish::setExpireAfter")
def _(J):
    this = pub(J); f = J.fn("Publish::setExpireAfter"); now = tp(J, "now"); clock(J, now); a = J.args(f)
    J.run(f, this, a); has, i = exp(J, this)
    J.post("interval set as given", z3.And(has, J.f(i, "expiresAfter") == resize(a[0].t, 64, False)))
    J.post("counted from now", J.f(i, "createdAt") == now)
@spec.job("Publish::setExpireAfterToCeiling")
def _(J):
    this = pub(J); f = J.fn("Publish::setExpireAfterToCeiling"); now = tp(J, "now"); clock(J, now); a = J.args(f); has0, i0 = exp(J, this); c0, e0 = info(J, i0); J.assume(a[0].t >= 0)
    J.run(f, this, a); has, i = exp(J, this); e = J.f(i, "expiresAfter"); c = J.f(i, "createdAt")
    J.post("limited, never extended", z3.And(has, e == z3.If(z3.And(has0, e0 <= a[0].t), e0, a[0].t)))
    J.post("the start of an existing interval is kept", c == z3.If(has0, c0, now))
@spec.job("RetainedMessage::hasExpired")
def _(J):
    this = J.this("RetainedMessage"); now = tp(J, "now"); clock(J, now); px = z3.Bool("publish_expired"); J.E.contracts["Publish::hasExpired"] = lambda E, c: E.boolv(px)
    r = J.run("RetainedMessage::hasExpired", this, []).t
    J.cover("alive", z3.Not(r))
    J.post("an expired message is expired in the store", z3.Implies(px, r))
@spec.job("ageFromTimePoint / timepointFromAge")
def _(J):
    f = J.fn("timepointFromAge"); now = tp(J, "now"); clock(J, now); a = J.args(f)
    J.E.contracts["std::chrono::steady_clock::now"] = lambda E, c: Val(shape_of(c.ret), [now])
    age = resize(a[0].t, 64, False); J.assume(now >= age * NS)
    t = J.run(f, None, a).t
    J.post("the moment that many seconds ago", t == now - age * NS)
@spec.job("ageFromTimePoint")
def _(J):
    f = J.fn("ageFromTimePoint"); now = tp(J, "now"); clock(J, now); a = J.args(f); t = J.E.rv(a[0]).t; J.assume(z3.And(t >= 0, t <= now, now - t < bv((1 << 32) * NS)))
    r = resize(J.run(f, None, a).t, 64, False)
    J.post("whole seconds since then", z3.And(r * NS <= now - t, now - t < (r + 1) * NS))
