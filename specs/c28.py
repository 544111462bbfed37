"""C28: keep-alive expiry."""
from fvc.spec import *
spec = Spec("C28", ["client.cpp", "threaddata.cpp"], harness="c28.cpp", harness_secs=12, trusted=["std::chrono::steady_clock::now is monotone"])
NS = 10 ** 9
def nowc(J, name="now"):
    n = z3.Const(name, I64); J.assume(z3.And(n >= 0, n < bv(1 << 60))); J.hint(name, n); return n
def sec(ka): return resize(ka, 64, False)
def setup(J):
    this = J.this("Client"); ka = J.f(this, "keepalive"); last = J.f(this, "lastActivity"); J.hint("keepalive", ka); J.hint("last", last)
    J.assume(z3.And(last >= 0, last < bv(1 << 60))); now = nowc(J); J.assume(last <= now)
    clk = lambda E, c: Val(shape_of(c.ret), [now])
    J.E.contracts["std::chrono::steady_clock::now"] = clk
    return this, sec(ka), last, now
def one_and_half_s(ka): return ka + z3.UDiv(ka, bv(2))

@spec.job("Client::keepAliveExpired")
def _(J):
    this, ka, last, now = setup(J)
    v = J.run("Client::keepAliveExpired", this, [])
    # twice the elapsed time compared with three keep-alive periods; whole seconds: odd values are rounded down to at most half a second early
    J.cover("expired", v.t); J.cover("alive", z3.Not(v.t))
    J.post("no keep-alive never expires", z3.Implies(ka == 0, z3.Not(v.t)))
    J.post("never expired before one and a half periods (whole seconds)", z3.Implies(v.t, now - last > one_and_half_s(ka) * NS))
    J.post("expired as soon as more than one and a half periods passed", z3.Implies(z3.And(ka != 0, 2 * (now - last) > 3 * ka * NS), v.t))
    J.post("nothing changed", z3.And(J.f(this, "lastActivity") == last, sec(J.f(this, "keepalive")) == ka))

@spec.job("Client::getSecondsTillKeepAliveAction")
def _(J):
    this, ka, last, now = setup(J)
    out = z3.Bool("outgoing"); J.E.contracts["Client::isOutgoingConnection"] = lambda E, c: E.boolv(out)
    auth = J.f(this, "authenticated")
    r = J.run("Client::getSecondsTillKeepAliveAction", this, []).t
    J.cover("authenticated client with keep-alive", z3.And(z3.Not(out), auth, ka != 0)); lim = one_and_half_s(ka)
    inc = z3.And(z3.Not(out), auth, ka != 0)
    J.post("a check is always scheduled for an authenticated client with a keep-alive", z3.Implies(inc, r >= 5))
    J.post("no later than a few seconds after expiry", z3.Implies(z3.And(inc, now - last <= lim * NS), now + r * NS <= last + (lim + 5) * NS))
    J.post("within five seconds when it is already due", z3.Implies(z3.And(inc, now - last > lim * NS), r <= 5))
    J.post("not repeated needlessly before expiry", z3.Implies(z3.And(inc, r > 5), now + r * NS > last + lim * NS))
    J.post("zero only without keep-alive", z3.Implies(z3.And(z3.Not(out), r == 0), z3.And(auth, ka == 0)))
    J.post("an unauthenticated connection is checked within 30 seconds", z3.Implies(z3.And(z3.Not(out), z3.Not(auth)), z3.And(r > 0, r <= 30)))
    J.post("bridge pings after one keep-alive period", z3.Implies(out, r == ka))

@spec.job("ThreadData::queueClientNextKeepAliveCheck [no keep-alive]")
def _(J): queue(J, True)
@spec.job("ThreadData::queueClientNextKeepAliveCheck")
def _(J): queue(J, False)
def queue(J, zero):
    E = J.E; this = J.this("ThreadData"); f = J.fn("ThreadData::queueClientNextKeepAliveCheck"); k = z3.Const("k", I64); J.assume(z3.And(k >= 0, k < 200000)); now = nowc(J); J.assume((k == 0) == z3.BoolVal(zero))
    E.contracts["std::chrono::steady_clock::now"] = lambda E, c: Val(shape_of(c.ret), [now])
    E.contracts["Client::getSecondsTillKeepAliveAction"] = lambda E, c: Val(shape_of(c.ret), [k])
    a = J.args(f); J.assume(J.f(this, "priv").lv[0]); before = J.val(this, "priv", "*", "queuedKeepAliveChecks"); cl = E.load(a[0])
    J.run(f, this, a); after = J.val(this, "priv", "*", "queuedKeepAliveChecks")
    when = z3.Const("when", I64); w = z3.Const("w", I64); J.assume(z3.And(when * NS <= now, now < (when + 1) * NS, when >= 0, when < bv(1 << 31))); key = when + k
    d0, d1 = before.lv[1], after.lv[1]; n0 = z3.If(z3.Select(d0, key), z3.Select(before.lv[2], key), bv(0))
    if not zero: J.quotient_is("the check is scheduled for the current second plus the delay", key)
    if zero: J.post("no check without a period", z3.Implies(k == 0, z3.And(after.lv[0] == before.lv[0], *[x == y for x, y in zip(after.lv[1:], before.lv[1:])])))
    else:
        J.post("the check is queued at that second", z3.And(z3.And(z3.Select(d1, key), z3.Select(after.lv[2], key) == n0 + 1)))
        J.post("it is this client's check", z3.And(z3.Select(z3.Select(after.lv[3], key), n0) == cl.t))
        J.post("other seconds keep their checks", z3.Implies(w != key, z3.And(z3.Select(d1, w) == z3.Select(d0, w), z3.Select(after.lv[2], w) == z3.Select(before.lv[2], w), z3.Select(after.lv[3], w) == z3.Select(before.lv[3], w))))
