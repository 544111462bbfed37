"""C33: websocket frames are transparent."""
from fvc.spec import *
spec = Spec("C33", ["iowrapper.cpp", "cirbuf.cpp", "client.cpp"], harness="c33.cpp", harness_secs=15, sanitize=True, trusted=["the ring buffer contracts of C05", "settings, logging and client getters do not change the connection (frame)"],
            standin="IoWrapper::websocketBytesToReadBuffer: whole connections with random frames of all lengths, masked and unmasked, data and control, cut at random places, with random read sizes")
def z64(t): return z3.ZeroExt(64 - t.size(), t)
@spec.job("IncompleteWebsocketRead", bounds=True)
def _(J):
    this = J.this("IncompleteWebsocketRead"); E = J.E; k0 = J.f(this, "maskingKeyI"); m = J.f(this, "maskingKey"); r = J.run("IncompleteWebsocketRead::getNextMaskingByte", this, []); J.post("the mask byte for this position", r.t == z3.Select(m, z64(k0 & 3))); J.post("moves to the next", z3.And(J.f(this, "maskingKeyI") & 3 == (k0 + 1) & 3, *[z3.Select(J.f(this, "maskingKey"), bv(i)) == z3.Select(m, bv(i)) for i in range(4)]))
    w = J.run("IncompleteWebsocketRead::sillWorkingOnFrame", this, []); J.post("within a frame as long as payload is left", w.t == (J.f(this, "frame_bytes_left") != 0))
    J.run("IncompleteWebsocketRead::reset", this, []); J.post("a new frame starts without mask", z3.And(*[z3.Select(J.f(this, "maskingKey"), bv(i)) == 0 for i in range(4)], J.f(this, "maskingKeyI") & 3 == 0, J.f(this, "frame_bytes_left") == 0))
@spec.job("IoWrapper::writeAsMuchOfBufAsWebsocketFrame", exhaust=9, bounds=True)
def _(J):
    this = J.this("IoWrapper"); f = J.fn("IoWrapper::writeAsMuchOfBufAsWebsocketFrame"); a = J.args(f); E = J.E; E.opaque_keeps = "settings do not change the connection"; n, op = a[1].t, a[2].t; buf = a[0]; rem = this.fld("websocketWriteRemainder"); free = z3.BitVec("free", 32); J.ghost("free", free); J.ghost("len", bv(0)); J.ghost("log", z3.Const("log", A8)); J.ghost("body", z3.BoolVal(False)); J.ghost("bn", bv(0)); J.ghost("ensured", z3.BoolVal(False))
    J.hint("n", n); J.assume(z3.And(ule(op, bv(15, 32)), ule(n, bv(1 << 40)), ule(free, bv((1 << 31) - 1, 32)))); log = lambda i: z3.Select(J.ghost("log"), i); q = lambda nm, h: E.contracts.__setitem__("CirBuf::" + nm, h)
    def mine(c): E.prove("frames go to the ring of bytes to send", z3.BoolVal(c.this.path == rem.path), "call")
    def ens(E, c): mine(c); g = z3.BitVec("free2", 32); E.assume(z3.And(uge(g, J.ghost("free")), ule(g, bv((1 << 31) - 1, 32)))); E.prove("nothing written yet", J.ghost("len") == 0, "call"); E.maybe_throw(E.fresh_val(BOOL, "t").t, "std::runtime_error"); J.ghost("free", g); J.ghost("ensured", TRUE)
    q("ensureFreeSpace", ens); q("freeSpace", lambda E, c: (mine(c), Val(shape_of(c.ret), [J.ghost("free")]))[1])
    def wr(E, c):
        mine(c); k = c.t(1); E.prove("exactly the caller's bytes", z3.And(z3.BoolVal(c.args[0].lv[0] is buf.lv[0] or z3.is_expr(c.args[0].lv[0])), c.args[0].lv[0] == buf.lv[0], c.args[0].lv[1] == buf.lv[1]), "call"); E.prove("one body per frame", z3.Not(J.ghost("body")), "call"); E.prove("the body fits, the ring need not grow beyond its maximum", ule(k, z64(J.ghost("free"))), "call"); J.ghost("body", TRUE); J.ghost("bn", k); J.ghost("free", J.ghost("free") - z3.Extract(31, 0, k))
    q("write", wr)
    def rng(E, c):
        mine(c); x, y = c.args; E.prove("the header comes before the body and only once", z3.And(z3.Not(J.ghost("body")), J.ghost("len") == 0), "call"); l, i, k = it(E, x); l2, i2, k2 = it(E, y); n = i2 - i; E.prove("the header fits", z3.And(ule(n, bv(10)), ule(n, z64(J.ghost("free")))), "call"); g = J.ghost("log")
        for j in range(10): g = z3.Store(g, bv(j), z3.Select(k, i + j))
        J.ghost("log", g); J.ghost("len", n); J.ghost("free", J.ghost("free") - z3.Extract(31, 0, n))
    def it(E, x):
        loc, i = x.lv[0], x.lv[1]
        if isinstance(loc, SIter): loc, i = loc.loc, loc.i
        v = E.load(loc) if isinstance(loc, Loc) else None; i = i if z3.is_expr(i) else bv(i); return loc, i, (v.lv[-1] if v is not None else z3.Select(E.st.hmap("mem:8", A8), loc))
    q("writerange", rng)
    ok, r = J.run_any(f, this, a)
    if ok:
        r = r.t; J.cover("a frame", J.ghost("len") != 0); J.cover("a long frame", J.ghost("len") == 10); L = J.ghost("len"); h0 = 0x80 | z3.Extract(7, 0, op)
        J.post("no more than asked for", ule(r, n)); J.post("what is reported written is what was framed", z3.Implies(J.ghost("body"), J.ghost("bn") == r)); J.post("nothing without a frame", z3.Implies(L == 0, z3.And(r == 0, z3.Not(J.ghost("body"))))); J.post("the header is followed by its body", z3.Implies(L != 0, J.ghost("body")))
        J.post("one final, unmasked frame of the wanted kind", z3.Implies(L != 0, log(bv(0)) == h0)); J.post("no empty data frame", z3.Implies(z3.And(op == 2, n == 0), L == 0))
        J.post("short length", z3.Implies(z3.And(L != 0, ult(r, bv(126))), z3.And(L == 2, z64(log(bv(1))) == r)))
        J.post("two byte length", z3.Implies(z3.And(L != 0, uge(r, bv(126)), ule(r, bv(65535))), z3.And(L == 4, log(bv(1)) == 126, z64(z3.Concat(log(bv(2)), log(bv(3)))) == r)))
        J.post("eight byte length", z3.Implies(z3.And(L != 0, ugt(r, bv(65535))), z3.And(L == 10, log(bv(1)) == 127, z3.Concat(*[log(bv(2 + i)) for i in range(8)]) == r)))
        J.post("as much as there is room for", z3.Implies(z3.And(n != 0, J.ghost("ensured"), uge(z64(free), n + 10)), r == n))
@spec.job("IoWrapper::writeWebsocketAndOrSsl")
def _(J):
    this = J.this("IoWrapper"); f = J.fn("IoWrapper::writeWebsocketAndOrSsl"); a = J.args(f); E = J.E; E.opaque_keeps = "x"; st0 = J.f(this, "websocketState"); buf, n = a[1], a[2].t; framed = z3.BitVec("framed", 64); J.ghost("used", z3.BitVec("used", 32)); J.ghost("pos", bv(0)); J.ghost("frames", bv(0, 32)); J.ghost("raw", bv(0, 32)); J.ghost("res", bv(0)); tail, mx = z3.BitVec("tail", 64), z3.BitVec("mx", 32); rem = this.fld("websocketWriteRemainder"); J.ghost("mx", mx); J.ghost("sent", bv(0)); J.ghost("pending", FALSE)
    def frame(E, c): E.prove("only once, with the caller's bytes", z3.And(J.ghost("frames") == 0, c.args[0].lv[0] == buf.lv[0], c.args[0].lv[1] == buf.lv[1], c.t(1) == n, c.t(2) == 2), "call"); J.ghost("frames", bv(1, 32)); E.maybe_throw(E.fresh_val(BOOL, "t").t, "std::runtime_error"); return Val(shape_of(c.ret), [framed])
    E.contracts["IoWrapper::writeAsMuchOfBufAsWebsocketFrame"] = frame; q = lambda nm, h: E.contracts.__setitem__("CirBuf::" + nm, h); tp = z3.Const("tailref", RefS)
    q("usedBytes", lambda E, c: Val(shape_of(c.ret), [J.ghost("used")])); q("tailPtr", lambda E, c: Val(shape_of(c.ret), [tp, z64(J.ghost("used")) ])); 
    def mr(E, c): m = E.fresh_val(shape_of(c.ret), "mr"); E.assume(z3.And(ule(m.t, J.ghost("used")), z3.Implies(J.ghost("used") != 0, m.t != 0))); J.ghost("mx", m.t); return m
    q("maxReadSize", mr)
    def raw(E, c):
        k = E.fresh_val(shape_of(c.ret), "k"); up = st0 == 2
        E.prove("before the upgrade the caller's bytes are sent as they are, afterwards only frames", z3.If(up, z3.And(c.args[1].lv[0] == tp, c.args[1].lv[1] == z64(J.ghost("used")), c.t(2) == z64(J.ghost("mx")), z3.Not(J.ghost("pending"))), z3.And(c.args[1].lv[0] == buf.lv[0], c.args[1].lv[1] == buf.lv[1], c.t(2) == n, J.ghost("raw") == 0)), "call"); J.ghost("raw", J.ghost("raw") | 1); E.assume(z3.Or(k.t < 0, ule(k.t, c.t(2)))); E.maybe_throw(E.fresh_val(BOOL, "t").t, "std::runtime_error"); J.ghost("res", k.t); J.ghost("pending", k.t > 0); return k
    E.contracts["IoWrapper::writeOrSslWrite"] = raw
    def adv(E, c): E.prove("exactly what was sent is taken out", z3.And(J.ghost("pending"), z64(c.t(0)) == J.ghost("res")), "call"); J.ghost("used", J.ghost("used") - c.t(0)); J.ghost("pending", FALSE)
    q("advanceTail", adv)
    def gen(E, ctx): return [("nothing sent twice", z3.Not(J.ghost("pending"))), ("framed", J.ghost("frames") == 1)]
    E.loop_specs.append(gen); ok, r = J.run_any(f, this, a)
    if ok:
        J.cover("framed", J.ghost("frames") == 1); J.post("framed exactly once the connection is upgraded", (J.ghost("frames") == 1) == (st0 == 2)); J.post("the result counts the caller's bytes", r.t == z3.If(st0 == 2, framed, J.ghost("res"))); J.post("what was sent was taken out", z3.Implies(st0 == 2, z3.Not(J.ghost("pending"))))
@spec.job("IoWrapper::readWebsocketAndOrSsl")
def _(J):
    this = J.this("IoWrapper"); f = J.fn("IoWrapper::readWebsocketAndOrSsl"); a = J.args(f); E = J.E; E.opaque_keeps = "settings, http parsing and answers do not move bytes of the stream"; proto, st0 = J.f(this, "connectionProtocol"), J.f(this, "websocketState"); buf, n = a[1], a[2].t; J.ghost("pending", FALSE); J.ghost("res", bv(0)); J.ghost("mx", bv(0, 32)); J.ghost("decoded", bv(0, 32)); J.ghost("dres", bv(0)); J.ghost("raw", bv(0, 32)); J.ghost("head", bv(0)); hp = z3.Const("headref", RefS); pend = this.fld("websocketPendingBytes"); q = lambda nm, h: E.contracts.__setitem__("CirBuf::" + nm, h); ws = uge(proto, bv(1, 32)); J.ghost("dropped", FALSE)
    J.assume(z3.Or(st0 == 0, st0 == 1, st0 == 2))
    J.pure("Client::writeText", "Client::setDisconnectReason", "Client::setDisconnectStage", "Client::setReadyForWriting", "Client::respondWithRedirectURL", "Client::setAddr", "Client::getAcmeRedirectUrl", "generateWebsocketAcceptString", "generateWebsocketAnswer", "generateInvalidWebsocketVersionHttpHeaders", "generateBadHttpRequestReponse", "formatString", "startsWith"); J.pure("parseHttpHeader", throws="BadHttpRequest")
    def fresh32(nm):
        return lambda E, c: E.fresh_val(shape_of(c.ret), nm)
    q("usedBytes", fresh32("used")); q("freeSpace", fresh32("free")); q("getCapacity", fresh32("cap")); J.pure("CirBuf::doubleCapacity", throws="std::runtime_error"); q("headPtr", lambda E, c: Val(shape_of(c.ret), [hp, J.ghost("head")]))
    def mw(E, c): m = E.fresh_val(shape_of(c.ret), "mw"); J.ghost("mx", m.t); return m
    q("maxWriteSize", mw)
    def raw(E, c):
        k = E.fresh_val(shape_of(c.ret), "k"); sock = z3.And(c.args[1].lv[0] == buf.lv[0], c.args[1].lv[1] == buf.lv[1], c.t(2) == n)
        E.prove("plain connections are read straight into the caller's buffer, websocket ones into the ring, at most what fits", z3.If(WS(), z3.And(c.args[1].lv[0] == hp, c.args[1].lv[1] == J.ghost("head"), c.t(2) == z64(J.ghost("mx")), z3.Not(J.ghost("pending"))), z3.And(sock, J.ghost("raw") == 0)), "call"); E.assume(ule(k.t + 1, c.t(2) + 1)); E.havoc_loc(E.deref(c.args[3])); E.maybe_throw(E.fresh_val(BOOL, "t").t, "std::runtime_error"); J.ghost("raw", J.ghost("raw") | 1); J.ghost("res", k.t); J.ghost("pending", k.t > 0); return k
    E.contracts["IoWrapper::readOrSslRead"] = raw
    def adv(E, c): E.prove("exactly what was read is added", z3.And(J.ghost("pending"), z64(c.t(0)) == J.ghost("res")), "call"); J.ghost("head", J.ghost("head") + z64(c.t(0))); J.ghost("pending", FALSE)
    q("advanceHead", adv)
    def reset(E, c): E.prove("buffered bytes are only dropped by the upgrade itself", st0 == 0, "call"); J.ghost("dropped", TRUE)
    q("reset", reset); q("resetCapacity", lambda E, c: None)
    def dec(E, c): E.prove("frames are decoded straight into the caller's buffer, once, and only after the upgrade", z3.And(WS(), c.args[0].lv[0] == buf.lv[0], c.args[0].lv[1] == buf.lv[1], c.t(1) == n, st0 != 0, J.ghost("decoded") == 0, z3.Not(J.ghost("pending"))), "call"); k = E.fresh_val(shape_of(c.ret), "d"); E.havoc_loc(E.deref(c.args[2])); J.ghost("decoded", bv(1, 32)); J.ghost("dres", k.t); E.assume(ule(k.t, n)); return k
    E.contracts["IoWrapper::websocketBytesToReadBuffer"] = dec; wsv = ENUM["Ws"]; WS = lambda: proto == wsv
    def gen(E, ctx): return [("everything read was added", z3.Not(J.ghost("pending"))), ("not decoded", J.ghost("decoded") == 0)]
    E.loop_specs.append(gen); J.assume(ule(proto, bv(wsv, 32))); ok, r = J.run_any(f, this, a)
    if ok:
        J.cover("decoded", J.ghost("decoded") == 1); J.post("plain connections pass through", z3.Implies(z3.Not(WS()), z3.And(J.ghost("raw") == 1, r.t == J.ghost("res")))); J.post("a positive count is what was decoded", z3.Implies(z3.And(WS(), r.t > 0, r.t != J.ghost("res")), z3.And(J.ghost("decoded") == 1, r.t == J.ghost("dres")))); J.post("everything read was added", z3.Implies(WS(), z3.Not(J.ghost("pending"))))
ENUM = {"Ws": 2}
