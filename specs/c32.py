"""C32: PROXY v2 headers."""
from fvc.spec import *
from fvc import models as M
spec = Spec("C32", ["haproxy.cpp", "iowrapper.cpp", "client.cpp", "types.cpp", "mqttpacket.cpp"], harness="c32.cpp", harness_secs=10, sanitize=True, trusted=["read(2) returns at most as many bytes as asked for and writes only those"])
def z64(t): return z3.ZeroExt(64 - t.size(), t)
@spec.job("read_ha_proxy_pp2_tlv", bounds=True, houdini_ms=60)
def _(J):
    f = J.fn("read_ha_proxy_pp2_tlv"); a = J.args(f); E = J.E; d = E.load(a[0]); n, arr = d.lv[0], d.lv[1]; rc0 = E.load(a[1]).t; J.assume(z3.And(ule(n, bv(1 << 17)), rc0 >= 0, rc0 < 3)); any = z3.BitVec("any", 64); at = lambda i: z3.Select(arr, i)
    J.ghost("g", bv(0)); J.ghost("dup", FALSE); J.ghost("ssl", FALSE)
    def content(x, what):
        v = E.load(x) if isinstance(x, Loc) else x
        if v.sh.kind == "str" or len(v.lv) == 1: l, ch = slen(v.t), (lambda i: sat(v.t, i))
        else: l, ch = v.lv[0], (lambda i: z3.Select(v.lv[1], i))
        g = J.ghost("g")
        E.prove(what + ": exactly as long as its length says and inside the data", z3.And(l == z64(z3.Concat(at(g + 1), at(g + 2))), ule(g + 3 + l, n)), "call"); E.prove(what + ": its own bytes", z3.Implies(ult(any, l), ch(any) == at(g + 3 + any)), "call"); return l
    def sslc(E, c):
        l = content(c.args[0], "SSL field"); E.prove("only the SSL field holds fields", at(J.ghost("g")) == 0x20, "call"); rc = E.deref(c.args[1]) if not isinstance(c.args[1], Loc) else c.args[1]; E.prove("the nesting is counted", E.load(rc).t == rc0 + 1, "call"); th = E.fresh_val(BOOL, "t").t; J.ghost("bad", th); E.maybe_throw(th, "BadClientException"); nv = E.fresh_val(shape_of(c.ret), "ssl"); J.ghost("ssl", TRUE); J.ghost("sl", l); return nv
    E.contracts["read_ha_proxy_pp2_ssl"] = sslc; E.models = dict(E.models)
    def put(orig):
        def h(c):
            g = J.ghost("g"); k = E.rv(c.args[0]).t; v = E.rv(c.args[1]); t = at(g)
            E.prove("filed under its own type", k == z3.ZeroExt(24, t), "call")
            if v.sh.kind == "str": E.prove("an SSL field is parsed as such", t != 0x20, "call"); l = content(v, "field")
            else: E.prove("the SSL field just parsed", z3.And(J.ghost("ssl"), t == 0x20), "call"); l = J.ghost("sl")
            r = orig(c); o, fs = r.sh.fields["second"]; J.ghost("dup", z3.Or(J.ghost("dup"), z3.Not(r.lv[o]))); J.ghost("ssl", FALSE); J.ghost("g", g + 3 + l); return r
        return h
    for k in ("emplace", "try_emplace"): E.models["map::" + k] = put(E.models["map::" + k])
    J.ghost("sl", bv(0)); J.ghost("bad", FALSE)
    def gen(E, ctx): g = J.ghost("g"); return [("between fields", ule(g, n)), ("no duplicate so far", z3.Not(J.ghost("dup"))), ("no open field", z3.And(z3.Not(J.ghost("ssl")), z3.Not(J.ghost("bad"))))] + [("at the end of the last field", t == g) for m in ctx.ints(64) for t in [m.h]]
    E.loop_specs.append(gen); 
    ok, r = J.run_any(f, None, a)
    if ok:
        J.cover("fields", ugt(J.ghost("g"), bv(10))); J.post("everything was a field", J.ghost("g") == n); J.post("no field twice", z3.Not(J.ghost("dup"))); J.post("at most one level of nesting", rc0 + 1 <= 2)
    def th(ety, v):
        g = J.ghost("g"); J.post("refused for a reason", z3.Or(rc0 + 1 > 2, J.ghost("dup"), J.ghost("bad"), ugt(g + 3, n), ugt(g + 3 + z64(z3.Concat(at(g + 1), at(g + 2))), n)), "exception"); J.post("only refuses", z3.BoolVal(exname(ety).split("::")[-1] in ("BadClientException", "out_of_range"))) 
    J.on_throws(th)
@spec.job("read_ha_proxy_pp2_ssl", exhaust=5, bounds=True)
def _(J):
    f = J.fn("read_ha_proxy_pp2_ssl"); a = J.args(f); E = J.E; d = E.load(a[0]); n, arr = d.lv[0], d.lv[1]; J.assume(ule(n, bv(1 << 17))); any = z3.BitVec("any", 64); got = []; J.ghost("parsed", FALSE); J.ghost("u8", TRUE); b = lambda i: z3.Select(arr, bv(i)); rc = E.load(a[1]).t
    def tlv(E, c):
        s = E.load(c.args[0]) if isinstance(c.args[0], Loc) else c.v(0); E.prove("the fields follow the fixed part", z3.And(s.lv[0] == n - 5, z3.Implies(ult(any, n - 5), z3.Select(s.lv[1], any) == z3.Select(arr, any + 5))), "call"); E.prove("the same nesting count", E.load(c.args[1]).t == rc, "call"); E.maybe_throw(E.fresh_val(BOOL, "t").t, "BadClientException"); J.ghost("parsed", TRUE); m = E.fresh_val(shape_of(c.ret), "fields"); got.append(m)
        ix = next(o for nm, (o, fs) in m.sh.elem.fields.items() if nm == "_idx"); k = z3.BitVec("k", 32); E.assume(z3.And(*[z3.Select(m.lv[2 + ix], bv(t, 32)) == 0 for t in range(0x21, 0x26)])); return m
    E.contracts["read_ha_proxy_pp2_tlv"] = tlv; ck = z3.Function("utf8", StrS, z3.BoolSort()); E.contracts["isValidUtf8Generic"] = lambda E, c: E.boolv(ck(to_s(E, c.args[0])))
    def to_s(E, x):
        v = E.rv(x); return v.lv[0]
    ok, r = J.run_any(f, None, a)
    if ok:
        fs = lambda nm: (lambda o: r.lv[o[0]:o[0] + o[1].nl()])(r.sh.fields[nm]); m = got[0]; so = m.sh.elem.fields["_0"][0]
        J.cover("certificate", z3.And(fs("verify")[0] == 0, fs("ssl_cn")[0])); J.post("the fixed part was there", uge(n, bv(5))); J.post("client flags", fs("client")[0] == b(0)); J.post("the verification result is all four bytes", fs("verify")[0] == z3.Concat(b(1), b(2), b(3), b(4)))
        for nm, t in (("ssl_version", 0x21), ("ssl_cn", 0x22)):
            h, s = fs(nm); pres = z3.Select(m.lv[1], bv(t, 32)); src = z3.Select(m.lv[2 + so], bv(t, 32)); J.post(nm + " exactly as sent, or absent", z3.And(h == pres, z3.Implies(h, z3.And(E.str_eq(s, src), ck(s)))))
    def th(ety, v): J.post("only refuses", z3.BoolVal(exname(ety).split("::")[-1] in ("BadClientException", "out_of_range")), "exception")
    J.on_throws(th)
@spec.job("read_ha_proxy_helper")
def _(J):
    f = J.fn("read_ha_proxy_helper"); a = J.args(f); E = J.E; n = a[2].t; J.ghost("got", bv(0)); J.ghost("reads", bv(0, 32)); J.assume(ule(n, bv(1 << 31)))
    def rd(E, c):
        E.prove("into the caller's buffer, never more than asked for", z3.And(c.args[1].lv[0] == a[1].lv[0], c.args[1].lv[1] == a[1].lv[1], ule(c.t(2), n), J.ghost("got") == 0), "call"); k = E.fresh_val(shape_of(c.ret), "k"); E.assume(z3.Or(k.t == -1, ule(k.t, c.t(2)))); J.ghost("got", z3.If(k.t > 0, k.t, bv(0))); J.ghost("reads", J.ghost("reads") | 1); return k
    E.contracts["read"] = rd
    def gen(E, ctx): return [("nothing read yet", J.ghost("got") == 0)]
    E.loop_specs.append(gen); ok, r = J.run_any(f, None, a)
    if ok: J.cover("read", n == 16); J.post("all of it or refused", z3.And(r.t == n, J.ghost("got") == n))
    def th(ety, v): J.post("only refuses", z3.BoolVal(exname(ety).split("::")[-1] == "BadClientException"), "exception")
    J.on_throws(th)
@spec.job("IoWrapper::readHaProxyHeader", bounds=True)
def _(J):
    this = J.this("IoWrapper"); f = J.fn("IoWrapper::readHaProxyHeader"); a = J.args(f); E = J.E; got = []; made = []
    def h(E, c):
        l = c.args[1].lv[0]; n = c.t(2); w = M.width_of(l.sh); E.prove("what is read fits in its buffer", ule(n, bv(w)), "call"); E.prove("from the connection", c.t(0) == a[0].t, "call"); th = E.fresh_val(BOOL, "t").t; J.ghost("fail", th); E.maybe_throw(th, "BadClientException")
        E.havoc_loc(l); got.append((n, M.value_bytes(E.load(l)))); return Val(shape_of(c.ret), [n])
    E.contracts["read_ha_proxy_helper"] = h
    J.ghost("made", bv(0, 32))
    def ctor(E, c):
        v = E.load(E.deref(c.args[0])); ab = got[1][1]; b = M.value_bytes(v); fam = hd(13) >> 4; ip = [(4, 0, 4)] if len(b) == 16 else [(8, 0, 16)]
        at, src, k = (4, 0, 4) if len(b) == 16 else (8, 0, 16); port = 8 if len(b) == 16 else 32
        E.prove("the address family is the one announced", z3.And(b[0] == (2 if k == 4 else 10), b[1] == 0, (hd(13) & 0xf0) == (0x10 if k == 4 else 0x20)), "call"); E.prove("the client's address is the source address sent", z3.And(*[b[at + x] == ab[src + x] for x in range(k)]), "call"); E.prove("the client's port is the source port sent", z3.And(b[2] == ab[port], b[3] == ab[port + 1]), "call"); J.ghost("made", J.ghost("made") + 1); E.havoc_loc(c.this); made.append(b)
    hd = lambda i: got[0][1][i]; E.contracts["FMQSockaddr::FMQSockaddr"] = ctor
    J.ghost("fail", FALSE); legal = lambda: z3.And(sig(), hd(12) & 0xf0 == 0x20, z3.Or(hd(12) & 15 == 0, z3.And(hd(12) & 15 == 1, z3.Or(hd(13) & 15 == 0, z3.And(ule(hd(13) & 15, bv(2, 8)), z3.Or(hd(13) & 0xf0 == 0x10, hd(13) & 0xf0 == 0x20))))), ule(hd(13) & 0xf0, bv(0x30, 8)), uge(total_(), want_())); total_ = lambda: z3.ZeroExt(48, z3.Concat(hd(14), hd(15))); sig = lambda: z3.And(*[hd(i) == v for i, v in enumerate(b"\r\n\r\n\0\r\nQUIT\n")]); want_ = lambda: (lambda ad: z3.If(ad == 0, bv(0), z3.If(ad == 0x10, bv(12), z3.If(ad == 0x20, bv(36), bv(216)))))(hd(13) & 0xf0)
    ok, r = J.run_any(f, this, a)
    if ok:
        addr = hd(13) & 0xf0; want = z3.If(addr == 0, bv(0), z3.If(addr == 0x10, bv(12), z3.If(addr == 0x20, bv(36), bv(216)))); total = z3.ZeroExt(48, z3.Concat(hd(14), hd(15))); remote = z3.And(hd(12) & 15 == 1, hd(13) & 15 != 0); has = r.lv[0]; st = J.f(this, "mHaProxyStage"); left = z64(J.f(this, "mHaProxyAdditionalBytesLeft"))
        J.cover("IPv6", z3.And(has, addr == 0x20)); J.post("the signature is required", z3.And(*[hd(i) == v for i, v in enumerate(b"\r\n\r\n\0\r\nQUIT\n")])); J.post("version 2, command 0 or 1", z3.And(hd(12) & 0xf0 == 0x20, ule(hd(12) & 15, bv(1, 8)))); J.post("known address family", ule(addr, bv(0x30, 8))); J.post("the header is at least as long as its address", uge(total, want)); J.post("all of the address is read, nothing more", z3.And(got[0][0] == 16, got[1][0] == want))
        J.post("what follows the address is exactly what is still to be read", z3.If(total == want, st == DONE, z3.And(st == MORE, left == total - want))); J.post("an address for proxied connections, none for local ones", z3.And(has == remote, (J.ghost("made") != 0) == remote)); J.post("proxied connections are of a known protocol", z3.Implies(remote, ule(hd(13) & 15, bv(2, 8)))); J.post("kind of connection", J.f(this, "mHaProxyConnectionType") == z3.If(remote, bv(1, 32), bv(2, 32)))
    def th(ety, v): J.post("only refuses", z3.And(z3.BoolVal(exname(ety).split("::")[-1] == "BadClientException"), z3.Or(J.ghost("fail"), z3.Not(legal())) if got else J.ghost("fail")), "exception")
    J.on_throws(th)
DONE, MORE = 2, 1
@spec.job("IoWrapper::readHaProxyAdditionalData", bounds=True, houdini_ms=60)
def _(J):
    this = J.this("IoWrapper"); f = J.fn("IoWrapper::readHaProxyAdditionalData"); a = J.args(f); E = J.E; S = z3.Const("stream", A8); any = z3.BitVec("any", 64); total = z3.BitVec("total", 64); L = lambda: z64(J.f(this, "mHaProxyAdditionalBytesLeft")); D = lambda: J.val(this, "mHaProxyAdditionalData"); p0 = D().lv[0]; same = lambda v, m: z3.And(v.lv[0] == m, z3.Implies(ult(any, m), z3.Select(v.lv[1], any) == z3.Select(S, any)))
    J.assume(z3.And(same(D(), p0), ule(p0, total), ule(total, bv(65535)), L() == total - p0, J.f(this, "mHaProxyStage") == MORE)); cn0 = J.val(this, "mHaProxySslCnName"); J.ghost("p", p0); J.ghost("parsed", FALSE); J.ghost("fail", FALSE); res = []
    def rd(E, c):
        l = c.args[1].lv[0]; o = c.args[1].lv[1]; n = c.t(2); p = J.ghost("p"); E.prove("only what belongs to the header is read, into a buffer large enough", z3.And(ule(n, total - p), o == 0, ule(n, bv(l.sh.n)) if l.sh.n else FALSE), "call"); E.prove("from the connection", c.t(0) == a[0].t, "call"); k = E.fresh_val(shape_of(c.ret), "k"); E.assume(z3.Or(k.t == -1, z3.And(ule(k.t, n))))
        E.havoc_loc(l); v = E.load(l); E.assume(z3.Implies(z3.And(uge(any, p), ult(any - p, k.t), k.t != -1), z3.Select(v.lv[0], any - p) == z3.Select(S, any))); J.ghost("p", z3.If(k.t > 0, p + k.t, p)); J.ghost("fail", k.t <= 0); return k
    def ens(E, c): E.prove("no internal check fails", FALSE, "call"); raise Dead()
    E.contracts["read"] = rd; E.contracts["fmq_ensure_fail"] = ens; E.contracts["check"] = lambda E, c: E.maybe_throw(c.t(0) < 0, "BadClientException")
    def tlv(E, c):
        s = E.load(c.args[0]) if isinstance(c.args[0], Loc) else c.v(0); E.prove("the whole additional data is parsed, once it is complete", z3.And(same(s, total), L() == 0), "call"); E.prove("no nesting yet", E.load(c.args[1]).t == 0, "call"); t = E.fresh_val(BOOL, "t").t; J.ghost("fail", t); E.maybe_throw(t, "BadClientException"); J.ghost("parsed", TRUE); m = E.fresh_val(shape_of(c.ret), "fields"); res.append(m)
        ix = m.sh.elem.fields["_idx"][0]; E.assume(z3.Select(m.lv[2 + ix], bv(0x20, 32)) == 1); return m
    E.contracts["read_ha_proxy_pp2_tlv"] = tlv
    def gen(E, ctx): return [("read so far", z3.And(ule(J.ghost("p"), total), L() == total - J.ghost("p"), same(D(), J.ghost("p"))))]
    E.loop_specs.append(gen); ok, r = J.run_any(f, this, a)
    if ok:
        p = J.ghost("p"); cn = J.val(this, "mHaProxySslCnName"); J.cover("complete", J.ghost("parsed")); J.cover("incomplete", z3.Not(J.ghost("parsed"))); J.post("parsed exactly when complete", J.ghost("parsed") == (p == total)); J.post("done exactly when complete", z3.If(p == total, J.f(this, "mHaProxyStage") == DONE, z3.And(J.f(this, "mHaProxyStage") == MORE, L() == total - p, same(D(), p))))
        m = res[0]; o, fs = m.sh.elem.fields["_1"]; co, cs = fs.fields["ssl_cn"]; src = [z3.Select(x, bv(0x20, 32)) for x in m.lv[2 + o + co:2 + o + co + cs.nl()]]; pres = z3.Select(m.lv[1], bv(0x20, 32)); eq = lambda x, y: z3.And(x[0] == y[0], z3.Implies(x[0], E.str_eq(x[1], y[1]))); J.post("the certificate name is the SSL field's, or as before", z3.If(z3.And(J.ghost("parsed"), pres), eq(cn.lv, src), eq(cn.lv, cn0.lv)))
    def th(ety, v): J.post("only refuses, and for a reason", z3.And(z3.BoolVal(exname(ety).split("::")[-1] == "BadClientException"), J.ghost("fail")), "exception")
    J.on_throws(th)
DONE, MORE = 2, 1
@spec.job("Client::readHaProxyData")
def _(J):
    this = J.this("Client"); f = J.fn("Client::readHaProxyData"); E = J.E; stg = lambda: J.f(this, "ioWrapper", "mHaProxyStage"); s0 = stg(); J.ghost("h", FALSE); J.ghost("m", FALSE); hs = z3.BitVec("stage1", 32); ms = z3.BitVec("stage2", 32); has = z3.Bool("has"); J.assume(z3.Or(s0 == 0, s0 == MORE)); got = []; fam0 = J.f(this, "addr", "family"); J.assume(z3.Or(hs == MORE, hs == DONE)); J.assume(z3.Or(ms == MORE, ms == DONE)); st = this.fld("ioWrapper").fld("mHaProxyStage")
    def h(E, c): E.prove("the header is read once, first", z3.And(stg() == 0, z3.Not(J.ghost("h"))), "call"); E.maybe_throw(E.fresh_val(BOOL, "t").t, "BadClientException"); J.ghost("h", TRUE); E.store(st, Val(st.sh, [hs])); v = E.fresh_val(shape_of(c.ret), "a"); got.append(v); return v
    def m(E, c): E.prove("the rest is read only after the header", z3.And(stg() == MORE, z3.Not(J.ghost("m"))), "call"); E.maybe_throw(E.fresh_val(BOOL, "t").t, "BadClientException"); J.ghost("m", TRUE); E.store(st, Val(st.sh, [ms]))
    E.contracts["IoWrapper::readHaProxyHeader"] = h; E.contracts["IoWrapper::readHaProxyAdditionalData"] = m; ok, r = J.run_any(f, this, [])
    if ok:
        v = got[0]; ad = J.val(this, "addr"); o, fs = ad.sh.fields["family"]; new = v.lv[1 + o]; J.post("the source address becomes the client's address", J.f(this, "addr", "family") == z3.If(z3.And(J.ghost("h"), v.lv[0]), new, fam0)); J.post("the header is read when it is due", J.ghost("h") == (s0 == 0)); J.post("the rest is read when it is due", J.ghost("m") == (z3.If(s0 == 0, hs, s0) == MORE)); J.post("reports the stage reached", r.t == stg())
