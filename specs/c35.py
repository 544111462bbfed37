"""C35: login succeeds only with a valid credential or where anonymous is allowed."""
from fvc.spec import *
from fvc.vals import slen
from fvc.engine import str_lit
from fvc.vals import Loc, StrS, RefS, null
spec = Spec("C35", ["plugin.cpp", "mqttpacket.cpp", "threaddata.cpp", "client.cpp", "types.cpp"], harness="c35.cpp", harness_secs=12, trusted=["the hash functions of OpenSSL compute what they name"],
            standin="random password files, plugins and listeners; whole connections on the real code (bounded)")
OK, DENIED, ERR, ASYNC = 0, 11, 13, 50
G32 = z3.BitVecSort(32)
@spec.job("Authentication::loginCheck")
def _(J):
    this = J.this("Authentication"); f = J.fn("Authentication::loginCheck"); E = J.E; a = J.args(f); E.opaque_keeps = "logging and locking change no decision"; anon = a[5].t; hasf, fres = z3.Bool("in_file"), z3.BitVec("file_result", 32); none = slen(E.load(this.fld("mosquittoPasswordFile")).t) == 0
    fam, init = J.f(this, "pluginFamily"), J.f(this, "initialized"); J.assume(ule(fam, bv(3, 32))); J.ghost("asked", z3.BoolVal(False)); pres = z3.BitVec("plugin_result", 32); thr = z3.Bool("plugin_throws"); J.assume(z3.Or(fres == OK, fres == DENIED))
    def file(E, c): E.prove("for this user and password", z3.And(E.rv(c.args[0]).t == E.rv(a[1]).t, E.rv(c.args[1]).t == E.rv(a[2]).t), "call"); return Val(shape_of(c.ret), [hasf, fres])
    E.contracts["Authentication::loginCheckFromMosquittoPasswordFile"] = file
    def plug(v):
        def h(E, c):
            E.prove("an uninitialised plugin is not asked", z3.And(init, fam == v), "call"); J.ghost("asked", TRUE)
            if v == 2: E.prove("about this client", z3.And(*[E.rv(c.args[k + 1]).t == E.rv(a[k]).t for k in range(3)]), "call"); E.maybe_throw(thr, "runtime_error")
            return Val(shape_of(c.ret), [pres])
        return h
    J.fnptr(this, "flashmq_plugin_login_check_v1", plug(2)); J.fnptr(this, "unpwd_check_v2", plug(3))
    r = J.run(f, this, a).t; byfile = z3.And(z3.Not(none), hasf)
    J.post("the right password in the file is accepted", z3.Implies(z3.And(byfile, fres == OK), r == OK)); J.post("and the plugin is not asked", z3.Implies(z3.And(byfile, fres == OK), z3.Not(J.ghost("asked"))))
    J.post("an anonymous user outside the file", z3.Implies(z3.And(z3.Not(byfile), fam == 0), r == z3.If(anon, bv(OK, 32), bv(DENIED, 32))))
    J.post("the wrong password is refused where the file alone decides", z3.Implies(z3.And(byfile, fres != OK, fam == 0), r == DENIED))
    dec = z3.And(fam != 0, z3.Not(z3.And(byfile, fres == OK)), z3.Not(z3.And(z3.Not(none), z3.Not(hasf), anon)))
    J.post("otherwise the plugin decides", z3.Implies(z3.And(dec, init, fam != 1), z3.And(J.ghost("asked"), r == z3.If(z3.And(fam == 2, thr), bv(ERR, 32), pres)))); J.post("an uninitialised plugin accepts nobody", z3.Implies(z3.And(dec, z3.Not(init)), r == ERR))
@spec.job("Authentication::extendedAuth")
def _(J):
    this = J.this("Authentication"); f = J.fn("Authentication::extendedAuth"); E = J.E; a = J.args(f); E.opaque_keeps = "logging and locking change no decision"; fam, init = J.f(this, "pluginFamily"), J.f(this, "initialized"); J.assume(ule(fam, bv(3, 32))); J.ghost("asked", z3.BoolVal(False)); pres = z3.BitVec("plugin_result", 32); thr = z3.Bool("plugin_throws")
    def h(E, c): E.prove("an uninitialised plugin is not asked", z3.And(init, fam == 2), "call"); J.ghost("asked", TRUE); E.maybe_throw(thr, "runtime_error"); return Val(shape_of(c.ret), [pres])
    J.fnptr(this, "flashmq_plugin_extended_auth_v1", h)
    ok, r = J.run_any(f, this, a); J.post("accepted only by the plugin", z3.Implies(z3.And(ok, r.t == OK), z3.And(J.ghost("asked"), z3.Not(thr), pres == OK))); J.post("the plugin's answer is passed on", z3.Implies(z3.And(ok, J.ghost("asked")), r.t == z3.If(thr, bv(ERR, 32), pres)))
@spec.job("Authentication::loginCheckFromMosquittoPasswordFile")
def _(J):
    this = J.this("Authentication"); f = J.fn("Authentication::loginCheckFromMosquittoPasswordFile"); E = J.E; a = J.args(f); user, pw = E.rv(a[0]).t, E.rv(a[1]).t; mp = E.load(this.fld("mosquittoPasswordEntries")).lv[0]; J.ghost("fed", bv(0, 32)); st = {}
    H, D = z3.Const("H", z3.ArraySort(I64, z3.BitVecSort(8))), z3.Const("D", z3.ArraySort(I64, z3.BitVecSort(8))); L, sz = z3.BitVec("L", 32), z3.BitVec("size", 32); J.assume(ule(L, bv(64, 32))); J.assume(z3.And(uge(sz, bv(1, 32)), ule(sz, bv(64, 32)))); J.ghost("sha", z3.BoolVal(False)); J.ghost("pbk", z3.BoolVal(False))
    E.contracts["EVP_MD_CTX_reset"] = lambda E, c: (J.ghost("fed", bv(0, 32)), E.fresh_result(c.ret, "n"))[1]; J.pure("EVP_DigestInit_ex"); E.contracts["EVP_MD_get_size"] = lambda E, c: Val(shape_of(c.ret), [sz])
    def is_pw(p, n): return FALSE if E.load(p.lv[0]).sh.kind != 'str' else z3.And(E.load(p.lv[0]).t == pw, p.lv[1] == 0, resize(n, 64, False) == slen(pw))
    def is_salt(p, n):
        l = p.lv[0]; E.assume(ult(E.load(l).lv[0], bv(1 << 30))) if E.load(l).sh.kind == "vec" else None; same = z3.And(l.root[1] == mp, l.path[0][1] == user, p.lv[1] == 0, resize(n, 64, False) == E.load(l).lv[0]) if l.root[0] == "B" and len(l.path) == 2 and l.path[0][0] == "k" else FALSE
        st["salt"] = l; return same
    def upd(E, c):
        k = J.ghost("fed"); E.prove("the password is hashed, then the salt of this user" , z3.If(k == 0, is_pw(c.v(1), c.t(2)), z3.And(k == 1, is_salt(c.v(1), c.t(2)))), "call"); J.ghost("fed", k + 1); return E.fresh_result(c.ret, "n")
    def put(p, arr): l = p.lv[0]; v = E.load(l); E.store(l, Val(v.sh, [arr] if len(v.lv) == 1 else [v.lv[0], arr]))
    def fin(E, c): E.prove("password and salt are hashed", J.ghost("fed") == 2, "call"); put(c.v(1), H); E.store(c.v(2).lv[0], Val(E.load(c.v(2).lv[0]).sh, [L])); J.ghost("sha", TRUE); return E.fresh_result(c.ret, "n")
    def pb(E, c): E.prove("the key is derived from the password and this user's salt", z3.And(is_pw(c.v(0), c.t(1)), is_salt(c.v(2), c.t(3)), uge(c.t(6), sz)), "call"); put(c.v(7), D); J.ghost("pbk", TRUE); return E.fresh_result(c.ret, "n")
    E.contracts["EVP_DigestUpdate"] = upd; E.contracts["EVP_DigestFinal_ex"] = fin; E.contracts["PKCS5_PBKDF2_HMAC"] = pb
    J.assume(ult(slen(pw), bv(65536))); k = z3.Const('k', StrS)
    r = J.run(f, this, a); l = st["salt"]; mv = E.load(Loc(l.root, (), l.rsh, l.rsh)); es = mv.sh.elem; off = lambda n: 2 + es.fields[n][0]; sel = lambda k: z3.Select(mv.lv[k], user)
    typ, cl, ca = sel(off("type")), sel(off("cryptedPassword")), sel(off("cryptedPassword") + 1); inside = z3.And(mp != null, z3.Select(mv.lv[1], user)); j = z3.Const("j", I64)
    same = lambda arr, n: z3.And(cl == n, z3.ForAll([j], z3.Implies(z3.ULT(j, n), z3.Select(ca, j) == z3.Select(arr, j))))
    good = z3.Or(z3.And(typ == 0, J.ghost("sha"), same(H, resize(L, 64, False))), z3.And(typ == 1, J.ghost("pbk"), same(D, resize(sz, 64, False))))
    J.post("a verdict exactly for users of the file", z3.Implies(mp != null, r.lv[0] == inside)); J.post("success exactly when the stored hash is the hash of this password", z3.And(r.lv[0], r.lv[1] == OK) == z3.And(inside, good)); J.post("otherwise the login is denied", z3.Implies(z3.And(r.lv[0], r.lv[1] != OK), r.lv[1] == DENIED))
@spec.job("MqttPacket::handleConnect")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::handleConnect"); a = J.args(f); E = J.E; E.opaque_keeps = "logging, settings, counters and getters do not change the packet or the decision"; J.ghost("asked", z3.BoolVal(False)); J.ghost("res", bv(0, 32)); J.ghost("set", z3.BoolVal(False)); J.ghost("user", str_lit(b"")); D = []
    lres, xres, x509, hap, ov = z3.BitVecs("lres xres x509 hap override", 32); J.pure("getSecureRandomString", "containsDangerousCharacters", "Client::stageConnack", "Client::stageWill", "ConnAck::ConnAck", "MqttPacket::MqttPacket", "ConnAck::~ConnAck", "MqttPacket::~MqttPacket", "Client::writeMqttPacket", "Client::setClientId", "SubscriptionStore::lockSession")
    for n, v in (("Client::getX509ClientVerification", x509), ("Client::getHaProxyMode", hap), ("Client::getAllowAnonymousOverride", ov)): E.contracts[n] = lambda E, c, v=v: Val(shape_of(c.ret), [v])
    J.assume(ule(x509, bv(2, 32))); J.assume(ule(ov, bv(2, 32))); J.assume(ule(hap, bv(3, 32)))
    certhas, cert, hpname = z3.Bool("certhas"), z3.Const("cert", StrS), z3.Const("cn", StrS); SV = []
    E.contracts["Client::getUsernameFromPeerCertificate"] = lambda E, c: Val(shape_of(c.ret), [certhas, cert]); 
    def gcn(E, c): return E.temp(Val(shape_of(c.ret.noref()), [z3.Bool("cnhas"), hpname]))
    E.contracts["Client::getHaProxySslCnName"] = gcn; sref = z3.Const("the_settings", RefS); J.assume(sref != null)
    E.contracts["ThreadGlobals::getSettings"] = lambda E, c: (SV.append(E.load(E.deref(Val(shape_of(c.ret), [sref])).fld("allowAnonymous")).t), Val(shape_of(c.ret), [sref]))[1]
    def parse(E, c): v = E.fresh_val(shape_of(c.ret), "data"); D.append(v); E.assume(z3.Implies(fld(v, "username")[0], slen(fld(v, "username")[1]) != 0)); return v      # proved below
    E.contracts["MqttPacket::parseConnectData"] = parse
    def props(E, c): J.ghost("user", E.rv(c.args[3]).t); J.ghost("set", TRUE)
    E.contracts["Client::setClientProperties"] = props
    def fld(v, n): o = v.sh.fields[n]; return v.lv[o[0]:o[0] + o[1].nl()]
    fixed = z3.Or(x509 != 0, hap == 1, hap == 2)
    def login(E, c): d = D[0]; E.prove("asked with the connection's user and password", z3.And(J.ghost("set"), E.rv(c.args[1]).t == J.ghost("user"), E.rv(c.args[2]).t == fld(d, "password")[0]), "call"); E.prove("anonymous access is what the listener or the settings say", c.t(5) == z3.If(ov == 0, SV[0], ov == 1), "call"); J.ghost("asked", TRUE); J.ghost("res", lres); return Val(shape_of(c.ret), [lres])
    def ext(E, c): J.ghost("asked", TRUE); J.ghost("res", xres); return Val(shape_of(c.ret), [xres])
    E.contracts["Authentication::loginCheck"] = login; E.contracts["Authentication::extendedAuth"] = ext; sa = []
    def cont(E, c):
        r = E.rv(c.args[1]).t; d = D[0]; noname = z3.Not(fld(d, "username")[0]); nometh = slen(fld(d, "authenticationMethod")[0]) == 0; E.prove("a checked login has the outcome of the check", z3.Implies(J.ghost("asked"), r == J.ghost("res")), "call")
        E.prove("accepted without a check only anonymously or by certificate", z3.Implies(z3.And(r == OK, z3.Not(J.ghost("asked"))), z3.Or(z3.And(noname, nometh, z3.If(ov == 0, SV[0], ov == 1)), x509 == 1, hap == 2)), "call")
        E.prove("the name from the certificate is the user", z3.And(z3.Implies(x509 != 0, z3.And(certhas, J.ghost("user") == cert, slen(cert) != 0)), z3.Implies(z3.Or(hap == 2, hap == 3), z3.And(J.ghost("user") == hpname, slen(hpname) != 0))), "call")
    E.contracts["ThreadData::continuationOfAuthentication"] = cont
    J.run_any(f, this, a)
@spec.job("MqttPacket::parseConnectData")
def _(J):
    this = J.this("MqttPacket"); f = J.fn("MqttPacket::parseConnectData"); a = J.args(f); E = J.E; E.opaque_keeps = "property parsing and logging do not touch the result's username"
    J.pure("isValidUtf8Generic", "isValidUtf8", "parseBridge"); J.pure("MqttPacket::readByte", "MqttPacket::readBytesToString", "MqttPacket::readTwoBytesToUInt16", "MqttPacket::readFourBytesToUint32", "MqttPacket::decodeVariableByteIntAtPos", "MqttPacket::readBytes", "formatString", "Client::isBridge", "MqttPacket::readBytesToStringOptional", "containsDangerousCharacters", throws="ProtocolError")
    ok, r = J.run_any(f, this, a); u = r.sh.fields["username"]; J.post("a username that was sent is not empty", z3.Implies(z3.And(ok, r.lv[u[0]]), slen(r.lv[u[0] + 1]) != 0))
