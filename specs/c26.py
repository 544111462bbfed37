"""C26: a crash while saving never damages the previous state file."""
from fvc.spec import *
from fvc.models import unre, is_bytes, resize
spec = Spec("C26", ["persistencefile.cpp", "retainedmessagesdb.cpp", "sessionsandsubscriptionsdb.cpp", "subscriptionstore.cpp", "utils.cpp"], harness="c26.cpp", harness_secs=15,
            trusted=["POSIX: rename replaces the target in one step; fsync returning 0 means the content is on disk", "stdio: a failed write or read sets the stream's error flag, which only rewind and clearerr reset; fflush returning 0 with the flag unset means all was handed to the kernel", "EVP_DigestUpdate/Final compute SHA-512 of the concatenation of what was passed"])
HDR, MAGIC, HASH = 96, 32, 64
class FS:
    """ghost stdio stream and directory entries"""
    def __init__(g, J, this):
        g.J, g.this = J, this; E = J.E; E.opaque_keeps = "logging, formatting and random strings do not touch files or this object"
        g.f = E.load(this.fld("f")).lv[0]
        for k in ("err", "eof", "clean", "synced", "closed", "hashed", "init", "live"): J.ghost(k, FALSE)
        for k in ("pos", "size", "from", "to", "rd0", "rdn"): J.ghost(k, bv(0))
        J.ghost("data", z3.Const("data0", A8)); J.ghost("digest", z3.Const("digest0", A8)); J.ghost("verified", FALSE); g.mustverify = g.wanthash = g.reading = False; J.ghost("abandoned", FALSE)
        J.ghost("renames", bv(0, 32)); J.ghost("unlinks", bv(0, 32)); J.ghost("excs", z3.BitVec("excs", 32)); J.ghost("final", FALSE)
        for n in ("fwrite", "fread", "fseek", "ftell", "rewind", "feof", "ferror", "fflush", "fsync", "fclose", "rename", "unlink", "fopen", "open", "creat", "fdopen"):
            h = getattr(g, n, None)
            if h: E.contracts[n] = h
        for n in ("EVP_MD_CTX_reset", "EVP_DigestInit_ex", "EVP_DigestUpdate", "EVP_DigestFinal_ex"): E.contracts[n] = getattr(g, n)
        E.contracts["std::uncaught_exceptions"] = lambda E, c: Val(shape_of(c.ret), [J.ghost("excs")])
    def mine(g, c, i): g.J.E.prove("the stream of this file, still open", z3.And(c.v(i).lv[0] == g.f, z3.Not(g.J.ghost("closed"))), "call")
    def i32(g, c, t): return Val(shape_of(c.ret), [t])
    def fail(g): return z3.Bool(fresh_name("fails"))
    def ferror(g, E, c): g.mine(c, 0); r = fresh("ferror", z3.BitVecSort(32)); E.assume((r != 0) == g.J.ghost("err")); return g.i32(c, r)
    def feof(g, E, c): g.mine(c, 0); r = fresh("feof", z3.BitVecSort(32)); E.assume((r != 0) == g.J.ghost("eof")); return g.i32(c, r)
    def fseek(g, E, c):
        g.mine(c, 0); J = g.J; bad = g.fail(); w = z3.simplify(c.t(2)); off = c.t(1)
        J.ghost("err", z3.Or(J.ghost("err"), z3.And(bad, z3.Not(J.ghost("clean"))))); J.ghost("eof", FALSE)
        E.assume(z3.Implies(bad, z3.Not(J.ghost("clean"))))      # seeking in a regular file fails only when pending data cannot be written; otherwise that is written
        base = z3.If(c.t(2) == 0, bv(0), z3.If(c.t(2) == 2, J.ghost("size"), J.ghost("pos"))); J.ghost("pos", z3.If(bad, J.ghost("pos"), base + off))
        J.ghost("clean", z3.Not(bad)); r = fresh("fseek", z3.BitVecSort(32)); E.assume((r != 0) == bad); return g.i32(c, r)
    def rewind(g, E, c): g.mine(c, 0); g.J.ghost("err", FALSE); g.J.ghost("eof", FALSE); g.J.ghost("pos", bv(0))
    def ftell(g, E, c): g.mine(c, 0); return Val(shape_of(c.ret), [g.J.ghost("pos")])
    D = property(lambda g: g.J.ghost("data"))
    def same(g, E, p, src, so, n, k=z3.Const("ck", I64)):
        from fvc.models import bytes_at
        b = unre(p.lv[0]); o = p.lv[1] if len(p.lv) > 1 else bv(0); a = bytes_at(E, b, o, n); return z3.ForAll([k], z3.Implies(ult(k, n), z3.Select(a, o + k) == z3.Select(src, so + k)))
    def fwrite(g, E, c):
        g.mine(c, 3); J = g.J; n = resize(c.t(1), 64, False) * resize(c.t(2), 64, False); bad = g.fail(); r = fresh("fwrite", I64)
        E.assume(z3.If(bad, ult(r, c.t(2)), r == c.t(2))); E.assume(z3.Implies(n == 0, z3.Not(bad))); J.ghost("err", z3.Or(J.ghost("err"), bad)); J.ghost("clean", FALSE); J.ghost("synced", FALSE); J.ghost("data", fresh("data", A8))
        p = J.ghost("pos"); lit = is_bytes(unre(c.v(0).lv[0])); md = z3.And(J.ghost("final"), g.same(E, c.v(0), J.ghost("digest"), bv(0), bv(HASH))) if g.wanthash and lit else FALSE
        J.ghost("hashed", z3.And(z3.Not(bad), md, p == MAGIC, n == HASH)); J.ghost("pos", z3.If(bad, fresh("p", I64), p + n)); J.ghost("size", z3.If(bad, fresh("s", I64), z3.If(ult(J.ghost("size"), p + n), p + n, J.ghost("size"))))
        return Val(shape_of(c.ret), [r])
    def fread(g, E, c):
        from fvc.models import dst_write
        g.mine(c, 3); J = g.J; n = resize(c.t(1), 64, False) * resize(c.t(2), 64, False); bad = g.fail(); r = fresh("fread", I64); p = J.ghost("pos"); left = J.ghost("size") - p
        if g.mustverify: E.prove("content is read only after the hash was verified", J.ghost("verified"), "call")
        k = z3.If(ule(n, left), n, left); E.prove("reads bytes", c.t(1) == 1, "call"); E.assume(z3.If(bad, ule(r, k), r == k)); E.assume(z3.Implies(n == 0, z3.Not(bad)))
        dst_write(E, unre(c.v(0).lv[0]), c.v(0).lv[1] if len(c.v(0).lv) > 1 else bv(0), g.D, p, r)
        J.ghost("err", z3.Or(J.ghost("err"), bad)); J.ghost("eof", z3.Or(J.ghost("eof"), z3.And(z3.Not(bad), ult(k, n)))); J.ghost("rd0", p); J.ghost("rdn", r); J.ghost("pos", p + r)
        return Val(shape_of(c.ret), [r])
    def fflush(g, E, c): g.mine(c, 0); J = g.J; bad = g.fail(); J.ghost("err", z3.Or(J.ghost("err"), bad)); J.ghost("clean", z3.Not(bad)); r = fresh("fflush", z3.BitVecSort(32)); E.assume((r != 0) == bad); return g.i32(c, r)
    def fsync(g, E, c): J = g.J; bad = g.fail(); J.ghost("synced", z3.And(z3.Not(bad), J.ghost("clean"), z3.Not(J.ghost("closed")))); r = fresh("fsync", z3.BitVecSort(32)); E.assume(z3.If(bad, r == -1, r == 0)); return g.i32(c, r)
    def fclose(g, E, c): g.mine(c, 0); g.J.ghost("closed", TRUE); r = fresh("fclose", z3.BitVecSort(32)); E.assume(z3.Or(r == 0, r == -1)); return g.i32(c, r)
    def path(g, c, i): return c.v(i).lv
    def isp(g, c, i, fld): b = unre(c.v(i).lv[0]); return z3.BoolVal(isinstance(b, Loc) and b.path == g.this.fld(fld).path and b.root == g.this.fld(fld).root) if isinstance(b, Loc) else FALSE
    def rename(g, E, c):
        J = g.J; r = fresh("rename", z3.BitVecSort(32)); E.assume(z3.Or(r == 0, r == -1)); J.ghost("renames", J.ghost("renames") + 1)
        if g.reading: E.prove("only a file with a wrong hash is moved aside", z3.And(g.isp(c, 0, "filePath"), g.isp(c, 1, "filePathCorrupt"), J.ghost("final"), z3.Not(g.match())), "call")
        else:
            E.prove("the temporary file replaces the final one", z3.And(g.isp(c, 0, "filePathTemp"), g.isp(c, 1, "filePath")), "call")
            E.prove("only a completely written and hashed file is renamed", z3.And(J.ghost("hashed"), z3.Not(J.ghost("err"))), "call"); E.prove("only a file that is on disk is renamed", z3.And(J.ghost("synced"), J.ghost("clean"), J.ghost("closed")), "call")
            E.prove("an abandoned save is not renamed", z3.Not(J.ghost("abandoned")), "call")
        return g.i32(c, r)
    def unlink(g, E, c): J = g.J; E.prove("only the temporary file is removed", g.isp(c, 0, "filePathTemp"), "call"); J.ghost("unlinks", J.ghost("unlinks") + 1); return E.fresh_val(shape_of(c.ret), "unlink")
    def match(g, k=z3.Const("mk", I64)): return z3.ForAll([k], z3.Implies(ult(k, bv(HASH)), z3.Select(g.D, k + MAGIC) == z3.Select(g.J.ghost("digest"), k)))
    # digest
    def EVP_MD_CTX_reset(g, E, c): g.J.ghost("live", FALSE); return E.fresh_val(shape_of(c.ret), "reset")
    def EVP_DigestInit_ex(g, E, c): J = g.J; J.ghost("live", TRUE); J.ghost("from", J.ghost("pos")); J.ghost("to", J.ghost("pos")); J.ghost("final", FALSE); return E.fresh_val(shape_of(c.ret), "init")
    def EVP_DigestUpdate(g, E, c):
        J = g.J; n = c.t(2); E.prove("hashes exactly what was just read", z3.And(J.ghost("live"), J.ghost("rd0") == J.ghost("to"), n == J.ghost("rdn"), z3.Not(J.ghost("err"))), "call"); E.prove("hashes the bytes of the file", g.same(E, c.v(1), g.D, J.ghost("rd0"), n), "call"); J.ghost("to", J.ghost("to") + n); return E.fresh_val(shape_of(c.ret), "upd")
    def EVP_DigestFinal_ex(g, E, c):
        from fvc.models import dst_write
        J = g.J; E.prove("the hash covers everything after the header", z3.And(J.ghost("live"), J.ghost("from") == HDR, J.ghost("to") == J.ghost("size"), z3.Not(J.ghost("err"))), "call"); J.ghost("live", FALSE); J.ghost("final", TRUE); J.ghost("digest", fresh("digest", A8)); b = unre(c.v(1).lv[0]); dst_write(E, b, c.v(1).lv[1], J.ghost("digest"), bv(0), bv(HASH))
        l = c.v(2).lv[0]; E.store(l, Val(l.sh, [bv(HASH, 32)])); return E.fresh_val(shape_of(c.ret), "fin")
def setup(J, cls="PersistenceFile"):
    this = J.this(cls); g = FS(J, this); J.assume(uge(J.E.load(this.fld("buf")).lv[0], bv(1 << 20))); J.assume(ule(J.E.load(this.fld("buf")).lv[0], bv(1 << 33))); return this, g
MODE = dict(unknown=0, read=1, write=2)
def start(J): J.ghost("pos", z3.BitVec("pos", 64)); J.ghost("size", z3.BitVec("size", 64)); J.ghost("err", z3.Bool("err0")); J.assume(z3.And(ule(J.ghost("size"), bv(1 << 50)), J.ghost("pos") <= J.ghost("size"), J.ghost("pos") >= 0)); return J.ghost("size")
def hashing(J, size): return lambda E, ctx: [("everything up to here is hashed, or an error is pending", z3.Or(z3.And(J.ghost("err"), z3.Not(J.ghost("eof"))), z3.And(J.ghost("live"), z3.Not(J.ghost("err")), J.ghost("from") == HDR, J.ghost("to") == J.ghost("pos"), ule(bv(HDR), J.ghost("pos")), ule(J.ghost("pos"), size), z3.Implies(J.ghost("eof"), J.ghost("pos") == size), J.ghost("size") == size)))]
@spec.job("PersistenceFile::hashFile", bounds=True)
def _(J):
    this, g = setup(J); E = J.E; size = start(J); J.assume(uge(size, bv(HDR))); g.wanthash = True; E.loop_specs.append(hashing(J, size))
    ok, _ = J.run_any("PersistenceFile::hashFile", this, [])
    if ok: J.cover("hashed", J.ghost("hashed")); J.post("the hash of the whole content is in the header", J.ghost("hashed")); J.post("nothing is cut off or added", J.ghost("size") == size); J.post("neither renamed nor removed", z3.And(J.ghost("renames") == 0, J.ghost("unlinks") == 0))
@spec.job("PersistenceFile::verifyHash", bounds=True)
def _(J):
    this, g = setup(J); E = J.E; size = start(J); g.reading = True; J.ghost("clean", TRUE); J.ghost("err", FALSE); E.loop_specs.append(hashing(J, size)); d0 = g.D
    ok, _ = J.run_any("PersistenceFile::verifyHash", this, [])
    if ok: J.post("the hash in the header is that of the content", z3.And(J.ghost("final"), g.match())); J.post("a good file stays where it is", z3.And(J.ghost("renames") == 0, J.ghost("unlinks") == 0)); J.post("the file stays open", z3.And(z3.Not(J.ghost("closed")), J.f(this, "f") == g.f))
    def bad(ety, val): J.post("a file with a wrong hash is moved aside, only that", (J.ghost("renames") == 1) == z3.And(J.ghost("final"), z3.Not(g.match()))); J.post("nothing is removed", J.ghost("unlinks") == 0); J.post("a closed file is forgotten", z3.Implies(J.ghost("closed"), J.f(this, "f") == null))
    J.on_throws(bad)
@spec.job("PersistenceFile::closeFile")
def _(J):
    this, g = setup(J); E = J.E; start(J); f0, m0, d0, e0 = g.f, J.f(this, "openMode"), J.f(this, "discard"), J.ghost("excs"); J.ghost("abandoned", z3.Or(d0, e0 > J.f(this, "uncaughtExceptionsAtConstruction")))
    def hf(E, c): E.maybe_throw(g.fail(), "std::runtime_error"); J.ghost("hashed", TRUE); J.ghost("clean", FALSE); J.ghost("synced", FALSE); J.ghost("err", z3.Bool(fresh_name("err"))); E.prove("hashed while the file is open", z3.Not(J.ghost("closed")), "call")
    E.contracts["PersistenceFile::hashFile"] = hf; J.assume(z3.Not(e0 < 0))
    ok, _ = J.run_any("PersistenceFile::closeFile", this, [])
    if ok:
        J.cover("renamed", J.ghost("renames") == 1); J.cover("abandoned", J.ghost("unlinks") == 1); w = z3.And(f0 != null, m0 == 2)
        J.post("closed", z3.And(J.f(this, "f") == null, z3.Implies(f0 != null, J.ghost("closed")))); J.post("only a written file replaces the final one", z3.Implies(J.ghost("renames") != 0, w)); J.post("a save that was not abandoned becomes visible", z3.Implies(z3.And(w, z3.Not(J.ghost("abandoned")), slen(J.f(this, "filePath")) != 0, slen(J.f(this, "filePathTemp")) != 0), z3.And(J.ghost("renames") == 1, J.ghost("unlinks") == 0)))
        J.post("an abandoned one is removed", z3.Implies(z3.And(w, J.ghost("abandoned"), slen(J.f(this, "filePath")) != 0, slen(J.f(this, "filePathTemp")) != 0), z3.And(J.ghost("renames") == 0, J.ghost("unlinks") == 1)))
    J.on_throws(lambda ety, val: J.post("a failure removes nothing", J.ghost("unlinks") == 0))
@spec.job("PersistenceFile::openWrite", bounds=True)
def _(J):
    this, g = setup(J); E = J.E; f = J.fn("PersistenceFile::openWrite"); a = J.args(f); m0 = J.f(this, "openMode")
    def opn(E, c): E.prove("only the temporary file is created", z3.And(g.isp(c, 0, "filePathTemp"), m0 == 0), "call"); return E.fresh_val(shape_of(c.ret), "fd")
    def fdo(E, c): r = z3.Const(fresh_name("FILE"), RefS); g.f = r; J.ghost("closed", FALSE); J.ghost("pos", bv(0)); J.ghost("size", bv(0)); J.ghost("err", FALSE); return Val(shape_of(c.ret), [r])
    E.contracts["open"] = opn; E.contracts["fdopen"] = fdo
    def rw(E, c): g.mine(c, 0); E.prove("no write error is forgotten", z3.Or(J.ghost("clean"), J.ghost("size") == 0), "call"); FS.rewind(g, E, c)
    E.contracts["rewind"] = rw; n = slen(E.load(a[0]).t); J.assume(ule(n, bv(1 << 40)))
    ok, _ = J.run_any(f, this, a)
    if ok: J.post("in write mode, after the header", z3.And(J.f(this, "openMode") == 2, J.f(this, "f") == g.f, z3.Implies(z3.Not(J.ghost("err")), z3.And(J.ghost("pos") == HDR, J.ghost("size") == HDR)))); J.post("the version fits before the hash", ule(n, bv(MAGIC))); J.post("nothing renamed or removed", z3.And(J.ghost("renames") == 0, J.ghost("unlinks") == 0))
@spec.job("PersistenceFile::openRead", bounds=True)
def _(J):
    this, g = setup(J); E = J.E; f = J.fn("PersistenceFile::openRead"); a = J.args(f); g.mustverify = True; g.reading = True; J.ghost("verified", FALSE); m0 = J.f(this, "openMode")
    def fop(E, c): E.prove("the final file is read", z3.And(g.isp(c, 0, "filePath"), m0 == 0), "call"); r = z3.Const(fresh_name("FILE"), RefS); g.f = r; start(J); J.ghost("err", FALSE); J.ghost("clean", TRUE); return Val(shape_of(c.ret), [r])
    def vh(E, c): E.maybe_throw(g.fail(), "std::runtime_error"); J.ghost("verified", TRUE); J.assume(uge(J.ghost("size"), bv(HDR))); J.ghost("pos", J.ghost("size"))
    E.contracts["fopen"] = fop; E.contracts["PersistenceFile::verifyHash"] = vh; ok, _ = J.run_any(f, this, a)
    if ok: J.post("the hash was verified", J.ghost("verified")); J.post("in read mode", J.f(this, "openMode") == 1); J.post("nothing renamed or removed", z3.And(J.ghost("renames") == 0, J.ghost("unlinks") == 0))
    J.on_throws(lambda ety, val: J.post("nothing renamed or removed", z3.And(J.ghost("renames") == 0, J.ghost("unlinks") == 0)))
@spec.job("PersistenceFile::~PersistenceFile")
def _(J):
    this, g = setup(J); E = J.E; m0 = J.f(this, "openMode"); J.ghost("calls", bv(0, 32)); J.ghost("failed", FALSE)
    def cl(E, c):
        J.ghost("calls", J.ghost("calls") + 1); fail = g.fail(); J.ghost("failed", fail); left = z3.Const(fresh_name("left"), RefS); E.assume(z3.Or(left == null, left == g.f)); E.store(this.fld("f"), Val(this.fld("f").sh, [z3.If(fail, left, null)])); E.maybe_throw(fail, "std::runtime_error")
    E.contracts["PersistenceFile::closeFile"] = cl; ok, _ = J.run_any("PersistenceFile::~PersistenceFile", this, [])
    J.on_throws(lambda ety, val: J.post("nothing escapes the destructor", FALSE))
    if ok: J.post("the file is closed properly", J.ghost("calls") == 1); J.post("nothing is renamed after a failure", J.ghost("renames") == 0); J.post("a file being read is not removed", z3.Implies(J.ghost("unlinks") != 0, z3.And(m0 == 2, J.ghost("failed"))))
@spec.job("PersistenceFile::writeCheck / readCheck")
def _(J):
    this, g = setup(J); E = J.E; f = J.fn("PersistenceFile::writeCheck"); a = J.args(f); J.assume(a[3].t == g.f); start(J); J.ghost("err", FALSE); E.contracts["fwrite"] = lambda E, c: (E.prove("the caller's bytes", z3.And(c.v(0).lv[0] == a[0].lv[0], c.v(0).lv[1] == a[0].lv[1], c.t(1) == a[1].t, c.t(2) == a[2].t, c.v(3).lv[0] == g.f), "call"), J.ghost("wr", E.fresh_val(shape_of(c.ret), "n").t), Val(shape_of(c.ret), [J.ghost("wr")]))[2]
    ok, _ = J.run_any(f, this, a)
    if ok: J.post("everything was written", J.ghost("wr") == a[2].t)
    J.on_throws(lambda ety, val: J.post("it fails only when not everything was written", J.ghost("wr") != a[2].t))
@spec.job("RetainedMessagesDB::closeFile")
def _(J):
    this = J.this("RetainedMessagesDB"); g = FS(J, this); E = J.E; start(J); J.ghost("err", FALSE); m0, lp, wc = J.f(this, "openMode"), J.f(this, "length_pos"), J.f(this, "written_count"); J.ghost("w", bv(0, 32)); J.ghost("base", bv(0, 32))
    def wu(E, c): E.prove("the number of messages goes where it is read", z3.And(J.ghost("pos") == lp, c.t(0) == wc, J.ghost("base") == 0), "call"); J.ghost("w", J.ghost("w") + 1); E.maybe_throw(g.fail(), "std::runtime_error")
    def cl(E, c): E.prove("the number of messages is in place before the file is hashed", z3.Implies(z3.And(m0 == 2, lp > 0, wc != 0), J.ghost("w") == 1), "call"); J.ghost("base", J.ghost("base") + 1); E.maybe_throw(g.fail(), "std::runtime_error")
    E.contracts["PersistenceFile::writeUint32"] = wu; E.contracts["PersistenceFile::closeFile"] = cl; E.contracts["fseek"] = lambda E, c: (J.ghost("pos", c.t(1)), E.fresh_val(shape_of(c.ret), "seek"))[1]
    ok, _ = J.run_any("RetainedMessagesDB::closeFile", this, [])
    if ok: J.post("closed when open", (J.ghost("base") == 1) == (g.f != null))
@spec.job("RetainedMessagesDB::~RetainedMessagesDB")
def _(J):
    this = J.this("RetainedMessagesDB"); g = FS(J, this); E = J.E; J.ghost("failed", FALSE); d0 = J.f(this, "discard")
    def cl(E, c): f = g.fail(); J.ghost("failed", f); E.maybe_throw(f, "std::runtime_error")
    E.contracts["RetainedMessagesDB::closeFile"] = cl; E.contracts["PersistenceFile::closeFile"] = lambda E, c: (E.prove("a failed save is marked abandoned before it is closed again", z3.Implies(J.ghost("failed"), J.f(this, "discard")), "call"), None)[1]
    ok, _ = J.run_any("RetainedMessagesDB::~RetainedMessagesDB", this, [])
    J.on_throws(lambda ety, val: J.post("nothing escapes the destructor", FALSE))
    if ok: J.post("a failed save is marked abandoned", z3.Implies(J.ghost("failed"), J.f(this, "discard"))); J.cover("failed", J.ghost("failed"))
@spec.job("SubscriptionStore::saveRetainedMessages")
def _(J):
    this = J.this("SubscriptionStore"); E = J.E; E.opaque_keeps = "logging, time and locks do not change the tree or the database object"; f = J.fn("SubscriptionStore::saveRetainedMessages"); a = J.args(f); bg = a[1].t
    box = []; J.ghost("open", FALSE); J.ghost("pending", FALSE); J.ghost("ab", FALSE)
    def ow(E, c): E.maybe_throw(z3.Bool(fresh_name("fails")), "std::runtime_error"); J.ghost("open", TRUE)
    def get(E, c): E.prove("the previous batch was saved", z3.Not(J.ghost("pending")), "call"); J.ghost("pending", TRUE); E.store(c.args[1], E.fresh_val(c.args[1].sh, "batch")); E.store(c.args[4], E.fresh_val(c.args[4].sh, "deferred")); box[:] = [c.args[4], c.args[1]]
    def sv(E, c): l = c.args[0]; E.prove("the collected batch is saved", z3.And(z3.BoolVal(isinstance(l, Loc) and l.root == box[-1].root and l.path == box[-1].path), J.ghost("open"), J.ghost("pending"), z3.Not(J.ghost("ab"))), "call"); J.ghost("pending", FALSE); E.maybe_throw(z3.Bool(fresh_name("fails")), "std::runtime_error")
    E.contracts["RetainedMessagesDB::openWrite"] = ow; E.contracts["SubscriptionStore::getRetainedMessages"] = get; E.contracts["RetainedMessagesDB::saveData"] = sv; E.contracts["RetainedMessagesDB::dontSaveTmpFile"] = lambda E, c: J.ghost("ab", TRUE); E.contracts["RetainedMessagesDB::~RetainedMessagesDB"] = lambda E, c: None
    E.loop_specs.append(lambda E, ctx: [("batches so far are saved", z3.And(z3.Not(J.ghost("pending")), z3.Not(J.ghost("ab")), J.ghost("open")))])
    ok, _ = J.run_any(f, this, a)
    if ok: J.cover("abandoned", J.ghost("ab")); J.post("a save that stops early is abandoned", z3.Or(J.ghost("ab"), z3.And(z3.Not(J.ghost("pending")), E.load(box[0]).lv[0] == 0)))
