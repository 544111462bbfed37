"""C25: persistence file values round trip."""
from persist_c import *
spec = Spec("C25", ["persistencefile.cpp", "utils.cpp"], harness="c25.cpp", harness_secs=15, trusted=["fwrite/fread/feof: full transfer, or short count with error or end-of-file"])
def setup(J):
    this = J.this("PersistenceFile"); g = Ghost(J); J.assume(uge(J.E.load(this.fld("buf")).lv[0], bv(1 << 20))); J.assume(ule(J.E.load(this.fld("buf")).lv[0], bv(1 << 33)))
    return this, g
def eofl(J):
    return J.E.temp(J.E.boolv(FALSE), "eof")
def rt(name, ty, wr, rd, n):
    @spec.job("%s / %s" % (wr, rd), exhaust=10, bounds=True)
    def _(J):
        this, g = setup(J); x = J.sym(ty, "x"); J.hint("x", x.t); p0 = g.pos; s0 = g.size; d0 = g.data
        r, _v = J.run_any("PersistenceFile::" + wr, this, [x])
        if not r: return
        J.cover("written"); j = z3.Const("j", I64)
        J.post("writes exactly %d bytes" % n, g.pos == p0 + n); J.post("earlier bytes untouched", z3.ForAll([j], z3.Implies(ult(j, p0), z3.Select(g.data, j) == z3.Select(d0, j))))
        g.put("pos", p0); eof = eofl(J)
        r, v = J.run_any("PersistenceFile::" + rd, this, [eof])
        if r:
            e = J.rv(eof).t
            J.cover("read back", z3.Not(e)); J.post("reads back the same value", z3.Implies(z3.Not(e), v.t == x.t)); J.post("reads exactly what was written", z3.Implies(z3.Not(e), g.pos == p0 + n))
            J.post("no end of file when all is there", z3.Not(e))
    @spec.job("%s at the end of the file" % rd, exhaust=10, bounds=True)
    def _(J):
        this, g = setup(J); J.assume(ult(g.size - g.pos, bv(n))); eof = eofl(J)
        r, v = J.run_any("PersistenceFile::" + rd, this, [eof])
        if r: J.post("reading past the end is reported", J.rv(eof).t)
for a in (("i64", "long", "writeInt64", "readInt64", 8), ("u32", "unsigned int", "writeUint32", "readUint32", 4), ("u16", "unsigned short", "writeUint16", "readUint16", 2), ("u8", "unsigned char", "writeUint8", "readUint8", 1)): rt(*a)

def str_eq(a, b):
    i = z3.Const("i", I64); return z3.And(slen(a) == slen(b), z3.ForAll([i], z3.Implies(ult(i, slen(a)), sat(a, i) == sat(b, i))))
@spec.job("writeString / readString", exhaust=10, bounds=True)
def _(J):
    this, g = setup(J); f = J.fn("PersistenceFile::writeString"); s = J.sym("std::basic_string<char>", "s") if False else Val(STR, [z3.Const("s", StrS)])
    J.assume(ule(slen(s.t), bv(65535))); J.hint("s", s.t); p0 = g.pos
    r, _v = J.run_any(f, this, [J.E.temp(s)])
    if not r: return
    J.cover("written"); J.post("writes four bytes more than the string", g.pos == p0 + 4 + slen(s.t))
    g.put("pos", p0); eof = eofl(J)
    r, v = J.run_any("PersistenceFile::readString", this, [eof])
    if r:
        J.post("no end of file when all is there", z3.Not(J.rv(eof).t))
        J.post("reads back the same string", str_eq(v.t, s.t)); J.post("reads exactly what was written", g.pos == p0 + 4 + slen(s.t))
@spec.job("readString at the end of the file", exhaust=10, bounds=True)
def _(J):
    this, g = setup(J); n = z3.Concat(*[z3.Select(g.data, g.pos + i) for i in range(4)])
    J.assume(z3.Or(ult(g.size - g.pos, bv(4)), ult(g.size - g.pos - 4, z3.ZeroExt(32, n)))); eof = eofl(J)
    J.hint("n", n); J.hint("have", g.size - g.pos)
    r, v = J.run_any("PersistenceFile::readString", this, [eof])
    if r: J.post("reading past the end is reported", J.rv(eof).t)

@spec.job("writeOptionalString / readOptionalString", exhaust=10, bounds=True)
def _(J):
    this, g = setup(J); f = J.fn("PersistenceFile::writeOptionalString"); o = J.sym(f.params[0]["t"].to, "o"); has, s = o.lv[0], o.lv[1]
    J.assume(ule(slen(s), bv(65535))); p0 = g.pos; E = J.E
    ENC = z3.Function("string_stored_at", A8, I64, StrS)   # contract of writeString/readString (proved above)
    def ws(E, c):
        p = g.pos; t = c.t(0); d = g.data; nd = fresh("data", A8); j = z3.Const("j", I64)
        E.prove("writeString precondition: at most 65535 bytes", ule(slen(t), bv(65535)), "precondition")
        E.maybe_throw(z3.Bool(fresh_name("write_failed")), "std::runtime_error")
        E.assume(z3.ForAll([j], z3.Implies(ult(j, p), z3.Select(nd, j) == z3.Select(d, j)))); E.assume(ENC(nd, p) == t)
        g.put("data", nd); g.put("pos", p + 4 + slen(t)); g.put("size", z3.If(ult(g.size, g.pos), g.pos, g.size))
    def rs(E, c):
        p = g.pos; t = ENC(g.data, p); fits = ule(p + 4 + slen(t), g.size)
        E.maybe_throw(z3.Or(z3.Bool(fresh_name("read_failed")), ugt(slen(t), bv(65535))), "std::runtime_error")
        r = E.fresh_val(STR, "rs"); e = E.load(c.args[0]).t; E.assume(z3.Implies(fits, r.t == t))
        E.store(c.args[0], E.boolv(z3.Or(e, z3.Not(fits)))); g.put("pos", z3.If(fits, p + 4 + slen(t), fresh("badpos", I64)))
        return r
    E.contracts["PersistenceFile::writeString"] = ws; E.contracts["PersistenceFile::readString"] = rs
    r, _v = J.run_any(f, this, [J.E.temp(o)])
    if not r: return
    J.cover("written"); end = g.pos; g.put("pos", p0); eof = eofl(J)
    J.post("bytes written", end == p0 + z3.If(has, 5 + slen(s), bv(1)))
    r, v = J.run_any("PersistenceFile::readOptionalString", this, [eof])
    if r:
        J.post("no end of file when all is there", z3.Not(J.rv(eof).t))
        J.post("absent stays absent, present stays present", v.lv[0] == has); J.post("reads back the same string", z3.Implies(has, v.lv[1] == s)); J.post("reads exactly what was written", g.pos == end)
