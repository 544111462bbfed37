"""C02: a string is accepted exactly when it is UTF-8 that MQTT allows. S(p) = "the string from position p on is a sequence of allowed characters",
given by the table of well-formed byte sequences (Unicode 3.9, table 3-7), independent of the code-point arithmetic of the code."""
import itertools
from fvc.spec import *
from fvc.vals import slen, sat, StrS
spec = Spec("C02", ["utils.cpp", "threadlocalutils.cpp", "mqttpacket.cpp"], harness="c02.cpp", harness_secs=10, trusted=[],
            standin="SimdUtils::isValidUtf8 (SSE, 16 bytes at a time) against the same table, on enumerated and random strings")
class Text:
    def __init__(s, n, B, flag):
        s.n = n; s.B = B; s.flag = flag; s.S = z3.Function("S", I64, z3.BoolSort()); 
    def r(s, i, lo, hi): return z3.And(z3.UGE(s.B(i), lo), z3.ULE(s.B(i), hi))
    def hash(s, i): return z3.Or(s.B(i) == ord('#'), s.B(i) == ord('+'))
    def width(s, p):
        b = s.B(p); return z3.If(z3.ULT(b, 0x80), bv(1), z3.If(z3.ULT(b, 0xE0), bv(2), z3.If(z3.ULT(b, 0xF0), bv(3), bv(4))))
    def okchar(s, p):
        r = s.r; c = lambda i: r(p + i, 0x80, 0xBF); last = lambda i: z3.Or(s.B(p + i) == 0xBE, s.B(p + i) == 0xBF)
        one = z3.And(r(p, 0x20, 0x7E), z3.Not(z3.And(s.flag, s.hash(p))))
        two = z3.Or(z3.And(r(p, 0xC2, 0xC2), r(p + 1, 0xA0, 0xBF)), z3.And(r(p, 0xC3, 0xDF), c(1)))
        non3 = z3.And(r(p, 0xEF, 0xEF), z3.Or(z3.And(r(p + 1, 0xB7, 0xB7), r(p + 2, 0x90, 0xAF)), z3.And(r(p + 1, 0xBF, 0xBF), last(2))))
        three = z3.And(c(1), c(2), r(p, 0xE0, 0xEF), z3.Implies(r(p, 0xE0, 0xE0), r(p + 1, 0xA0, 0xBF)), z3.Implies(r(p, 0xED, 0xED), r(p + 1, 0x80, 0x9F)), z3.Not(non3))
        non4 = z3.And(s.B(p + 1) & 0x0F == 0x0F, r(p + 2, 0xBF, 0xBF), last(3))
        four = z3.And(c(1), c(2), c(3), r(p, 0xF0, 0xF4), z3.Implies(r(p, 0xF0, 0xF0), r(p + 1, 0x90, 0xBF)), z3.Implies(r(p, 0xF4, 0xF4), r(p + 1, 0x80, 0x8F)), z3.Not(non4))
        left = s.n - p
        return z3.Or(one, z3.And(z3.UGE(left, 2), two), z3.And(z3.UGE(left, 3), three), z3.And(z3.UGE(left, 4), four))
    def unfold(s, p): return z3.Implies(z3.ULE(p, s.n), s.S(p) == z3.Or(p == s.n, z3.And(s.okchar(p), s.S(p + s.width(p)))))
    def state(s, k, m, t, cp):
        """k bytes read, m bytes of a character of t bytes still to come, cp its value so far; one statement per (t, m)"""
        b = lambda i, mask: z3.ZeroExt(24, s.B(i) & mask); S0 = s.S(bv(0)); out = []; cases = [m == 0]
        out.append(("between characters", z3.Implies(m == 0, cp == 0)))
        for T in (0, 1, 2, 3, 4): out.append(("between characters, after one of %d" % T, z3.Implies(z3.And(m == 0, t == T if T else z3.Or(t == 0, z3.UGT(t, 4))), S0 == s.S(k))))
        for T in (2, 3, 4):
            for e in range(1, T):
                p = k - e; c = z3.And(t == T, m == T - e); cases.append(c); lead = {2: (0xE0, 0xC0, 0x1F), 3: (0xF0, 0xE0, 0x0F), 4: (0xF8, 0xF0, 7)}[T]
                val = b(p, lead[2]) << (6 * (T - 1))
                for i in range(1, e): val = val | (b(p + i, 0x3F) << (6 * (T - 1 - i)))
                out.append(("%d bytes of a character of %d" % (e, T), z3.Implies(c, z3.And(z3.UGE(k, e), s.B(p) & lead[0] == lead[1], *[s.B(p + i) & 0xC0 == 0x80 for i in range(1, e)], cp == val, S0 == s.S(p)))))
        return [("within the string", z3.ULE(k, s.n)), ("the bytes still to come", z3.Or(*cases))] + out
for nth, f in enumerate(("std::basic_string<", "std::basic_string_view<")):
    @spec.job("isValidUtf8Generic" + (" of a view" if nth else ""), houdini_ms=3000)
    def _(J, f=f):
        E = J.E; fs = [x for x in J.prog.byqn["isValidUtf8Generic"] if x.params[0]["t"].noref().s.replace("const ", "").startswith(f)]; f = fs[0]; a = J.args(f); v = E.rv(a[0])
        n, B = (slen(v.t), lambda i: sat(v.t, i)) if v.sh.kind == "str" else (v.lv[0], lambda i: z3.Select(v.lv[1], i)); J.hint("s", v.t) if v.sh.kind == "str" else None; J.assume(ult(n, bv(1 << 62))); T = Text(n, B, a[1].t)
        def gen(E, ctx):
            out = []; x = lambda m: resize(m.h, 64, False)
            for k in ctx.ints():
                if k.h.size() < 32: continue
                for e in range(4): E.st.pc.append(z3.Implies(z3.UGE(x(k), e), T.unfold(x(k) - e)))
                for m, t, cp in itertools.permutations([y for y in ctx.ints() if y.h.size() == 32 and y is not k], 3):  out += T.state(x(k), m.h, t.h, cp.h)
            return out
        E.loop_specs.append(gen); r = J.run(f, None, a).t; z = bv(0)
        J.cover("accepted", r); J.post("accepted exactly when it is UTF-8 that MQTT allows", r == T.S(z))
