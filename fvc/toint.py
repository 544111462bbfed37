"""Second translation of an obligation: machine integers as mathematical integers with intervals (every bit-vector term t is
represented by an integer congruent to t modulo 2^w; wrap-around is written as an explicit mod unless the interval excludes it).
Anything outside the handled operators becomes an unconstrained atom, so 'unsat' here implies validity of the original obligation."""
import z3
K = z3
class Tr:
    def __init__(s, pc):
        s.memo = {}; s.bm = {}; s.atoms = {}; s.side = []; s.bounds = {}; s.keep = []
        for f in pc: s.scan(f)
    def scan(s, f):
        if z3.is_and(f):
            for c in f.children(): s.scan(c)
            return
        neg = False
        while z3.is_not(f): neg = not neg; f = f.arg(0)
        if not z3.is_app(f) or f.num_args() != 2: return
        k = f.decl().kind(); a, b = f.arg(0), f.arg(1)
        flip = {z3.Z3_OP_SLEQ: z3.Z3_OP_SGEQ, z3.Z3_OP_SGEQ: z3.Z3_OP_SLEQ, z3.Z3_OP_SLT: z3.Z3_OP_SGT, z3.Z3_OP_SGT: z3.Z3_OP_SLT, z3.Z3_OP_ULEQ: z3.Z3_OP_UGEQ, z3.Z3_OP_UGEQ: z3.Z3_OP_ULEQ, z3.Z3_OP_ULT: z3.Z3_OP_UGT, z3.Z3_OP_UGT: z3.Z3_OP_ULT}
        if k not in flip: return
        if z3.is_bv_value(a): a, b = b, a; k = flip[k]
        if not z3.is_bv_value(b): return
        if neg: k = {z3.Z3_OP_SLEQ: z3.Z3_OP_SGT, z3.Z3_OP_SGEQ: z3.Z3_OP_SLT, z3.Z3_OP_SLT: z3.Z3_OP_SGEQ, z3.Z3_OP_SGT: z3.Z3_OP_SLEQ, z3.Z3_OP_ULEQ: z3.Z3_OP_UGT, z3.Z3_OP_UGEQ: z3.Z3_OP_ULT, z3.Z3_OP_ULT: z3.Z3_OP_UGEQ, z3.Z3_OP_UGT: z3.Z3_OP_ULEQ}[k]
        w = a.size(); lo, hi = s.bounds.get(a.get_id(), (-(1 << (w - 1)), (1 << (w - 1)) - 1)); s.keep.append(a)
        c = b.as_signed_long(); u = b.as_long()
        if k == z3.Z3_OP_SLEQ: hi = min(hi, c)
        elif k == z3.Z3_OP_SLT: hi = min(hi, c - 1)
        elif k == z3.Z3_OP_SGEQ: lo = max(lo, c)
        elif k == z3.Z3_OP_SGT: lo = max(lo, c + 1)
        elif k == z3.Z3_OP_ULEQ and c >= 0: lo = max(lo, 0); hi = min(hi, c)
        elif k == z3.Z3_OP_ULT and c > 0: lo = max(lo, 0); hi = min(hi, c - 1)
        if lo <= hi: s.bounds[a.get_id()] = (lo, hi)
    def atom(s, t):
        i = t.get_id()
        if i not in s.atoms:
            w = t.size(); s.keep.append(t)
            if i in s.bounds: lo, hi = s.bounds[i]
            elif w <= 32: lo, hi = 0, (1 << w) - 1
            else: lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            x = z3.Int("a!%d" % i); s.side.append(z3.And(x >= lo, x <= hi)); s.atoms[i] = (x, lo, hi)
        return s.atoms[i]
    def U(s, t):
        w = t.size(); m, lo, hi = s.bv(t); n = 1 << w
        if lo >= 0 and hi < n: return m, lo, hi
        if lo >= -n and hi < n: return z3.If(m < 0, m + n, m), 0, n - 1
        return m % n, 0, n - 1
    def S(s, t):
        w = t.size(); m, lo, hi = s.bv(t); n = 1 << w; h = n >> 1
        if lo >= -h and hi < h: return m, lo, hi
        if lo >= -h and hi < n: return z3.If(m >= h, m - n, m), -h, h - 1
        return (m + h) % n - h, -h, h - 1
    def bv(s, t):
        i = t.get_id()
        if i in s.memo: return s.memo[i]
        r = s._bv(t); s.keep.append(t)
        if i in s.bounds:   # the value itself is known to lie in this signed interval
            lo, hi = s.bounds[i]
            if r[1] < lo or r[2] > hi:
                w = t.size(); h = 1 << (w - 1)
                if r[1] >= -h and r[2] < h: r = (r[0], max(lo, r[1]), min(hi, r[2]))
        s.memo[i] = r
        return r
    def _bv(s, t):
        w = t.size()
        if z3.is_bv_value(t):
            c = t.as_signed_long() if w > 32 else t.as_long(); return z3.IntVal(c), c, c
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_BADD:
            m, lo, hi = s.bv(ch[0])
            for c in ch[1:]: a = s.bv(c); m, lo, hi = m + a[0], lo + a[1], hi + a[2]
            return m, lo, hi
        if k == z3.Z3_OP_BSUB: a, b = s.bv(ch[0]), s.bv(ch[1]); return a[0] - b[0], a[1] - b[2], a[2] - b[1]
        if k == z3.Z3_OP_BNEG: a = s.bv(ch[0]); return -a[0], -a[2], -a[1]
        if k == z3.Z3_OP_BNOT: a = s.bv(ch[0]); return -a[0] - 1, -a[2] - 1, -a[1] - 1
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            a, b = ch
            if z3.is_bv_value(b): a, b = b, a
            if z3.is_bv_value(a):
                c = a.as_signed_long(); m, lo, hi = s.bv(b); e = sorted((lo * c, hi * c)); return m * c, e[0], e[1]
            return s.atom(t)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            c = 1 << ch[1].as_long(); m, lo, hi = s.bv(ch[0]); return m * c, lo * c, hi * c
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            c = 1 << ch[1].as_long(); m, lo, hi = s.U(ch[0]); return m / c, lo // c, hi // c
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_long() > 0:
            c = ch[1].as_long(); m, lo, hi = s.U(ch[0]); return m / c, lo // c, hi // c
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long() > 0:
            c = ch[1].as_long(); m, lo, hi = s.U(ch[0]); return m % c, 0, c - 1
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and not z3.is_bv_value(ch[1]):
            a, b = s.U(ch[0]), s.U(ch[1])
            if b[1] > 0: return (a[0] / b[0], 0, a[2] // b[1]) if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (a[0] % b[0], 0, b[2] - 1)
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_signed_long() > 0:
            c = ch[1].as_signed_long(); m, lo, hi = s.S(ch[0])
            if lo >= 0: return m / c, lo // c, hi // c
            return z3.If(m >= 0, m / c, -((-m) / c)), -((-lo) // c) if lo < 0 else 0, max(hi // c if hi >= 0 else 0, 0)
        if k == z3.Z3_OP_ZERO_EXT: return s.U(ch[0])
        if k == z3.Z3_OP_SIGN_EXT: return s.S(ch[0])
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            if l == 0: return s.bv(ch[0])
            m, lo, hi = s.U(ch[0]); c = 1 << l; return m / c, lo // c, hi // c
        if k == z3.Z3_OP_CONCAT:
            m, lo, hi = s.U(ch[0])
            for c in ch[1:]:
                n = 1 << c.size(); a = s.U(c); m, lo, hi = m * n + a[0], lo * n + a[1], hi * n + a[2]
            return m, lo, hi
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            a, b = ch
            if z3.is_bv_value(b): a, b = b, a
            if z3.is_bv_value(a) and (a.as_long() & (a.as_long() + 1)) == 0 and a.as_long():
                n = a.as_long() + 1; m, lo, hi = s.U(b)
                return (m, lo, hi) if hi < n else (m % n, 0, n - 1)
        if k == z3.Z3_OP_ITE:
            c = s.b(ch[0]); a, b = s.bv(ch[1]), s.bv(ch[2]); return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        return s.atom(t)
    def b(s, t):
        i = t.get_id()
        if i not in s.bm: s.bm[i] = s._b(t); s.keep.append(t)
        return s.bm[i]
    def _b(s, t):
        if z3.is_quantifier(t): return z3.Bool("q!%d" % t.get_id())
        k = t.decl().kind(); ch = t.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return t
        if k == z3.Z3_OP_AND: return z3.And(*[s.b(c) for c in ch])
        if k == z3.Z3_OP_OR: return z3.Or(*[s.b(c) for c in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(s.b(ch[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.b(ch[0]), s.b(ch[1]))
        if k == z3.Z3_OP_XOR: return z3.Xor(s.b(ch[0]), s.b(ch[1]))
        if k == z3.Z3_OP_ITE: return z3.If(s.b(ch[0]), s.b(ch[1]), s.b(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bool(ch[0]): r = s.b(ch[0]) == s.b(ch[1])
            elif z3.is_bv(ch[0]):
                a, b = s.bv(ch[0]), s.bv(ch[1])
                if max(a[2], b[2]) - min(a[1], b[1]) < (1 << ch[0].size()): r = a[0] == b[0]
                else: r = s.U(ch[0])[0] == s.U(ch[1])[0]
            else: r = z3.Bool("e!%d" % t.get_id()) if k == z3.Z3_OP_EQ else z3.Not(z3.Bool("d!%d" % t.get_id()))
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT and not (not z3.is_bool(ch[0]) and not z3.is_bv(ch[0])) else r
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = s.U(ch[0])[0], s.U(ch[1])[0]
            return {z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_ULT: a < b, z3.Z3_OP_UGEQ: a >= b, z3.Z3_OP_UGT: a > b}[k]
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = s.S(ch[0])[0], s.S(ch[1])[0]
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k]
        return z3.Bool("b!%d" % t.get_id())
def check_int(pc, goal, ms):
    """True when the obligation is valid by integer reasoning"""
    pc = [z3.simplify(f) for f in pc if not z3.is_quantifier(f)]; g = z3.simplify(goal); s0 = z3.Solver(); s0.set("timeout", int(ms))
    tr = Tr(pc); fs = [tr.b(f) for f in pc] + [z3.Not(tr.b(g))]
    s0.add(*fs); s0.add(*tr.side)
    return s0.check() == z3.unsat
