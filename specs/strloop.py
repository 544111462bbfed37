"""Candidate loop invariants over strings, found by the loop-invariant fixpoint whatever the loop looks like."""
from fvc.spec import *
from fvc.vals import slen, sat
def ch(s, i, c): return sat(s, i) == bv(ord(c), 8)
def legal_char(s, i):
    """the i-th character of a topic filter is legal where it stands (looking backwards only)"""
    b = lambda c: ch(s, i - 1, c)
    wild = z3.Or(ch(s, i, '+'), ch(s, i, '#'))
    return z3.And(z3.Implies(z3.And(wild, i != 0), b('/')), z3.Implies(z3.And(i != 0, b('+')), ch(s, i, '/')), z3.Implies(i != 0, z3.Not(b('#'))))
def counters(ctx): return [(str(m.key), resize(m.h, 64, False)) for m in ctx.ints() if m.h.size() >= 32]
def scan(s, elem, states):
    """elem(i): holds for every character already seen; states(i): name -> predicate of the position that some bool/int flag may track"""
    def gen(E, ctx):
        out = []; i = z3.Const("i", I64)
        for nm, k in counters(ctx):
            out.append(("%s within the string" % nm, z3.ULE(k, slen(s))))
            for d in (0, 1): out.append(("every character before %s%+d is legal" % (nm, -d), z3.ForAll([i], z3.Implies(z3.ULT(i, k - d) if d == 0 else z3.And(z3.ULT(i, k), i + 1 != k), elem(i)))))
            for n, p in states(k):
                for m in ctx.bools(): out.append(("flag %s = %s" % (m.key, n), m.h == p)); out.append(("flag %s = not %s" % (m.key, n), m.h == z3.Not(p)))
                for m in ctx.ints():
                    if m.h.size() <= 32: out.append(("flag", (m.h != 0) == p)); out.append(("flag", (m.h == 0) == p))
            for m in ctx.ints():
                if m.h.size() == 8: out.append(("previous character", z3.Implies(k != 0, m.h == sat(s, k - 1))))
        return out
    return gen
