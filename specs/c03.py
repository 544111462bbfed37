"""C03: legal topic filters, topics, share names."""
from fvc.spec import *
from specs.strloop import *
spec = Spec("C03", ["utils.cpp", "mqttpacket.cpp"], harness="c03.cpp", harness_secs=10, standin="parseSubscriptionShare and the SUBSCRIBE, UNSUBSCRIBE and PUBLISH handlers are run on enumerated and random filters (bounded)")
def one(J, fn):
    f = J.fn(fn); a = J.args(f); s = J.E.rv(a[0]).t; J.hint("s", s); return f, a, s
def every(s, p):
    i = z3.Const("i", I64); return z3.ForAll([i], z3.Implies(ult(i, slen(s)), p(i)))

@spec.job("isValidSubscribePath")
def _(J):
    f, a, s = one(J, "isValidSubscribePath")
    J.E.loop_specs.append(scan(s, lambda i: legal_char(s, i), lambda k: [("at the start of a level", z3.Or(k == 0, ch(s, k - 1, '/'))), ("after a plus", z3.And(k != 0, ch(s, k - 1, '+'))), ("after a pound", z3.And(k != 0, ch(s, k - 1, '#')))]))
    r = J.run(f, None, a).t
    before = lambda i: z3.Or(i == 0, ch(s, i - 1, '/')); last = lambda i: i + 1 == slen(s)
    legal = every(s, lambda i: z3.And(z3.Implies(ch(s, i, '+'), z3.And(before(i), z3.Or(last(i), ch(s, i + 1, '/')))), z3.Implies(ch(s, i, '#'), z3.And(before(i), last(i)))))
    J.cover("accepted", r); J.cover("refused", z3.Not(r))
    J.post("an accepted filter has every # alone in the last level and every + alone in its level", z3.Implies(r, legal))
    J.post("a filter with legal wildcards is accepted", z3.Implies(z3.Not(r), z3.Not(legal)))
def plain(J, fn, chars, empty_ok, neg=False):
    f, a, s = one(J, fn)
    clean = lambda i: z3.And(*[z3.Not(ch(s, i, c)) for c in chars])
    J.E.loop_specs.append(scan(s, clean, lambda k: []))
    r = J.run(f, None, a).t
    if neg: r = z3.Not(r)
    good = z3.And(z3.BoolVal(True) if empty_ok else slen(s) != 0, every(s, clean))
    J.cover("accepted", r); J.cover("refused", z3.Not(r))
    J.post("accepted only when it is legal", z3.Implies(r, good)); J.post("refused only when it is not", z3.Implies(z3.Not(r), z3.Not(good)))
@spec.job("isValidPublishPath")
def _(J): plain(J, "isValidPublishPath", "#+", False)
@spec.job("isValidShareName")
def _(J): plain(J, "isValidShareName", "#+/", False)
@spec.job("containsDangerousCharacters")
def _(J): plain(J, "containsDangerousCharacters", "#+", True, neg=True)
