"""C18: the access-control file decides as written."""
from fvc.spec import *
from fvc.vals import slen
from fvc.vals import Loc, StrS, RefS, null
from fvc.engine import SIter, str_lit
spec = Spec("C18", ["acltree.cpp", "plugin.cpp", "utils.cpp"], harness="c18.cpp", harness_secs=12, trusted=["the recursion of findPermissionRecursive ends because the topic has finitely many levels left"],
            standin="random access files loaded and queried on the real code, compared with the rules as written (bounded)")
DENY, READ, WRITE, RW = 0, 1, 2, 3
G32 = z3.BitVecSort(32)
def vty(J): return shape_of(J.fn("AclTree::findPermission").params[0]["t"].noref())
HAS = z3.Function("contains", I64, z3.ArraySort(I64, G32), G32, z3.BoolSort())      # the vector (length, elements) holds this grant
@spec.job("AclTree::findPermissionRecursive")
def _(J):
    this = J.this("AclTree"); f = J.fn("AclTree::findPermissionRecursive"); E = J.E; a = J.args(f); g = z3.BitVec("grant", 32)
    lv = E.fresh_val(vty(J), "levels"); l = E.temp(lv); i, n = z3.Const("at", I64), lv.lv[0]; J.assume(ule(i, n)); a[0] = Val(a[0].sh, [SIter(l, i)]); a[1] = Val(a[1].sh, [SIter(l, n)])
    M = z3.Function("Match", RefS, I64, z3.BoolSort()); node = E.deref(a[2]); user, cid = E.rv(a[4]).t, E.rv(a[5]).t; J.assume(a[2].lv[0] != null)
    ch, gr, gp, plus = E.load(node.fld("children")), E.load(node.fld("grants")), E.load(node.fld("grantsPound")), E.load(node.fld("childrenPlus")).lv[0]; hu, hc = J.f(node, "_hasUserWildcard"), J.f(node, "_hasClientidWildcard")
    level = z3.Select(lv.lv[1], i); eq = lambda x, y: E.str_eq(x, y); U, C = str_lit(b"%u"), str_lit(b"%c"); kid = lambda k: z3.Select(ch.lv[2], k); has = lambda k: z3.Select(ch.lv[1], k)
    J.assume(z3.Implies(hu, has(U))); J.assume(z3.Implies(hc, has(C)))      # class invariant, proved for AclNode::getChildren below
    k = z3.Const("k", StrS); J.assume(z3.ForAll([k], z3.Implies(has(k), kid(k) != null), patterns=[kid(k)]))
    J.assume(z3.ForAll([k], z3.Implies(has(k), ch.lv[0] != 0), patterns=[has(k)]))
    for v in (gr, gp): J.assume(z3.Implies(v.lv[0] == 0, z3.Not(HAS(v.lv[0], v.lv[1], g))))
    inn = lambda v: HAS(v.lv[0], v.lv[1], g); nxt = i + 1; variable = z3.Or(z3.And(hu, eq(level, U)), z3.And(hc, eq(level, C)))
    want = z3.If(i == n, z3.Or(inn(gr), inn(gp)), z3.Or(inn(gp), z3.And(has(level), z3.Not(variable), M(kid(level), nxt)), z3.And(hu, slen(user) != 0, eq(level, user), M(kid(U), nxt)), z3.And(hc, slen(cid) != 0, eq(level, cid), M(kid(C), nxt)), z3.And(plus != null, M(plus, nxt))))
    J.ghost("in", z3.Bool("in0")); in0 = J.ghost("in")
    def ins(E, c):
        x, y = c.v(1).lv[0], c.v(2).lv[0]; v = E.load(x.loc); E.prove("whole lists are collected", z3.And(x.idx == 0, y.idx == v.lv[0]), "call"); J.ghost("in", z3.Or(J.ghost("in"), inn(v))); return E.fresh_result(c.ret, "it")
    E.models = dict(E.models); E.models["seq::insert"] = lambda c: ins(E, c)
    def rec(E, c):
        it, e = c.v(0).lv[0], c.v(1).lv[0]; E.prove("the same topic", z3.And(e.idx == n, ule(it.idx, n)), "call"); E.prove("a level further down", it.idx == nxt, "call"); E.prove("the same client", z3.And(E.rv(c.args[4]).t == user, E.rv(c.args[5]).t == cid), "call"); E.prove("an existing node", c.v(2).lv[0] != null, "call")
        J.ghost("in", z3.Or(J.ghost("in"), M(c.v(2).lv[0], it.idx)))
    E.contracts["AclTree::findPermissionRecursive"] = rec
    J.run(f, this, a); J.cover("found", z3.And(z3.Not(in0), J.ghost("in"))); J.post("exactly the grants of the matching rules are collected", J.ghost("in") == z3.Or(in0, want));
@spec.job("AclTree::findPermission")
def _(J):
    this = J.this("AclTree"); f = J.fn("AclTree::findPermission"); E = J.E; a = J.args(f); acc = a[1].t; J.assume(z3.Or(acc == READ, acc == WRITE)); user, cid = E.rv(a[2]).t, E.rv(a[3]).t
    J.assume(z3.Implies(acc == READ, slen(cid) != 0)); J.ghost("n", bv(0, 32)); l = this.fld("collectedPermissions"); roots = []; per = E.load(this.fld("rootPerUser")); deny0 = z3.BoolVal(False); j = z3.Const("j", I64); calls = []
    eu = slen(user) == 0; ea = ep = z3.BoolVal(False); J.assume(z3.Not(J.f(this, "rootAnonymous", "empty"))); J.assume(z3.Not(J.f(this, "rootPatterns", "empty"))); J.assume(z3.Not(z3.Select(per.lv[2 + per.sh.elem.fields["empty"][0]], user)))     # no code marks a node empty (proved below)
    def rec(E, c):
        p = c.v(2).lv[0]; kind = None
        x, y = c.v(0).lv[0], c.v(1).lv[0]; E.prove("the whole topic is matched", z3.And(x.idx == 0, y.idx == E.load(x.loc).lv[0]), "call"); E.prove("for this client", z3.And(E.rv(c.args[4]).t == user, E.rv(c.args[5]).t == cid), "call")
        v = E.load(l); nv = E.fresh_val(v.sh, "more"); E.store(l, nv); E.assume(ule(v.lv[0], nv.lv[0])); E.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, v.lv[0]), z3.Select(nv.lv[1], j) == z3.Select(v.lv[1], j)), patterns=[z3.Select(nv.lv[1], j)]))
        w = p.path; J.ghost("n", J.ghost("n") + 1)
        if w == this.fld("rootPatterns").path: J.ghost("pat", TRUE)
        elif w == this.fld("rootAnonymous").path: E.prove("general rules apply to clients without a username", eu, "call"); J.ghost("gen", TRUE)
        elif w[:1] == this.fld("rootPerUser").path and w[1:] and w[1][0] == "k" and w[1][1].eq(user): E.prove("rules of the user", z3.And(z3.Or(z3.Not(eu), ea), z3.Select(per.lv[1], user)), "call"); J.ghost("usr", TRUE)
        else: E.prove("a root of the tree", FALSE, "call")
    for n in ("pat", "gen", "usr"): J.ghost(n, z3.BoolVal(False))
    E.contracts["AclTree::findPermissionRecursive"] = rec
    right = lambda x: z3.Or(x == RW, x == acc)
    def gen(E, ctx):
        v = E.load(l); out = []; i = z3.Const("i", I64)
        for m in ctx.ints(64):
            for x in ctx.bools():
                w = z3.Exists([i], z3.And(z3.ULT(i, m.h), z3.ULT(i, v.lv[0]), right(z3.Select(v.lv[1], i)))); out.append(("allowed only by a grant seen", z3.Implies(x.h, w)))
                out.append(("every grant seen allows", z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, m.h), right(z3.Select(v.lv[1], i))), x.h), patterns=[z3.Select(v.lv[1], i)])))
            out.append(("no denial seen", z3.ForAll([i], z3.Implies(z3.ULT(i, m.h), z3.Select(v.lv[1], i) != DENY), patterns=[z3.Select(v.lv[1], i)])))
        return out
    E.loop_specs.append(gen)
    r = J.run(f, this, a).t; v = E.load(l); at = lambda j: z3.Select(v.lv[1], j); i = z3.Const("any", I64)
    J.post("a matching denial always denies", z3.Implies(z3.And(z3.ULT(i, v.lv[0]), at(i) == DENY), r == 12)); J.post("granted or denied, nothing else", z3.Or(r == 0, r == 12))
    J.post("a matching grant of the right grants when nothing denies", z3.Implies(z3.And(z3.ULT(i, v.lv[0]), right(at(i)), z3.ForAll([j], z3.Implies(z3.ULT(j, v.lv[0]), at(j) != DENY))), z3.And(r == 0)))
    J.post("granted only by a matching grant of the right", z3.Implies(r == 0, z3.Exists([j], z3.And(z3.ULT(j, v.lv[0]), right(at(j))))))
    J.post("patterns are considered before granting", z3.Implies(z3.And(r == 0, z3.Not(ep)), J.ghost("pat")))
    J.post("general rules are considered for a client without username", z3.Implies(z3.And(eu, z3.Not(ea)), J.ghost("gen")))
    J.post("the rules of the user are considered", z3.Implies(z3.And(z3.Not(eu), z3.Select(per.lv[1], user)), J.ghost("usr")))

@spec.job("AclNode::getChildren")
def _(J):
    this = J.this("AclNode"); f = J.fn("AclNode::getChildren", ["string", "bool"]); E = J.E; a = J.args(f); name, pat = E.rv(a[0]).t, a[1].t; l = this.fld("children"); ch = E.load(l); k = z3.Const("k", StrS); hu, hc = J.f(this, "_hasUserWildcard"), J.f(this, "_hasClientidWildcard"); U, C = str_lit(b"%u"), str_lit(b"%c")
    J.assume(z3.Implies(hu, z3.Select(ch.lv[1], U))); J.assume(z3.Implies(hc, z3.Select(ch.lv[1], C))); J.assume(z3.Implies(z3.And(pat, z3.Select(ch.lv[1], U)), hu)); J.assume(z3.Implies(z3.And(pat, z3.Select(ch.lv[1], C)), hc)); J.assume(z3.ForAll([k], z3.Implies(z3.Select(ch.lv[1], k), z3.Select(ch.lv[2], k) != null), patterns=[z3.Select(ch.lv[2], k)]))
    r = J.run(f, this, a).lv[0]; n = E.load(l); had = z3.Select(ch.lv[1], name); nu, nc = J.f(this, "_hasUserWildcard"), J.f(this, "_hasClientidWildcard"); x = z3.Const("x", StrS)
    J.post("the child of that name", z3.And(z3.Select(n.lv[1], name), z3.Select(n.lv[2], name) == r, r != null)); J.post("an existing child is kept", z3.Implies(had, r == z3.Select(ch.lv[2], name))); J.post("no other child changes", z3.Implies(z3.Not(E.str_eq(x, name)), z3.And(z3.Select(n.lv[1], x) == z3.Select(ch.lv[1], x), z3.Select(n.lv[2], x) == z3.Select(ch.lv[2], x))))
    J.post("variables are known to be children", z3.And(z3.Implies(nu, z3.Select(n.lv[1], U)), z3.Implies(nc, z3.Select(n.lv[1], C)))); J.post("%u and %c are variables exactly in patterns", z3.And(z3.Implies(pat, nu == z3.Select(n.lv[1], U)), z3.Implies(pat, nc == z3.Select(n.lv[1], C)), z3.Implies(z3.Not(pat), z3.And(nu == hu, nc == hc))))
@spec.job("AclNode::getChildrenPlus")
def _(J):
    this = J.this("AclNode"); f = [x for x in J.prog.byqn["AclNode::getChildrenPlus"] if not x.id.endswith("#1")][0]; E = J.E; p0 = E.load(this.fld("childrenPlus")).lv[0]
    r = J.run(f, this, []).lv[0]; J.post("the one child for '+'", z3.And(r != null, E.load(this.fld("childrenPlus")).lv[0] == r, z3.Implies(p0 != null, r == p0)))
for fn, fl, other in (("addGrant", "grants", "grantsPound"), ("addGrantPound", "grantsPound", "grants")):
    @spec.job("AclNode::" + fn)
    def _(J, fn=fn, fl=fl, other=other):
        this = J.this("AclNode"); f = J.fn("AclNode::" + fn); E = J.E; a = J.args(f); v0, o0 = E.load(this.fld(fl)), E.load(this.fld(other)); J.assume(ult(v0.lv[0], bv(1 << 40))); J.run(f, this, a); v, o = E.load(this.fld(fl)), E.load(this.fld(other)); j = z3.Const("j", I64)
        J.post("exactly this grant is added", z3.And(v.lv[0] == v0.lv[0] + 1, z3.Select(v.lv[1], v0.lv[0]) == a[0].t, z3.Implies(ult(j, v0.lv[0]), z3.Select(v.lv[1], j) == z3.Select(v0.lv[1], j)))); J.post("the other list is untouched", z3.And(o.lv[0] == o0.lv[0], o.lv[1] == o0.lv[1])); J.post("not empty", z3.Not(J.f(this, "empty")))
@spec.job("AclTree::addTopic", termination=False)
def _(J):
    this = J.this("AclTree"); f = J.fn("AclTree::addTopic"); E = J.E; a = J.args(f); J.assume(ule(a[2].t, bv(1, 32))); lv = E.fresh_val(vty(J), "levels"); n = lv.lv[0]; J.assume(ult(n, bv(1 << 40))); E.contracts["splitTopic"] = lambda E, c: lv
    lev = lambda j: z3.Select(lv.lv[1], j); POUND, PLUS = str_lit(b"#"), str_lit(b"+"); J.ghost("depth", bv(0)); J.ghost("added", bv(0, 32)); J.ghost("end", z3.BoolVal(False)); j = z3.Const("j", I64)
    def down(plus):
        def h(E, c):
            d = J.ghost("depth"); E.prove("levels are taken in order", ult(d, n), "call"); x = lev(d)
            if plus: E.prove("'+' has its own child", x == PLUS, "call")
            else: E.prove("the child of that level's name", z3.And(E.rv(c.args[0]).t == x, x != PLUS, x != POUND), "call"); E.prove("variables are registered in patterns", c.t(1) == (a[2].t == 1), "call")
            E.prove("nothing was added above", J.ghost("added") == 0, "call"); J.ghost("depth", d + 1); r = E.alloc("node"); return Val(shape_of(c.ret), [r])
        return h
    E.contracts["AclNode::getChildrenPlus"] = down(True); E.contracts["AclNode::getChildren"] = down(False)
    def add(pound):
        def h(E, c):
            d = J.ghost("depth"); E.prove("this rule's grant", c.t(0) == a[1].t, "call"); E.prove("a final '#' grants on everything below" if pound else "the grant ends the topic", z3.And(ult(d, n), lev(d) == POUND) if pound else d == n, "call"); J.ghost("added", J.ghost("added") + 1)
        return h
    E.contracts["AclNode::addGrant"] = add(False); E.contracts["AclNode::addGrantPound"] = add(True)
    def gen(E, ctx): return [("depth follows the levels", z3.And(J.ghost("depth") == m.h, ule(m.h, n), J.ghost("added") == 0)) for m in ctx.ints(64)]
    E.loop_specs.append(gen); J.run(f, this, a); J.post("exactly one grant is added", J.ghost("added") == 1)
@spec.job("stringToAclGrant")
def _(J):
    E = J.E; f = J.fn("stringToAclGrant"); a = J.args(f); low = z3.Const("lowercase", StrS); E.contracts["str_tolower"] = lambda E, c: E.strv(low); J.pure("formatString")
    ok, r = J.run_any(f, None, a); is_ = lambda w: E.str_eq(low, str_lit(w)); W = [(b"read", READ), (b"write", WRITE), (b"readwrite", RW), (b"deny", DENY)]
    for w, g in W: J.post("%s is understood" % w.decode(), z3.Implies(is_(w), z3.And(ok, r.t == g)))
    J.post("anything else is refused", z3.Implies(ok, z3.Or(*[is_(w) for w, g in W])))
@spec.job("Authentication::aclCheckFromMosquittoAclFile")
def _(J):
    this = J.this("Authentication"); f = J.fn("Authentication::aclCheckFromMosquittoAclFile"); E = J.E; a = J.args(f); acc = a[3].t; J.assume(z3.Or(*[acc == x for x in (1, 2, 4, 100)])); res = z3.BitVec("res", 32); J.ghost("asked", z3.BoolVal(False)); none = slen(E.load(this.fld("mosquittoAclFile")).t) == 0
    def find(E, c): E.prove("write access needs a write grant, any other a read grant", c.t(1) == z3.If(acc == 2, bv(WRITE, 32), bv(READ, 32)), "call"); E.prove("for this client", z3.And(E.rv(c.args[2]).t == E.rv(a[1]).t, E.rv(c.args[3]).t == E.rv(a[0]).t), "call"); J.ghost("asked", TRUE); return Val(shape_of(c.ret), [res])
    E.contracts["AclTree::findPermission"] = find
    r = J.run(f, this, a).t; J.post("the file decides on reading and writing when there is one", z3.If(z3.Or(none, acc == 4), r == 0, z3.And(J.ghost("asked"), r == res)))
