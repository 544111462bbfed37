"""Loop rule: exact unrolling or an inferred, solver-checked inductive invariant."""
import z3, os, re, time
from .vals import *
from . import vals as V
from . import solve
from .engine import *
from .engine import _merge

def ctr_of(name):
    i = name.rfind("!")
    if i < 0: return -1
    try: return int(re.match(r"\d+", name[i + 1:]).group(0))
    except AttributeError: return -1
def consts_of(t, cache={}):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x)
        else: st.extend(x.children())
    return out
def invariant_term(t, limit):
    return all(not re.search(r"!\d+$", c.decl().name()) or ctr_of(c.decl().name()) <= limit for c in consts_of(t))

class Mod:
    """one modified component: head constant + how to read its value in a state"""
    def __init__(self, kind, key, j, sort, idx=None): self.kind = kind; self.key = key; self.j = j; self.sort = sort; self.idx = idx; self.h = None; self.entry = None
    def ident(self): return (self.kind, self.key, self.j, self.idx.get_id() if self.idx is not None else None)

def get_comp(E, st, m):
    """current term of a component"""
    k = m.kind
    if k == "L":
        v = st.L[m.key]
        x = v.lv[m.j[0]] if isinstance(v, Val) else v
        if len(m.j) > 1:
            x = dict(loc_comps(x.b))[m.j[1]] if isinstance(x, PMix) and m.j[1] != "c" else getattr(x, m.j[1])
        return x
    if k == "G":
        v = st.G[m.key]
        x = v.lv[m.j[0]]
        if len(m.j) > 1: x = getattr(x, m.j[1])
        return x
    if k == "gh":
        v = st.gh[m.key]
        return v.lv[m.j[0]] if isinstance(v, Val) else v
    if k == "H":
        a = st.H.get(m.key)
        if a is None: a = base_map(st, m.key, m.sort if m.idx is None else m.sort)
        if m.idx is None: return a
        return sel(a, m.idx)
def set_comp(E, st, m, t):
    k = m.kind
    def upd(v):
        if not isinstance(v, Val): return t
        lv = list(v.lv)
        if len(m.j) > 1:
            x = lv[m.j[0]]
            if isinstance(x, SIter): x = SIter(x.loc, t if m.j[1] == "idx" else x.idx, x.rev)
            elif isinstance(x, MIter):
                d = dict(loc=x.loc, dom=x.dom, size=x.size, key=x.key, end=x.end, idx=x.idx); d[m.j[1]] = t; x = MIter(**d)
            elif isinstance(x, PMix): x = PMix(t, x.a, x.b) if m.j[1] == "c" else PMix(x.c, x.a, with_comp(x.b, m.j[1], t))
            lv[m.j[0]] = x
        else: lv[m.j[0]] = t
        return Val(v.sh, lv)
    if k == "L": st.L[m.key] = upd(st.L[m.key])
    elif k == "G": st.G[m.key] = upd(st.G[m.key])
    elif k == "gh": st.gh[m.key] = upd(st.gh[m.key])
    elif k == "H":
        a = st.H.get(m.key)
        if m.idx is None: st.H[m.key] = t
        else:
            if a is None: a = base_map(st, m.key, m.sort2)
            st.H[m.key] = z3.Store(a, m.idx, t)

class PMix(Choice):
    """pointer that is still the one from before the loop (c), or some object b"""
    __slots__ = ()
class PAlt(Choice):
    """pointer into one of several places of different form: a when c, else b"""
    __slots__ = ()
class NoForm(Exception):
    def __init__(self, y): self.y = y
class NeedMix(Exception):
    def __init__(self, key, j, tpl): self.key = key; self.j = j; self.tpl = tpl
def loc_comps(b):
    """symbolic components of an object reference, or of a location inside an object (root reference and the keys/indices on the path)"""
    if isinstance(b, z3.ExprRef): return [("b", b)]
    if isinstance(b, PAlt): return [("alt", b.c)] + [("A" + n, t) for n, t in loc_comps(b.a)] + [("B" + n, t) for n, t in loc_comps(b.b)]
    return [("r", b.root[1])] + [("p%d" % i, p[1]) for i, p in enumerate(b.path) if p[0] in ("k", "i") and isinstance(p[1], z3.ExprRef)]
def with_comp(b, n, t):
    if isinstance(b, PAlt): return PAlt(t, b.a, b.b) if n == "alt" else PAlt(b.c, with_comp(b.a, n[1:], t), b.b) if n[0] == "A" else PAlt(b.c, b.a, with_comp(b.b, n[1:], t))
    if n == "b": return t
    if n == "r": return Loc((b.root[0], t) + tuple(b.root[2:]), b.path, b.sh, b.rsh)
    i = int(n[1:]); return Loc(b.root, b.path[:i] + ((b.path[i][0], t) + tuple(b.path[i][2:]),) + b.path[i + 1:], b.sh, b.rsh)
def same_form(a, b):
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)
    if a.root[0] != b.root[0] or len(a.root) != len(b.root) or a.root[0] not in ("H", "B") or len(a.path) != len(b.path) or a.sh is not b.sh: return False
    return all(p[0] == q[0] and len(p) == len(q) and (p[0] in ("k", "i") or p[1:] == q[1:] or (p[0] == "s" and p[1] == q[1])) for p, q in zip(a.path, b.path))
def leaf_form(x, y):
    """a location the pointer takes inside the loop other than its old value"""
    if isinstance(y, z3.ExprRef): return null
    if y is x or (isinstance(x, Loc) and isinstance(y, Loc) and loc_eq(x, y)): return None
    if isinstance(y, Choice):
        f = leaf_form(x, y.a); return f if f is not None else leaf_form(x, y.b)
    if isinstance(y, Loc) and y.root[0] in ("H", "B") and isinstance(y.root[1], z3.ExprRef): return y
    raise Unsupported("loop changes a pointer variable to %r" % (y,))
def choice_eq(x, y):
    if x is y: return True
    if isinstance(x, Choice) and isinstance(y, Choice): return x.c.eq(y.c) and choice_eq(x.a, y.a) and choice_eq(x.b, y.b)
    return isinstance(x, Loc) and isinstance(y, Loc) and loc_eq(x, y)
def in_form(tpl, y):
    """y as an instance of the template, or None"""
    if isinstance(tpl, PAlt):
        r = in_form(tpl.a, y)
        if r is not None: return PAlt(TRUE, r, tpl.b)
        r = in_form(tpl.b, y); return None if r is None else PAlt(FALSE, tpl.a, r)
    return y if same_form(tpl, y) else None
def to_mix(x, y, tpl):
    """(still x, location of tpl's form) of pointer y; x is the pointer from before the loop"""
    if y is x or choice_eq(x, y): return TRUE, tpl
    if isinstance(y, (z3.ExprRef, Loc)):
        r = in_form(tpl, y)
        if r is not None: return FALSE, r
        raise NoForm(y)
    if isinstance(y, PMix) and y.a is x: return y.c, y.b
    if isinstance(y, PAlt) and [n for n, t in loc_comps(y)] == [n for n, t in loc_comps(tpl)]: return FALSE, y
    if isinstance(y, Choice):
        (c1, r1), (c2, r2) = to_mix(x, y.a, tpl), to_mix(x, y.b, tpl); b = r1
        for (n, t1), (_, t2) in zip(loc_comps(r1), loc_comps(r2)): b = with_comp(b, n, t1 if t1.eq(t2) else z3.If(y.c, t1, t2))
        return z3.If(y.c, c1, c2), b
    raise Unsupported("loop changes a pointer variable to %r" % (y,))
def diff_val(kind, key, a, b, out):
    if a is b: return
    if isinstance(a, Val) and isinstance(b, Val):
        if len(a.lv) != len(b.lv): raise Unsupported("loop changes shape of %s" % (key,))
        for j, (x, y) in enumerate(zip(a.lv, b.lv)):
            if x is y: continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if not x.eq(y): out.append(Mod(kind, key, (j,), x.sort()))
            elif isinstance(x, SIter) and isinstance(y, SIter):
                if not loc_eq(x.loc, y.loc): raise Unsupported("iterator changes container in loop")
                if not x.idx.eq(y.idx): out.append(Mod(kind, key, (j, "idx"), x.idx.sort()))
            elif isinstance(x, MIter) and isinstance(y, MIter):
                if not loc_eq(x.loc, y.loc): raise Unsupported("iterator changes container in loop")
                for a_ in ("key", "end", "idx", "dom", "size"):
                    p, q = getattr(x, a_), getattr(y, a_)
                    if p is None and q is None: continue
                    if p is None or q is None: raise Unsupported("iterator index form changes in loop")
                    if not p.eq(q): out.append(Mod(kind, key, (j, a_), p.sort()))
            elif isinstance(x, Loc) and isinstance(y, Loc) and loc_eq(x, y): pass
            elif isinstance(x, PyOpaque) and isinstance(y, PyOpaque): pass
            elif isinstance(x, PMix):
                try: m = y if isinstance(y, PMix) else PMix(*((lambda t: (t[0], x.a, t[1]))(to_mix(x.a, y, x.b))))
                except NoForm as e:
                    if not isinstance(e.y, Loc) or e.y.root[0] not in ("H", "B") or not isinstance(e.y.root[1], z3.ExprRef) or kind != "L" or isinstance(x.b, z3.ExprRef): raise Unsupported("loop changes a pointer variable to %r" % (e.y,))
                    raise NeedMix(key, j, PAlt(TRUE, e.y, x.b))
                if not x.c.eq(m.c): out.append(Mod(kind, key, (j, "c"), x.c.sort()))
                for (n, p), (_, q) in zip(loc_comps(x.b), loc_comps(m.b)):
                    if not p.eq(q): out.append(Mod(kind, key, (j, n), p.sort()))
            elif kind == "L" and isinstance(x, (Loc, Choice)) and (isinstance(y, (Loc, Choice)) or (isinstance(y, z3.ExprRef) and y.sort() == RefS)):
                if choice_eq(x, y): continue
                f = leaf_form(x, y)
                if f is not None: raise NeedMix(key, j, f)
                raise Unsupported("loop changes a pointer/closure variable (%r -> %r)" % (x, y))
            else: raise Unsupported("loop changes a pointer/closure variable (%r -> %r)" % (x, y))
        return
    if isinstance(a, (Loc, Choice)) and isinstance(b, (Loc, Choice)):
        if a is b or (isinstance(a, Loc) and loc_eq(a, b)): return
        return   # reference declared inside the loop body: rebound every iteration
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if not a.eq(b): out.append(Mod(kind, key, (0,), a.sort()))
        return

def diff_state(E, head, nxt, limit):
    out = []
    for k, v in head.L.items():
        if k in nxt.L: diff_val("L", k, v, nxt.L[k], out)
    for k, v in nxt.G.items():
        if k in head.G: diff_val("G", k, head.G[k], v, out)
    for k, v in nxt.gh.items():
        if isinstance(k, tuple) and k[0] in ("rf", "vl", "py", "#epochs"): continue
        if k in head.gh: diff_val("gh", k, head.gh[k], v, out)
    if head.epoch != nxt.epoch: raise Unsupported("loop body forgets the heap (opaque call)")
    for k, a in nxt.H.items():
        b = head.H.get(k)
        if b is None: b = base_map(head, k, a.sort().range())
        if a.eq(b): continue
        idxs = store_indices(a, b)
        if idxs is not None and all(invariant_term(i, limit) for i in idxs):
            for i in idxs:
                m = Mod("H", k, None, a.sort().range(), i); m.sort2 = a.sort().range(); out.append(m)
        else:
            m = Mod("H", k, None, a.sort()); out.append(m)
    return out
def store_indices(a, base):
    out = []; st = [a]; seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if t.eq(base): continue
        if z3.is_app_of(t, z3.Z3_OP_STORE):
            if not any(t.arg(1).eq(o) for o in out): out.append(t.arg(1))
            st.append(t.arg(0))
        elif z3.is_app_of(t, z3.Z3_OP_ITE): st.append(t.arg(1)); st.append(t.arg(2))
        else:
            return None
    return out

DEBUG = os.environ.get("FVC_HD")
class LoopCtx:
    """what a specification's invariant generator sees; E.st is the (havocked) loop-head state"""
    def __init__(self, E, fr, entry, mods, extra, node): self.E = E; self.fr = fr; self.entry = entry; self.mods = mods; self.extra = extra; self.node = node
    def ints(self, w=None):
        return [m for m in self.mods if isinstance(m.h, z3.BitVecRef) and (w is None or m.h.size() == w)]
    def bools(self): return [m for m in self.mods if z3.is_bool(m.h)]
    def name_of(self, m):
        return m.key
    def fn(self): return self.E.callstack[-1] if self.E.callstack else ""

def pack_outs(E, fr):
    return (len(fr.rets), [len(t) for t in E.throws], [(len(l[0]), len(l[1]) if l[1] is not None else 0) for l in fr.loops], len(E.obls), len(E.assumed))
def restore_outs(E, fr, p):
    del fr.rets[p[0]:]
    del E.throws[len(p[1]):]
    for t, n in zip(E.throws, p[1]): del t[n:]
    del fr.loops[len(p[2]):]
    for l, (a, b) in zip(fr.loops, p[2]):
        del l[0][a:]
        if l[1] is not None: del l[1][b:]

def run(E, s, fr, cond, body, inc, isdo, pre, extra):
    def one_pass():
        """from E.st at the head: (exit states, break states, next head state or None, cond)"""
        brks = []; conts = []; exits = []; cc = [None]
        fr.loops.append((brks, conts))
        depth = len(fr.loops)
        def test():
            c = cond(); cc[0] = c
            if z3.is_false(c): exits.append(E.st); raise Dead()
            if not z3.is_true(c):
                k = E.known(c)
                if k is False: exits.append(E.st); raise Dead()
                if k is None:
                    s2 = E.st.clone(); s2.pc.append(Not(c)); exits.append(s2); E.st.pc.append(c)
        try:
            try:
                if not isdo: test()
                if pre: pre()
                E.ex(body, fr)
                conts.append(E.st)
            except Dead: pass
        finally: del fr.loops[depth - 1:]
        if not conts: return exits, brks, None, cc[0]
        E.st, _ = merge_all(conts)
        for g in E.loop_steps: g(E)      # ghost code of the specification, run after each iteration of the body
        try:
            if inc is not None:
                if callable(inc): inc()
                else: E.ev_any(inc, fr)
            if isdo: test()
        except Dead: return exits, brks, None, cc[0]
        return exits, brks, E.st, cc[0]
    def finish(outs):
        if not outs: raise Dead()
        E.st, _ = merge_all(outs)

    # ---- exact unrolling
    entry = E.st
    snap = pack_outs(E, fr); nob = len(E.obls)
    outs = []
    st0 = entry.clone()
    E.st = entry.clone()
    limit_const = 300
    i = 0
    exhaust = E.exhaust_for(s, fr)
    ok = False
    bounded = E.unroll
    while True:
        n_before = len(E.obls)
        exits, brks, nxt, c = one_pass()
        outs += exits + brks
        i += 1
        if nxt is None: ok = True; break
        constant = c is not None and z3.is_true(c) and not (s.get("c") or {"k": "x"})["k"] == "Const"
        E.st = nxt
        if constant and i < limit_const and is_const_loop(E, nxt, st0): continue
        if i == 1 and exhaust and "small" in E.exhaust and c is not None and not small_bound(E, st0, c, E.exhaust["small"]): exhaust = 0
        if i < exhaust:
            r = feasible(nxt, 4000)
            if r is False: ok = True; break
            continue
        if exhaust and i == exhaust:
            if feasible(nxt, 8000) is False: ok = True; break
        if bounded:
            if i < bounded: continue
            E.bounded = True; ok = True
            break
        break
    if ok:
        E.loops_unrolled += 1
        return finish(outs)
    # ---- invariant
    restore_outs(E, fr, snap); del E.obls[nob:]
    E.st = entry
    invariant_loop(E, s, fr, one_pass, finish, extra)

def small_bound(E, st, c, lim):
    """no operand of the comparisons in the loop condition can exceed lim: worth unrolling"""
    at = []; cmp_atoms(c, at); q = [f for f in st.pc if not solve.has_quant(f)]
    for x in at:
        for o in x.children():
            if z3.is_bv(o) and not z3.is_bv_value(o):
                s = z3.Solver(); s.set("timeout", 1000); s.add(*q); s.add(z3.UGT(o, lim))
                if s.check() != z3.unsat: return False
    return True
def is_const_loop(E, nxt, st0): return True
def feasible(st, ms):
    fs = list(st.pc)
    q = [f for f in fs if not solve.has_quant(f)]
    if len(q) < len(fs):
        s = z3.Solver(); s.set("timeout", ms); s.add(*q)
        if s.check() == z3.unsat: return False
    s = z3.Solver(); s.set("timeout", ms)
    for a in solve.axioms_for(fs): s.add(a)
    s.add(*fs)
    r = s.check()
    return None if r == z3.unknown else r == z3.sat

def invariant_loop(E, s, fr, one_pass, finish, extra):
    entry = E.st
    limit = V._ctr[0]; E._loop_limit = limit
    lkeys = set(entry.L)
    mods = []; mixed = []
    plain_pass = one_pass
    def one_pass():
        r = plain_pass(); nx = r[2]
        if nx is not None:
            for k, j, x in mixed:
                if k in nx.L and not isinstance(nx.L[k].lv[j], PMix):
                    v = nx.L[k]
                    try: c, b = to_mix(x, v.lv[j], entry.L[k].lv[j].b)
                    except NoForm: continue
                    nx.L[k] = Val(v.sh, v.lv[:j] + [PMix(c, x, b)] + v.lv[j + 1:])
        return r
    def make_head():
        st = entry.clone()
        st.gen = entry.gen + 1
        for m in mods:
            m.entry = get_comp(E, entry, m) if m.kind != "H" or True else None
            h = z3.Const(fresh_name("h.%s" % (m.key if not isinstance(m.key, tuple) else "_".join(str(x) for x in m.key[1:]))), m.sort)
            V.BASEGEN[h.decl().name()] = st.gen
            m.h = h
        # whole-map entries first, then slot entries
        for m in sorted(mods, key=lambda m: m.idx is not None): set_comp(E, st, m, m.h)
        for k in [k for k in st.gh if isinstance(k, tuple) and k[0] in ("rf", "vl")]: del st.gh[k]
        for m in mods:
            if m.h.sort() == RefS: st.pc.append(age(m.h) <= st.gen)
            elif m.kind == "H" and m.key.startswith("ghost:") and z3.is_array(m.h) and m.h.sort().range() == RefS:      # ghost arrays hold references to objects that exist
                for i in E.age_idx: st.pc.append(age(z3.Select(m.h, i)) <= st.gen)
        # structural facts of havocked containers
        seen = set()
        for m in mods:
            if m.kind in ("L", "G") and (m.kind, m.key) not in seen:
                seen.add((m.kind, m.key))
                v = (st.L if m.kind == "L" else st.G)[m.key]
                if isinstance(v, Val):
                    o = E.st; E.st = st
                    try: E.type_facts(v)
                    finally: E.st = o
        return st
    E.mute += 1; ncut = E.loops_cut
    try:
        for rnd in range(12):
            snap = pack_outs(E, fr)
            head = make_head()
            E.st = head.clone()
            try: exits, brks, nxt, c = one_pass()
            finally: restore_outs(E, fr, snap)
            if nxt is None: break
            nxt.L = {k: v for k, v in nxt.L.items() if k in lkeys}
            try: d = diff_state(E, head, nxt, limit)
            except NeedMix as e:
                v = entry.L[e.key]; x = v.lv[e.j]
                if isinstance(x, PMix) and any(k == e.key and j == e.j for k, j, _ in mixed): x = x.a; mods = [m for m in mods if not (m.kind == "L" and m.key == e.key and m.j[0] == e.j)]
                else: mixed.append((e.key, e.j, x))
                entry.L[e.key] = Val(v.sh, v.lv[:e.j] + [PMix(TRUE, x, e.tpl)] + v.lv[e.j + 1:]); continue
            ids = {m.ident() for m in mods}
            whole = {m.key for m in mods if m.kind == "H" and m.idx is None}
            new = []
            for m in d:
                if m.ident() in ids or (m.kind == "H" and m.key in whole): continue
                new.append(m)
            if not new: break
            for m in new:
                if m.kind == "H" and m.idx is None: mods = [x for x in mods if not (x.kind == "H" and x.key == m.key)]
                mods.append(m)
        else: raise Unsupported("loop modification set does not stabilise")
        # ---- candidates, expressed over the head constants
        ctx = LoopCtx(E, fr, entry, mods, extra, s)
        E.st = head.clone(); npc = len(E.st.pc)
        E._loop_limit = limit
        cands = auto_cands(E, ctx, c, exits)
        if nxt is not None and not E.no_search: cands += search_cands(E, mods, head, nxt)
        nauto = len(cands)
        for gen in E.loop_specs:
            for x in gen(E, ctx): cands.append(x)
        user = E._user_cands = {f.get_id() for n, f in cands[nauto:]}
        side = E.st.pc[npc:]     # definitional facts introduced while building candidates
        inv = None
        if E.optimistic and nxt is not None and E.loops_cut > ncut:      # nested loops: their invariants may need this loop's; sound because the set assumed is the set proved preserved
            A = cands
            for rnd in range(E.optimistic):
                snap = pack_outs(E, fr); E.st = head.clone(); E.st.pc += side; E.st.pc += [f for n, f in entry_valid(E, entry, mods, A, side)] if rnd == 0 else [f for n, f in A]
                if rnd == 0: A = entry_valid(E, entry, mods, A, side)
                try: _, _, nx2, _ = one_pass()
                finally: restore_outs(E, fr, snap)
                if nx2 is None: inv = A; break
                nx2.L = {k: v for k, v in nx2.L.items() if k in lkeys}
                ids = {m.ident() for m in mods}; whole = {m.key for m in mods if m.kind == "H" and m.idx is None}
                if any(not (m.ident() in ids or (m.kind == "H" and m.key in whole)) for m in diff_state(E, head, nx2, limit)): break
                E._user_cands = user; B, _ = houdini(E, entry, nx2, mods, A, side)
                if len(B) == len({f.get_id() for n, f in A}): inv = B; break
                A = B
        E._user_cands = user
        if inv is None: inv, viol = houdini(E, entry, nxt, mods, cands, side)
    finally: E.mute -= 1
    E.loops_cut += 1
    if not E.mute: E.loop_info.append((E.where(), s.get("l"), len(cands), [n for n, f in inv]))
    head.pc += side
    for n, f in inv: head.pc.append(f)
    E.st = head
    exits, brks, nxt, c = one_pass()
    if nxt is not None and E.termination and not E.mute: check_variant(E, s, mods, head, nxt, ctx)
    finish(exits + brks)

def subst_at(f, mods, st, E):
    pairs = []
    for m in mods: 
        t = get_comp(E, st, m)
        if not t.eq(m.h): pairs.append((m.h, t))
    return z3.substitute(f, *pairs) if pairs else f

def entry_valid(E, entry, mods, cands, side):
    return houdini(E, entry, None, mods, cands, side)[0]

def houdini(E, entry, nxt, mods, cands, side):
    tmo = E.houdini_ms
    cur = []
    seen = set()
    for n, f in cands:
        if f.get_id() in seen: continue
        seen.add(f.get_id()); cur.append((n, f))
    if not cur: return [], None
    # initial validity
    ent = [(n, f, subst_at(f, mods, entry, E)) for n, f in cur]
    keep = []
    sd0 = [subst_at(x, mods, entry, E) for x in side]
    fs = list(entry.pc) + sd0
    if nxt is None:
        pass
    S = z3.Solver(); S.set("timeout", tmo)
    goals = [g for _, _, g in ent]
    for a in solve.axioms_for(fs + goals): S.add(a)
    S.add(*fs)
    for (n, f, g) in ent:
        if z3.is_true(g): keep.append((n, f)); continue
        S.push(); S.add(z3.Not(g)); r = S.check(); S.pop()
        if r == z3.unknown and f.get_id() in E._user_cands and (solve.check(fs, g, max(tmo, 1000))[0] == "proved" or solve.check_znew(fs, g, 4) == "proved" or solve.check_cvc5(fs, g, 4) == "proved"): r = z3.unsat
        if r == z3.unsat: keep.append((n, f))
        elif DEBUG and f.get_id() in E._user_cands: print("   NOT AT ENTRY", n, r, flush=True); open("/tmp/qe_%s.smt2" % "".join(x for x in n if x.isalpha()), "w").write((lambda s: (s.add(*fs), s.add(z3.Not(g)), s.to_smt2())[2])(z3.Solver()))
    cur = keep
    if nxt is None: return cur, None
    post = {f.get_id(): subst_at(f, mods, nxt, E) for n, f in cur}
    sd1 = [subst_at(x, mods, nxt, E) for x in side]
    while True:
        S = z3.Solver(); S.set("timeout", tmo)
        fs = list(nxt.pc) + side + sd1 + [f for n, f in cur]
        for a in solve.axioms_for(fs + list(post.values())): S.add(a)
        S.add(*fs)
        drop = []
        for n, f in cur:
            g = post[f.get_id()]
            S.push(); S.add(z3.Not(g)); r = S.check()
            S.pop()
            if r == z3.unknown and n == "guard" and abstracted(f, g, fs, tmo): r = z3.unsat
            if r == z3.unknown and f.get_id() in E._user_cands and (solve.check_cvc5(fs, g, 4) == "proved" or solve.check_znew(fs, g, 4) == "proved" or solve.check(fs, g, tmo)[0] == "proved"): r = z3.unsat
            if r != z3.unsat and f.get_id() in E._user_cands and E.loop_cases and by_cases(E, fs, g, tmo): r = z3.unsat
            if r != z3.unsat:
                drop.append(f.get_id())
                if DEBUG and f.get_id() in E._user_cands: print("   DROP", n, r, flush=True); open("/tmp/q_%s.smt2" % "".join(x for x in n if x.isalpha()), "w").write((lambda s: (s.add(*fs), s.add(z3.Not(g)), s.to_smt2())[2])(z3.Solver()))
        if not drop: return cur, None
        cur = [(n, f) for n, f in cur if f.get_id() not in drop]
        if not cur: return [], None

def abstracted(f, g, fs, tmo):
    """the bound of a guard is a term the loop does not change: try with an unknown in its place"""
    for y in f.children():
        if z3.is_bv_value(y) or z3.is_const(y) or y.get_id() not in {x.get_id() for x in g.children()}: continue
        k = z3.Const(fresh_name("bound"), y.sort()); S = z3.Solver(); S.set("timeout", tmo)
        S.add(*[x for x in (z3.substitute(x, (y, k)) for x in fs) if not solve.has_quant(x) and dag_size(x, 300) < 300]); S.add(z3.Not(z3.substitute(g, (y, k))))
        if S.check() == z3.unsat: return True
    return False
def dag_size(f, lim):
    seen = set(); todo = [f]
    while todo and len(seen) < lim:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo += x.children()
    return len(seen)

def by_cases(E, fs, g, tmo):
    """the specification's case distinction, which must cover everything"""
    cs = E.loop_cases
    for extra, goal in [([z3.Not(c) for c in cs], z3.BoolVal(False))] + [([c], g) for c in cs]:
        S = z3.Solver(); S.set("timeout", max(tmo, 20000)); h = fs + extra
        for a in solve.axioms_for(h + [goal]): S.add(a)
        S.add(*h); S.add(z3.Not(goal)); r = S.check()
        if r != z3.unsat: return False
    return True

def cmp_atoms(f, out, depth=0):
    if depth > 6: return
    k = f.decl().kind() if z3.is_app(f) else None
    if k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ): out.append(f)
    elif k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(f.arg(0)): out.append(f)
    elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES):
        for x in f.children():
            if z3.is_bool(x): cmp_atoms(x, out, depth + 1)

def auto_cands(E, ctx, c, exits):
    out = []
    ints = ctx.ints()
    for m in ints:
        if m.kind == "gh": continue
        e = m.entry
        out.append(("%s>=entry" % (m.key,), z3.UGE(m.h, e)))
        out.append(("%s<=entry" % (m.key,), z3.ULE(m.h, e)))
        if m.h.size() >= 32: 
            out.append(("%s>=s entry" % (m.key,), m.h >= e))
            out.append(("%s<=s entry" % (m.key,), m.h <= e))
            out.append(("%s>=0" % (m.key,), m.h >= 0))
    atoms = []
    if c is not None: cmp_atoms(c, atoms)
    for x in exits:
        for f in x.pc[-3:]:
            if z3.is_bool(f): cmp_atoms(f, atoms)
    for a in atoms[:12]:
        k = a.decl().kind(); x, y = a.arg(0), a.arg(1)
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT): out.append(("guard", z3.ULE(x, y)))
        if k in (z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT): out.append(("guard", z3.ULE(y, x)))
        if k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ): out.append(("guard", x <= y))
        if k in (z3.Z3_OP_SGT, z3.Z3_OP_SGEQ): out.append(("guard", y <= x))
    for i, m in enumerate(ints):
        for n in ints[i + 1:]:
            if m.h.size() == n.h.size() and m.h.size() >= 8 and m.kind != "gh" and n.kind != "gh":
                out.append(("lockstep", m.h - m.entry == n.h - n.entry))
                out.append(("sum", m.h + n.h == m.entry + n.entry))
                out.append(("le", z3.ULE(m.h, n.h))); out.append(("ge", z3.UGE(m.h, n.h)))
    for m in ctx.bools(): out.append(("bool const", m.h == m.entry))
    return out

def search_cands(E, mods, head, nxt):
    """for a counter h advancing by a constant: every conjunct of the continue-condition that mentions only h
    (and loop-invariant terms) held for all earlier counter values"""
    out = []
    suffix = []
    for f in nxt.pc[len(head.pc):]:
        suffix += solve._split_goal(f)
    hs = {m.h.decl().name(): m for m in mods}
    for m in mods:
        if not isinstance(m.h, z3.BitVecRef) or m.h.size() < 16: continue
        t = z3.simplify(get_comp(E, nxt, m) - m.h)
        if not z3.is_bv_value(t) or t.as_signed_long() not in (1, -1): continue
        up = t.as_signed_long() == 1
        for f in suffix:
            cs = consts_of(f)
            names = {c.decl().name() for c in cs}
            if m.h.decl().name() not in names: continue
            if any(n in hs and n != m.h.decl().name() for n in names): continue
            if any(n not in hs and not invariant_term(c, E._loop_limit) for n, c in ((c.decl().name(), c) for c in cs)): continue
            if not has_app(f): continue
            j = z3.Const(fresh_name("j"), m.h.sort())
            body = z3.substitute(f, (m.h, j))
            rng = z3.And(z3.ULE(m.entry, j), z3.ULT(j, m.h)) if up else z3.And(z3.ULT(m.h, j), z3.ULE(j, m.entry))
            out.append(("every earlier element passed", z3.ForAll([j], z3.Implies(rng, body))))
    return out[:24]
def has_app(f):
    """mentions an uninterpreted function or array read (worth a quantified invariant)"""
    st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return False
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT): return True
            st.extend(x.children())
    return False

def check_variant(E, s, mods, head, nxt, ctx):
    """termination: some integer component strictly moves towards a bound"""
    goals = []
    for m in mods:
        if isinstance(m.h, z3.BitVecRef) and m.h.size() >= 8:
            t = get_comp(E, nxt, m)
            goals.append((m, z3.ULT(t, m.h))); goals.append((m, z3.UGT(t, m.h)))
    for f in E.variants:
        for g in f(E, ctx, head, nxt): goals.append((None, g))
    for m, g in goals:
        r, _ = solve.check(nxt.pc, g, 3000)
        if r == "proved":
            E.prove("loop terminates", g, "termination", st=nxt); return
    E.prove("loop terminates", FALSE, "termination", st=nxt)
