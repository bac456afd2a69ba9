"""Loop summarisation: the invariant of a loop is synthesised by solving the recurrences
of one generic iteration k, and is inductive by construction (value at 0 = value before the
loop; value at k+1 = body applied to value at k).  What cannot be solved is over-approximated
by an unknown function of k (and taints the path)."""
import os, re
from .terms import *
from .values import *
from .solve import affine_in, solve_for, match_hole, block_match, find_cond, Ctx


def run_loop(I, node, cond, body, inc):
    from .interp import BreakEx, ContinueEx
    spec = loop_spec(I, node)
    if spec is not None: return annotated(I, spec, node, cond, body, inc)
    n = 0
    while True:
        c = cond()
        if c is FALSE: return
        if c is TRUE and n < I.UNROLL:
            n += 1
            try:
                body()
            except ContinueEx:
                pass
            except BreakEx:
                return
            inc()
            continue
        break
    summarise(I, node, cond, body, inc)


LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')


def loop_spec(I, node):
    """the invariant the specification gives for this loop (function, ordinal in source order)"""
    fr = I.frames[-1] if I.frames else {}
    specs = I.loop_contracts.get(fr.get('__fn__'))
    if not specs or '__body__' not in fr: return None
    order = []

    def walk(x):
        if x.get('kind') in LOOPS: order.append(x)
        for c in x.get('inner', []):
            if c: walk(c)
    walk(fr['__body__'])
    if len(order) != len(specs): raise Unsupported('loop invariants of %s do not fit its loops' % fr['__fn__'])
    for i, x in enumerate(order):
        if x is node: return specs[i]
    return None


def place(I, name):
    fr = I.frames[-1]
    k = fr.get(fr.get(('nm', name)))
    while isinstance(k, LV) and isinstance(I.read(k), (View, LV)):
        x = I.read(k)
        k = x.lv if isinstance(x, View) else x
    if not isinstance(k, LV): raise Unsupported('loop invariant names unknown variable ' + name)
    return k


def local(I, name):
    fr = I.frames[-1]
    k = fr.get(('nm', name))
    if k is None: raise Unsupported('loop invariant names unknown variable ' + name)
    return I.rv(fr[k])


class Names:
    def __init__(s, I): s.I = I
    def __call__(s, name): return local(s.I, name)
    def opt(s, name):
        """None if the code has no such variable (a helper variable the invariant does not need to exist)"""
        return local(s.I, name) if s.I.frames[-1].get(('nm', name)) is not None else None


def annotated(I, spec, node, cond, body, inc):
    """a loop with an invariant from the specification: initially, preserved, used"""
    from .interp import BreakEx, ContinueEx, Infeasible
    base = I.state
    where = I.loc(node)
    mod = {}
    v = Names(I)
    for nm, g in spec.inv(I, v):
        if nm != '!': I.oblige('loop invariant initially: ' + nm, g, where, 'inv')

    def assume_inv():
        if spec.bind: spec.bind(I, lambda name: place(I, name))
        for nm, g in spec.inv(I, v): I.assume(g)

    def one(check=False):
        assume_inv()
        v0 = spec.variant(I, v) if spec.variant else None
        if not I.branch(cond()): return 'exit'
        try:
            body()
        except ContinueEx:
            pass
        inc()
        if check:
            fs = spec.inv(I, v)
            for nm, g in fs:
                if nm == '!': I.assume(g)      # instance of a lemma proved elsewhere
            for nm, g in fs:
                if nm != '!': I.oblige('loop invariant preserved: ' + nm, g, where, 'inv')
            if v0 is not None: I.oblige('loop terminates', and_(lt(spec.variant(I, v), v0), le(I_(0), v0)), where, 'inv')
        return 'next'

    def havocked():
        st = base.clone()
        for key in mod: set_leaf(st, key, mod[key].hv)
        st.pc = list(base.pc)
        return st
    I.quiet += 1
    try:
        for rnd in range(12):
            st = havocked()
            for f, x in list(base.sym.items()): st.sym.setdefault(f, x)
            paths = I.explore(one, st)
            new = []
            for p in paths:
                for f in p.state.sym:
                    if f not in base.sym:
                        base.sym[f] = I.symfields_initial(f, p.state)
                        st.sym[f] = base.sym[f]
                if p.kind == 'ok' and p.value == 'next':
                    for key in diff_leaves(st, p.state, mod):
                        if key[0] == 'shape': raise Unsupported('loop changes the shape of %s' % (I.describe_addr(key[1]),))
                        if key not in mod and key not in new: new.append(key)
            if not new: break
            for key in new:
                l = get_leaf(base, key)
                q = Leaf()
                q.key, q.pre, q.T = key, l, isinstance(l, T)
                nm = 'inv%s' % fresh('', 'I').data
                q.hv = sym_like(l, nm, ()) if q.T else sym_fn(l, nm, 'O' if key[0] == 's' else 'I')
                mod[key] = q
        else:
            raise Unsupported('loop frame does not stabilise')
    finally:
        I.quiet -= 1
    if not I.quiet and I.pos >= len(I.dec): I.explore(lambda: one(True), havocked())
    I.loop_invariants = getattr(I, 'loop_invariants', 0) + 1
    exits = [p for p in paths if p.kind in ('break', 'return', 'throw')]
    leave = I.choose(2) if exits else 0
    for key in mod: set_leaf(I.state, key, mod[key].hv)
    assume_inv()
    c = I.branch(cond())
    if c != (leave == 1): raise Infeasible()
    if leave == 0: return
    try:
        body()
    except ContinueEx:
        raise Infeasible()
    except BreakEx:
        return
    raise Infeasible()


class Inv:
    """loop contract: inv(I, v) -> [(name, formula)]; variant(I, v) -> integer that decreases;
    bind(I, lv) writes, at the loop head, the values that inv (with a fresh index) says the modified places have"""
    def __init__(self, inv, variant=None, bind=None): self.inv, self.variant, self.bind = inv, variant, bind


def get_leaf(st, key):
    if key[0] == 'h':
        v = st.heap[key[1]]
        for p, l in leaves(v):
            if p == key[2]: return l
        raise Unsupported('leaf vanished')
    return st.sym[key[1]]


def set_leaf(st, key, x):
    if key[0] == 'h': st.heap[key[1]] = put_leaf(st.heap[key[1]], key[2], x)
    else: st.sym[key[1]] = x


def diff_leaves(a, b, keys):
    """keys of leaves of state b (restricted to what exists in a) that differ from a"""
    out = []
    for addr, v in a.heap.items():
        w = b.heap.get(addr)
        if w is v or w is None: continue
        la, lb = dict(leaves(v)), dict(leaves(w))
        for p in la:
            if p not in lb:
                out.append(('shape', addr, p))
            elif la[p] is not lb[p]:
                if isinstance(la[p], (T, Fn)): out.append(('h', addr, p))
                elif repr(la[p]) != repr(lb[p]): out.append(('shape', addr, p))
        for p in lb:
            if p not in la: out.append(('shape', addr, p))
    for f, v in a.sym.items():
        if f in b.sym and b.sym[f] is not v: out.append(('s', f, ()))
    return out


class Leaf:
    pass


def summarise(I, node, cond, body, inc):
    from .interp import BreakEx, ContinueEx, ReturnEx, ThrowEx, Infeasible
    base = I.state
    k = fresh('k', 'I')
    mod = {}
    where = I.loc(node)

    def one():
        c = cond()
        if not I.branch(c): return 'exit'
        try:
            body()
        except ContinueEx:
            pass
        inc()
        return 'next'

    def state_at(getter, extra):
        st = base.clone()
        for key in mod: set_leaf(st, key, getter(key))
        st.pc = list(base.pc) + [e for e in extra if e is not TRUE]
        return st

    I.quiet += 1
    try:
        for rnd in range(12):
            mark = int(fresh('mark', 'I').data.split('!')[1])
            st = state_at(lambda key: mod[key].hv, [le(I_(0), k)])
            for f, v in list(base.sym.items()): st.sym.setdefault(f, v)
            paths = I.explore(one, st)
            new = []
            for p in paths:
                for f in p.state.sym:
                    if f not in base.sym:
                        # field first touched inside the body: register its initial map
                        base.sym[f] = I.symfields_initial(f, p.state)
                        st.sym[f] = base.sym[f]
                if p.kind == 'ok' and p.value == 'next':
                    for key in diff_leaves(st, p.state, mod):
                        if key[0] == 'shape':
                            l1 = I.describe_addr(key[1])
                            raise Unsupported('loop changes the shape of %s' % (l1,))
                        if key not in mod and key not in new: new.append(key)
            if not new: break
            for key in new:
                l = get_leaf(base, key)
                q = Leaf()
                q.key = key
                q.pre = l
                q.name = 'hv%s' % fresh('', 'I').data
                q.T = isinstance(l, T)
                q.hv = sym_like(l, q.name, ()) if q.T else sym_fn(l, q.name, 'O' if key[0] == 's' else 'I')
                mod[key] = q
        else:
            raise Unsupported('loop frame does not stabilise')
        nexts = [p for p in paths if p.kind == 'ok' and p.value == 'next']
        nb = len(base.pc) + 1
        cps = I.explore(lambda: cond(), st)
        cval = or_(*[and_(*(p.pc[nb:] + [p.value])) for p in cps])
    finally:
        I.quiet -= 1
    exits = [p for p in paths if p.kind in ('break', 'return', 'throw')]
    if not nexts and not exits:
        I.assume(not_(cval))
        return
    extra = {id(p): and_(*p.pc[nb:]) for p in paths}
    # unknowns introduced by one iteration (results of contracts, positions found by algorithms) differ from iteration to
    # iteration: they become functions of the iteration
    own = {q.name for q in mod.values()}
    perit = PerIteration(I, k, mark, own, where)
    # the updates
    for key, q in mod.items():
        q.u = perit.leaf(merge_paths([(p.pc[nb:], get_leaf(p.state, key), extra[id(p)]) for p in nexts]), key)
    extra = {i: perit(t) for i, t in extra.items()}
    cval = perit(cval)
    hvnames = {q.name for q in mod.values()}
    fnnames = {q.name for q in mod.values() if not q.T}
    solved = {}
    todo = [q for q in mod.values() if q.T]
    opaque = []

    def mentions(t, names):
        return contains(t, lambda x: (x.op == 'var' and x.data in names) or (x.op == 'uf' and base_name(x.data) in names))

    changing = True
    while todo and changing:
        changing = False
        for q in list(todo):
            u = subst(q.u, solved)
            others = {r.name for r in todo if r is not q} | fnnames
            c = solve_scalar(I, q, u, k, others, mentions)
            if c is not None:
                q.closed = c
                solved[q.hv] = c
                todo.remove(q)
                changing = True
    for q in todo:
        nm = 'loopvar%s' % fresh('', 'I').data
        q.closed = uf(nm, (k,), q.pre.sort)
        solved[q.hv] = q.closed
        opaque.append(q)
    # loop hints: extra inductive facts supplied by the specification are not needed for solved leaves
    for q in opaque: I.tainted.append('loop at %s: unsolved recurrence' % where)
    cv = subst(cval, solved)
    N, nfacts = trip_count(I, cv, k, where)
    for q in mod.values():
        if not q.T:
            q.loop = LoopInfo(I, q, k, N, solved, mod)
    if perit.used:
        # what every completed iteration knows about its own unknowns
        conds = [rewrite_hv(subst(extra[id(p)], solved), mod, k) for p in nexts]
        if all(c is not None for c in conds):
            done = or_(*conds)
            def known(upto):
                j = fresh('j', 'I')
                return forall(j, implies(and_(le(I_(0), j), lt(j, upto)), subst(done, {k: j})))
        else: known = lambda upto: TRUE
    else: known = lambda upto: TRUE
    at = lambda kk: (lambda key: subst(mod[key].closed, {k: kk}) if mod[key].T else mod[key].loop.at(kk))
    opq_facts = [eq(subst(q.closed, {k: I_(0)}), q.pre) for q in opaque]

    # one more generic iteration with the closed forms in place: record the obligations of the body
    I.loop_depth = getattr(I, 'loop_depth', 0) + 1
    st = state_at(at(k), opq_facts + list(nfacts) + [le(I_(0), k), lt(k, N)])
    I.explore(one, st)
    I.loop_depth -= 1

    # exits
    E = FALSE
    if exits:
        conds = []
        for p in exits:
            c = subst(extra[id(p)], solved)
            c = rewrite_hv(c, mod, k)
            conds.append(c)
        E = or_(*conds) if all(c is not None for c in conds) else None
        which = I.choose(2)
        if which == 1:
            m = fresh('m', 'I')
            I.assume(*nfacts)
            I.assume(*opq_facts)
            I.assume(le(I_(0), m), lt(m, N))
            if E is not None:
                j = fresh('j', 'I')
                I.assume(forall(j, implies(and_(le(I_(0), j), lt(j, m)), not_(subst(E, {k: j})))))
            I.assume(known(m))
            g = at(m)
            for key in mod: set_leaf(I.state, key, g(key))
            c = cond()
            if not I.branch(c): raise Infeasible()
            try:
                body()
            except ContinueEx:
                raise Infeasible()
            except BreakEx:
                return
            raise Infeasible()
    I.assume(*nfacts)
    I.assume(*opq_facts)
    if E is not None and E is not FALSE:
        j = fresh('j', 'I')
        I.assume(forall(j, implies(and_(le(I_(0), j), lt(j, N)), not_(subst(E, {k: j})))))
    I.assume(known(N))
    g = at(N)
    for key in mod: set_leaf(I.state, key, g(key))


class PerIteration:
    def __init__(self, I, k, mark, own, where): self.I, self.k, self.mark, self.own, self.where, self.used = I, k, mark, own, where, False

    def isnew(self, name):
        m = re.match(r'^[^!@.]+!(\d+)$', name) if isinstance(name, str) else None
        return bool(m) and int(m.group(1)) > self.mark and name not in self.own

    def __call__(self, t):
        m = {v: uf(v.data + '@', (self.k,), v.sort) for v in fv(t) if self.isnew(v.data)}
        if contains(t, lambda x: x.op == 'uf' and self.isnew(base_name(x.data)) and base_name(x.data) not in self.own):
            self.taint()
        if not m: return t
        self.used = True
        return subst(t, m)

    def taint(self):
        s = 'loop at %s: unknown function in an iteration' % self.where
        if s not in self.I.tainted: self.I.tainted.append(s)

    def leaf(self, u, key):
        if isinstance(u, T): return self(u)
        if not isinstance(u, Fn): return u
        probe = [fresh('probe', 'O' if key[0] == 's' else 'I') for _ in range(u.arity)]
        mine = lambda v: self.isnew(v.data) and v not in probe
        try: r = u.get(*probe)
        except (AttributeError, TypeError, Unsupported): return u
        if not isinstance(r, T) or not any(mine(v) for v in fv(r)):
            if isinstance(r, T): self(subst(r, {p: var('arg', p.sort) for p in probe}))
            return u
        self.used = True

        def get(*x):
            r = u.get(*probe)
            r = subst(r, {v: uf(v.data + '@', (self.k,), v.sort) for v in fv(r) if mine(v)})
            return subst(r, dict(zip(probe, x)))
        return Fn(get, u.arity, u.name)


def merge_paths(ps, at=0):
    """value over the alternatives [(path condition, value, conjunction)], merged along the decision tree"""
    while True:
        if len(ps) == 1 or all(x[1] is ps[0][1] for x in ps): return ps[0][1]
        if any(at >= len(x[0]) for x in ps): break
        c = ps[0][0][at]
        a = [x for x in ps if x[0][at] is c]
        b = [x for x in ps if x[0][at] is not c]
        if b:
            if not all(x[0][at] is not_(c) for x in b): break
            return merge(c, merge_paths(a, at + 1), merge_paths(b, at + 1))
        at += 1
    u = None
    for pc, l, e in ps: u = l if u is None else merge(and_(*pc[at:]), l, u)
    return u


def I_(v): return num(v, 'I')


def base_name(s):
    return s.split('.')[0]


def sym_fn(l, name, sort='I'):
    probe = l.get(*[fresh('probe', sort) for _ in range(l.arity)])
    return Fn(lambda *x: sym_like(probe, name, tuple(x)), l.arity, name)


def solve_scalar(I, q, u, k, others, mentions):
    """closed form of q at iteration k, or None"""
    hv = q.hv
    if u is hv: return q.pre
    if mentions(u, others): return None
    has = hv in fv(u)
    if not has:
        c = subst(u, {k: k - 1})
        if subst(c, {k: I_(0)}) is q.pre: return c
        return ite(le(k, I_(0)), q.pre, c)
    if q.pre.sort in ('I', 'R'):
        g = None
        l = linear(u)
        if l.get(hv) == 1:
            rest = {a: b for a, b in l.items() if a is not hv}
            r = from_linear(rest, u.sort)
            if hv not in fv(r): g = r
        if g is None and u.op == 'ite':
            g = additive(u, hv)
        if g is not None:
            if k not in fv(g):
                return add(q.pre, mul(lift(k, q.pre.sort), g))
            j = fresh('j', 'I')
            return add(q.pre, sum_(j, I_(0), k, subst(g, {k: j})))
        # multiplicative by constant: v*c
        return None
    if q.pre.sort == 'B':
        a1, a0 = subst(u, {hv: TRUE}), subst(u, {hv: FALSE})
        j = fresh('j', 'I')
        rng = and_(le(I_(0), j), lt(j, k))
        if a0 is FALSE: return and_(q.pre, forall(j, implies(rng, subst(a1, {k: j}))))
        if a1 is TRUE: return or_(q.pre, exists(j, and_(rng, subst(a0, {k: j}))))
    return None


def additive(u, A):
    """u = A + g with g free of A"""
    if u is A: return num(0, u.sort)
    if u.op == 'ite':
        if A in subterms(u.args[0]): return None
        a, b = additive(u.args[1], A), additive(u.args[2], A)
        if a is None or b is None: return None
        return ite(u.args[0], a, b)
    if u.op == 'add':
        l = linear(u)
        if l.get(A) == 1:
            r = from_linear({a: b for a, b in l.items() if a is not A}, u.sort)
            if A not in subterms(r): return r
        # one ite inside the sum
        for t, c in l.items():
            if t is not None and c == 1 and t.op == 'ite' and A in subterms(t):
                r = additive(t, A)
                if r is None: return None
                rest = from_linear({a: b for a, b in l.items() if a is not t}, u.sort)
                if A in subterms(rest): return None
                return add(r, rest)
    return None


def trip_count(I, c, k, where):
    """(N, facts)"""
    if c is FALSE: return I_(0), []
    neg = False
    a = c
    if a.op == 'not':
        neg, a = True, a.args[0]
    if a.op in ('lt', 'le') and a.args[0].sort == 'I':
        x, y = a.args
        if neg: x, y, strict = y, x, a.op == 'le'
        else: strict = a.op == 'lt'
        d = sub(y, x) if strict else add(sub(y, x), I_(1))   # continue iff d(k) > 0
        r = affine_in(d, k)
        if r and r[1] < 0:
            s = -r[1]
            e0 = r[0]
            if s == 1:
                if I.entails(le(I_(0), e0)): return e0, []
                return ite(le(I_(0), e0), e0, I_(0)), []
            N = fresh('N', 'I')
            sN = mul(num(s, 'I'), N)
            return N, [le(I_(0), N), le(sub(e0, sN), I_(0)), or_(eq(N, I_(0)), lt(I_(0), sub(add(e0, num(s, 'I')), sN)))]
    if a.op == 'eq' and neg and a.args[0].sort == 'I':
        d = sub(a.args[0], a.args[1])
        r = affine_in(d, k)
        if r and r[1] != 0:
            l = {t: -v / r[1] for t, v in linear(r[0]).items()}
            if all(v.denominator == 1 for v in l.values()):
                N = from_linear(l, 'I')
                I.oblige('loop counter reaches its bound', le(I_(0), N), where, 'bounds')
                return N, [le(I_(0), N)]
            N = fresh('N', 'I')
            e = eq(add(r[0], mul(num(r[1], 'I'), N)), I_(0))
            # the loop terminates only if the bound is hit
            m = fresh('n', 'I')
            I.oblige('loop counter reaches its bound', exists(m, and_(le(I_(0), m), eq(add(r[0], mul(num(r[1], 'I'), m)), I_(0)))), where, 'bounds')
            return N, [le(I_(0), N), e]
    N = fresh('N', 'I')
    j = fresh('j', 'I')
    facts = [le(I_(0), N), not_(subst(c, {k: N})), or_(eq(N, I_(0)), subst(c, {k: N - 1}))]
    if c is TRUE: facts = [le(I_(0), N)]
    else:
        facts.append(forall(j, implies(and_(le(I_(0), j), lt(j, N)), subst(c, {k: j}))))
    if contains(c, lambda x: x.op == 'uf' and x.data.startswith('hv')):
        facts = [le(I_(0), N)]
        I.tainted.append('loop at %s: condition depends on written data' % where)
    return N, facts


def rewrite_hv(t, mod, k):
    """replace reads of havoced functions at iteration k by their closed forms"""
    names = {q.name: q for q in mod.values() if not q.T}
    for _ in range(6):
        hits = [x for x in subterms(t) if x.op == 'uf' and base_name(x.data) in names]
        if not hits: return t
        m = {}
        for h in hits:
            q = names[base_name(h.data)]
            if any(contains(a, lambda x: x.op == 'uf' and base_name(x.data) in names) for a in h.args): continue
            if h.data != q.name: return None
            m[h] = q.loop.at(k).get(*h.args)
        if not m: return None
        t = subst(t, m)
    return None


class LoopInfo:
    """closed form of a function-valued place after kk iterations"""

    def __init__(self, I, q, k, N, solved, mod):
        self.I, self.q, self.k, self.N, self.solved, self.mod = I, q, k, N, solved, mod
        self.memo = {}

    def at(self, kk):
        return Fn(lambda *x: self.value(kk, x), self.q.pre.arity, self.q.name)

    def value(self, kk, x):
        key = (kk.id, tuple(a.id for a in x), tuple(p.id for p in self.I.state.pc))
        if key in self.memo: return self.memo[key]
        q = self.q
        pre = q.pre.get(*x)
        hv = q.hv.get(*x)
        u = q.u.get(*x)
        out = pre
        lp, lh, lu = leaves(pre), dict(leaves(hv)), dict(leaves(u))
        for p, l in lp:
            if isinstance(l, T):
                out = put_leaf(out, p, self.close(kk, x, l, lh[p], lu[p]))
            elif isinstance(l, Fn):
                if lu[p] is lh[p] or fn_same(lu[p], lh[p]): continue
                # nested function: close pointwise
                def mkf(l, a, b):
                    def g(*y):
                        pv, hvv, uv = l.get(*y), a.get(*y), b.get(*y)
                        if isinstance(pv, T): return self.close(kk, x + tuple(y), pv, hvv, uv)
                        raise Unsupported('nested loop function')
                    return Fn(g, l.arity, l.name)
                out = put_leaf(out, p, mkf(l, lh[p], lu[p]))
        self.memo[key] = out
        return out

    def close(self, kk, x, A0, A, u):
        I = self.I
        k = self.k
        u = subst(u, self.solved)
        # simplify under the path condition and the iteration range
        ctx = Ctx(I.state.pc + [le(I_(0), k), lt(k, self.N), lt(k, kk)], timeout=1500)
        u = simplify_ites(ctx, u)
        u2 = self.hv_reads(self.alias(u, A), A)
        if u2 is None:
            r = None
        else:
            r = self.rec(kk, x, A0, A, u2, ctx)
        if r is None:
            I.tainted.append('loop-written data read back: %s' % show(u)[:(2000 if os.environ.get("GV_DEBUG") else 200)])
            return uf('unk%s' % fresh('', 'I').data, tuple(x) + (kk,), A0.sort)
        return r

    def alias(self, u, A):
        """inside a branch guarded by a == x, the element a of the written place is the element x"""
        if A.op != 'uf' or len(A.args) != 1: return u
        x = A.args[0]

        def go(t, eqs, depth):
            if depth > 12: return t
            if t.op == 'ite':
                c = t.args[0]
                new = dict(eqs)
                for g in (c.args if c.op == 'and' else (c,)):
                    if g.op == 'eq' and g.args[0].sort == 'I':
                        for p, q in (g.args, g.args[::-1]):
                            if p is x and q.op != 'num': new[uf(A.data, (q,), A.sort)] = A
                return ite(subst(c, eqs) if eqs else c, go(t.args[1], new, depth + 1), go(t.args[2], eqs, depth + 1))
            if t.op in ('add', 'mul') and contains(t, lambda y: y.op == 'ite'):
                return rebuild(t, [go(a, eqs, depth + 1) for a in t.args])
            return subst(t, eqs) if eqs else t
        return go(u, {}, 0)

    def hv_reads(self, u, A):
        """other reads of written functions: by closed form (own function: only at x)"""
        names = {q.name: q for q in self.mod.values() if not q.T}
        for _ in range(5):
            hits = [t for t in subterms(u) if t.op == 'uf' and base_name(t.data) in names and t is not A]
            if not hits: return u
            m = {}
            for h in hits:
                q = names[base_name(h.data)]
                if q is self.q: return None
                if any(contains(a, lambda t: t.op == 'uf' and base_name(t.data) in names) for a in h.args): continue
                if h.data != q.name: return None
                m[h] = q.loop.at(self.k).get(*h.args)
            if not m: return None
            u = subst(u, m)
        return None

    def rec(self, kk, x, A0, A, u, ctx):
        k = self.k
        hasA = A in subterms(u)
        if u is A: return A0
        g = additive(u, A) if A.sort in ('R', 'I') else None
        if g is not None:
            if k not in fv(g): return add(A0, mul(lift(kk, A0.sort), g))
            j = fresh('j', 'I')
            return add(A0, sum_(j, I_(0), kk, subst(g, {k: j})))
        if not hasA:
            return ite(lt(I_(0), kk), subst(u, {k: kk - 1}), A0)
        # nested ites: split on conditions free of k first
        c = first_cond(u)
        if c is None or A in subterms(c): return None
        if k not in fv(c):
            a = self.rec(kk, x, A0, A, subst(u, {c: TRUE}), ctx)
            b = self.rec(kk, x, A0, A, subst(u, {c: FALSE}), ctx)
            if a is None or b is None: return None
            return ite(c, a, b)
        ov = override(u, A)
        if ov is None: return None
        cnd, val = ov
        return self.last_write(kk, x, A0, cnd, val, ctx)

    def last_write(self, kk, x, A0, c, v, ctx):
        k = self.k
        r = self.selected(kk, A0, c, v, ctx)
        if r is not None: return r
        alts = c.args if c.op == 'or' else (c,)
        sols = []
        ok = True
        for a in alts:
            s = solve_for(a, k)
            if s is None: s = self.match(a, k, ctx)
            if s is None: s = block_match(a, k, ctx)
            if isinstance(s, str): continue
            if s is None:
                ok = False
                break
            sols.append(s)
        if ok:
            uniq = []
            for s in sols:
                if not any(s is t or ctx_entails(ctx, eq(s, t)) for t in uniq): uniq.append(s)
            if not uniq: return A0
            if len(uniq) == 1 or self.same_case(c, uniq, kk):
                r = A0
                # several candidate iterations: later ones win
                for s in uniq:
                    g = and_(le(I_(0), s), lt(s, kk), subst(c, {k: s}))
                    r = ite(g, subst(v, {k: s}), r)
                return r
            # order the candidates
            r = A0
            uniq2 = sorted(uniq, key=lambda t: linear(t).get(None, 0))
            base = from_linear({a: b for a, b in linear(uniq2[0]).items() if a is not None}, 'I')
            if all(sub(t, uniq2[0]).op == 'num' for t in uniq2):
                for s in uniq2:
                    g = and_(le(I_(0), s), lt(s, kk), subst(c, {k: s}))
                    r = ite(g, subst(v, {k: s}), r)
                return r
        # skolemised last writer
        m = fresh('last', 'I')
        j = fresh('j', 'I')
        I = self.I
        cm = subst(c, {k: m})
        I.assume(or_(and_(le(I_(0), m), lt(m, kk), cm, forall(j, implies(and_(lt(m, j), lt(j, kk)), not_(subst(c, {k: j}))))),
                     and_(eq(m, I_(-1)), forall(j, implies(and_(le(I_(0), j), lt(j, kk)), not_(subst(c, {k: j})))))))
        return ite(le(I_(0), m), subst(v, {k: m}), A0)

    def same_case(self, c, uniq, kk): return False

    def selected(self, kk, A0, c, v, ctx):
        """element appended under a condition: position = start + number of earlier selections"""
        k = self.k
        for e in (c.args if c.op == 'and' else (c,)):
            if e.op != 'eq' or e.args[0].sort != 'I': continue
            d = linear(sub(e.args[0], e.args[1]))
            cs = [t for t in d if t is not None and t.op == 'sum' and t.args[2] is k and t.args[1] is I_(0) and abs(d[t]) == 1 and is_count(t)]
            if len(cs) != 1: continue
            S = cs[0]
            rest = from_linear({t: (q * -d[S]) for t, q in d.items() if t is not S}, 'I')   # position within the selection
            if k in fv(rest): continue
            cond = count_cond(S)
            ck = subst(cond, {S.args[0]: k})
            if not (ctx.entails(implies(c, ck)) and ctx.entails(implies(and_(ck, e), c))): continue
            cntk = lambda x: subst(S, {k: x})
            I = self.I
            j, t = fresh('j', 'I'), fresh('t', 'I')
            st = sel_term(S, t)
            I.assume(le(I_(0), cntk(kk)))
            I.assume(forall(t, implies(and_(le(I_(0), t), lt(t, cntk(kk))), and_(le(I_(0), st), lt(st, kk), subst(cond, {S.args[0]: st}), eq(cntk(st), t)))))
            g = and_(le(I_(0), rest), lt(rest, cntk(kk)))
            return ite(g, subst(v, {k: sel_term(S, rest)}), A0)
        return None

    def match(self, cond, k, ctx):
        for c in (cond.args if cond.op == 'and' else (cond,)):
            if c.op == 'eq' and k in fv(c):
                for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                    if k in fv(x) and k not in fv(y):
                        for cand in match_hole(None, x, y, k):
                            if ctx.entails(implies(cond, eq(k, cand))): return cand
        return None


def ctx_entails(ctx, g): return g is TRUE or (g is not FALSE and ctx.entails(g))


def fn_same(a, b):
    x = [fresh('probe', 'I') for _ in range(a.arity)]
    try:
        p, q = a.get(*x), b.get(*x)
    except Exception:
        return False
    lp, lq = leaves(p), leaves(q)
    return len(lp) == len(lq) and all(u[1] is w[1] or (isinstance(u[1], Fn) and isinstance(w[1], Fn) and fn_same(u[1], w[1])) for u, w in zip(lp, lq))


def first_cond(u):
    return find_cond(u)


def override(u, A):
    """u = ite(c, v, A) with c,v free of A (v may be an ite of several values)"""
    if u is A: return FALSE, A
    if A not in subterms(u): return TRUE, u
    if u.op != 'ite' or A in subterms(u.args[0]): return None
    a, b = override(u.args[1], A), override(u.args[2], A)
    if a is None or b is None: return None
    c = u.args[0]
    cond = or_(and_(c, a[0]), and_(not_(c), b[0]))
    if a[0] is FALSE: return cond, b[1]
    if b[0] is FALSE: return cond, a[1]
    return cond, ite(c, a[1], b[1])


def simplify_ites(ctx, u):
    for _ in range(60):
        done = True
        seen = set()
        st = [u]
        while st:
            t = st.pop()
            if t.id in seen: continue
            seen.add(t.id)
            if t.op in BINDERS: continue
            if t.op == 'ite' and not contains(t.args[0], lambda y: y.op == 'ite'):
                c = t.args[0]
                if ctx.entails(c):
                    u = subst(u, {t: t.args[1]})
                    done = False
                    break
                if ctx.entails(not_(c)):
                    u = subst(u, {t: t.args[2]})
                    done = False
                    break
            st.extend(t.args)
        if done: return u
    return u


# ---- enumerations of the indices that satisfy a condition ------------------------------
SELS = {}


def is_count(S):
    b = S.args[3]
    return b.op == 'ite' and b.args[1].op == 'num' and b.args[2].op == 'num' and {b.args[1].data, b.args[2].data} == {0, 1}


def count_cond(S):
    b = S.args[3]
    return b.args[0] if b.args[1].data == 1 else not_(b.args[0])


def sel_term(S, pos):
    """index of the pos-th j with cond(j): sel enumerates {j >= 0 : cond(j)} in increasing order"""
    z = var('sel!', 'I')
    key = subst(count_cond(S), {S.args[0]: z})
    if key.id not in SELS: SELS[key.id] = ('sel%d' % len(SELS), key)
    return uf(SELS[key.id][0], (pos,), 'I')


def reindex(t, hyps=()):
    """rewrites sums over enumerated positions into sums over the enumerated indices:
    sum_{t < #{j<N : c(j)}} f(sel(t)) = sum_{j<N, c(j)} f(j), concatenations split"""
    if not contains(t, lambda x: x.op == 'uf' and x.data.startswith('sel')): return t
    memo = {}
    conds = {n: key for n, key in SELS.values()}

    def go(x):
        if x.id in memo: return memo[x.id]
        r = x
        if x.args:
            na = [go(a) for a in x.args]
            if any(a is not b for a, b in zip(na, x.args)): r = rebuild(x, na)
            if r.op == 'sum': r = one(r)
        memo[x.id] = r
        return r

    def one(s):
        k, lo, hi, body = s.args
        segs = {}
        for u in subterms(body):
            if u.op == 'uf' and u.data in conds:
                off = sub(k, u.args[0])
                if k in fv(off): return s
                segs[(off.id)] = (off, u.data)
        if not segs: return s
        parts, cur, used = [], lo, 0
        z = var('sel!', 'I')
        while cur is not hi:
            if cur.id not in segs: return s
            off, name = segs[cur.id]
            # the length of this segment: a count term of this condition inside hi
            cn = [q for q in linear(sub(hi, off)) if q is not None and q.op == 'sum' and is_count(q) and subst(count_cond(q), {q.args[0]: z}) is conds[name]]
            if not cn: return s
            n = cn[0]
            rng = [le(cur, k), lt(k, add(cur, n))] + [le(I_(0), q) for q in linear(hi) if q is not None]
            ab = {q: fresh('cnt', 'I') for h in [hi, body] + rng for q in subterms(h) if q.op == 'sum' and is_count(q) and k not in fv(q)}
            b = simplify_ites(Ctx([subst(h, ab) for h in rng], timeout=1500), subst(body, ab))
            b = subst(b, {y: x for x, y in ab.items()})
            kk, j = fresh('t', 'I'), fresh('j', 'I')
            b = subst(b, {k: add(kk, off)})
            b = subst(b, {uf(name, (kk,), 'I'): j})
            if kk in fv(b): return s
            parts.append(sum_(j, I_(0), n.args[2], ite(subst(conds[name], {z: j}), b, num(0, b.sort))))
            cur = add(cur, n)
            used += 1
            if used > 6: return s
        return add(*parts) if parts else num(0, body.sort)
    return go(t)
