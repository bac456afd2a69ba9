"""Discharging obligations.

Back ends: 'ring' (case split on conditions decided by z3, then a polynomial identity
over the rationals in normal form), 'z3', 'cvc5'.  Refutation: z3 model or numeric
evaluation of the negated obligation at sampled points.
"""
from fractions import Fraction
import random, subprocess, tempfile, os, time, math
import z3
from .terms import *

STAT = {'z3_calls': 0, 'z3_time': 0.0, 'ring': 0}
UFSORT = {}


class Tr:
    """terms as z3 expressions; translations are shared, what a term needs besides is recorded per user"""
    MEMO, SORTS, FUNCS, SUMS, STRS, OWN, INFO = {}, {}, {}, {}, {}, {}, {}

    def __init__(self):
        self.side = []
        self.have = set()
        self.vars = {}
        self.seen = set()

    def sort(self, s):
        if s == 'R': return z3.RealSort()
        if s == 'I': return z3.IntSort()
        if s == 'B': return z3.BoolSort()
        if s not in self.SORTS: self.SORTS[s] = z3.DeclareSort('S_' + str(s))
        return self.SORTS[s]

    def tr(self, t):
        z = self.go(t)
        if t.id not in self.seen:
            self.seen.add(t.id)
            info = self.INFO.get(t.id)
            if info is None:
                sides, vs = [], []
                for x in subterms(t):
                    if x.op == 'var': vs.append((x, self.MEMO.get(x.id) if x.id in self.MEMO else self.go(x)))
                    for o in self.OWN.get(x.id, ()): sides.append(((x.id, o.get_id()), o))
                info = self.INFO[t.id] = (sides, vs)
            for k, o in info[0]:
                if k not in self.have:
                    self.have.add(k)
                    self.side.append(o)
            for x, c in info[1]: self.vars[x] = c
        return z

    def go(self, t):
        r = self.MEMO.get(t.id)
        if r is None:
            r = self._tr(t)
            self.MEMO[t.id] = r
        return r

    def own(self, t, o): self.OWN.setdefault(t.id, []).append(o)

    def _tr(self, t):
        op = t.op
        if op == 'num':
            return z3.RealVal(str(t.data)) if t.sort == 'R' else z3.IntVal(int(t.data))
        if op == 'var': return z3.Const(str(t.data) + ':' + t.sort, self.sort(t.sort))
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'str':
            if t.data not in self.STRS:
                n = len(self.STRS)
                c = self.STRS[t.data] = z3.Const('str!%d' % n, self.sort('S'))
                f = z3.Function('literal_number', self.sort('S'), z3.IntSort())
                self.own(t, f(c) == n)
            return self.STRS[t.data]
        if op == 'sum':
            key = sub_canon(t)
            if key not in self.SUMS:
                bs = sorted((v for v in fv(t) if v in BOUNDV), key=lambda v: v.id)
                nm = 'sum!%d' % len(self.SUMS)
                self.SUMS[key] = z3.Function(nm, *([self.sort(v.sort) for v in bs] + [self.sort(t.sort)]))(*[self.go(v) for v in bs]) if bs else z3.Const(nm, self.sort(t.sort))
            return self.SUMS[key]
        if op in ('all', 'ex'):
            n = t.data
            vs = [self.go(a) for a in t.args[:n]]
            b = self.go(t.args[-1])
            return z3.ForAll(vs, b) if op == 'all' else z3.Exists(vs, b)
        a = [self.go(x) for x in t.args]
        if op == 'add': return z3.Sum(a)
        if op == 'mul':
            r = a[0]
            for x in a[1:]: r = r * x
            return r
        if op == 'div': return a[0] / a[1]
        if op == 'idiv':
            q = z3.If(a[0] >= 0, z3.If(a[1] > 0, a[0] / a[1], -(a[0] / -a[1])),
                      z3.If(a[1] > 0, -((-a[0]) / a[1]), (-a[0]) / (-a[1])))
            return q
        if op == 'imod':
            am = z3.If(a[0] >= 0, a[0], -a[0]) % z3.If(a[1] >= 0, a[1], -a[1])
            return z3.If(a[0] >= 0, am, -am)
        if op == 'toreal': return z3.ToReal(a[0])
        if op == 'floor': return z3.ToInt(a[0])
        if op == 'eq': return a[0] == a[1]
        if op == 'lt': return a[0] < a[1]
        if op == 'le': return a[0] <= a[1]
        if op == 'not': return z3.Not(a[0])
        if op == 'and': return z3.And(a)
        if op == 'or': return z3.Or(a)
        if op == 'ite': return z3.If(*a)
        if op == 'uf':
            if not a:
                return z3.Const('c_' + t.data + ':' + t.sort, self.sort(t.sort))
            key = (t.data, tuple(x.sort for x in t.args), t.sort)
            if key not in self.FUNCS:
                self.FUNCS[key] = z3.Function('f_%s/%d%s' % (t.data, len(a), ''.join(s[0] for s in key[1])), *([self.sort(x.sort) for x in t.args] + [self.sort(t.sort)]))
            r = self.FUNCS[key](*a)
            if not any(v in BOUNDV for v in fv(t)):
                if t.data == 'sqrt':
                    self.own(t, z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0])))
                elif t.data == 'exp':
                    self.own(t, r > 0)
                elif t.data in ('sin', 'cos'):
                    self.own(t, z3.And(r <= 1, r >= -1))
                elif t.data == 'norm':
                    self.own(t, r >= 0)
            return r
        raise ValueError(op)


BOUNDV = set()


def sub_canon(t):
    k, lo, hi, body = t.args
    c = var('κ', 'I')
    return (lo.id, hi.id, subst(body, {k: c}).id)


def _bound_mark(ts):
    for t in ts:
        for s in subterms(t):
            if s.op in BINDERS:
                for k in s.args[:s.data]: BOUNDV.add(k)


class Ctx:
    """A set of hypotheses with an incremental z3 solver behind it."""

    def __init__(self, hyps=(), timeout=2000):
        self.hyps = []
        self.tr = Tr()
        self.s = z3.SolverFor('ALL') if False else z3.Solver()
        self.s.set('timeout', timeout)
        self.quant = False
        self.nside = 0
        self.cache = {}
        for h in hyps: self.add(h)

    def add(self, h):
        if h is TRUE: return
        self.hyps.append(h)
        _bound_mark([h])
        z = self.tr.tr(h)
        self._side()
        if not self.quant and contains(h, lambda x: x.op in ('all', 'ex')):
            # quantified hypotheses: instantiate by matching only (model search over quantifiers is slow)
            self.quant = True
            self.s.set('smt.mbqi', False)
        self.s.add(z)
        self.cache = {}

    def _side(self):
        while self.nside < len(self.tr.side):
            self.s.add(self.tr.side[self.nside])
            self.nside += 1

    def child(self, *hs):
        c = Ctx.__new__(Ctx)
        c.__init__(self.hyps + list(hs))
        return c

    def check(self, extra):
        """satisfiability of hyps & extra"""
        t0 = time.time()
        _bound_mark([extra])
        z = self.tr.tr(extra)
        self._side()
        self.s.push()
        self.s.add(z)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        STAT['z3_calls'] += 1
        STAT['z3_time'] += time.time() - t0
        return str(r)

    def entails(self, g):
        if g is TRUE: return True
        k = ('e', g.id)
        if k not in self.cache:
            self.cache[k] = self.check(not_(g)) == 'unsat'
        return self.cache[k]

    def sat(self, g=TRUE):
        return self.check(g) != 'unsat'


# ---- rational normal form ------------------------------------------------------
class Poly:
    """dict: monomial (sorted tuple of (atom id, exp)) -> Fraction"""


LIMIT = 60000


class TooBig(Exception):
    pass


def pmul(p, q):
    if len(p) * len(q) > LIMIT: raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e in m2: d[a] = d.get(a, 0) + e
            m = tuple(sorted(d.items()))
            c = r.get(m, 0) + c1 * c2
            if c == 0: del r[m]
            else: r[m] = c
    return r


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r


ONE = {(): Fraction(1)}


def atom(t):
    return {((t.id, 1),): Fraction(1)}


class Ring:
    def __init__(self, canon=lambda t: t):
        self.atoms = {}
        self.memo = {}
        self.dens = []
        self.canon = canon

    def rf(self, t):
        """(num, den) polynomials; den is a product of factor polys kept as dict factor->exp"""
        r = self.memo.get(t.id)
        if r is None:
            r = self._rf(t)
            self.memo[t.id] = r
        return r

    def _rf(self, t):
        op = t.op
        if op == 'num':
            return ({(): t.data} if t.data else {}, {})
        if op == 'add':
            parts = [self.rf(a) for a in t.args]
            den = {}
            for _, d in parts:
                for f, e in d.items(): den[f] = max(den.get(f, 0), e)
            tot = {}
            for n, d in parts:
                for f, e in den.items():
                    for _ in range(e - d.get(f, 0)):
                        n = pmul(n, dict(f))
                tot = padd(tot, n)
            return (tot, den)
        if op == 'mul':
            n, d = ONE, {}
            for a in t.args:
                an, ad = self.rf(a)
                n = pmul(n, an)
                for f, e in ad.items(): d[f] = d.get(f, 0) + e
            return self.cancel(n, d)
        if op == 'div':
            an, ad = self.rf(t.args[0])
            bn, bd = self.rf(t.args[1])
            n, d = an, dict(ad)
            for f, e in bd.items():
                k = min(e, d.get(f, 0))
                if k:
                    d[f] -= k
                    e -= k
                    if d[f] == 0: del d[f]
                for _ in range(e): n = pmul(n, dict(f))
            if not bn: raise ZeroDivisionError
            # factor bn: monomial content
            mon, rest, c = self.split(bn)
            n = {m: v / c for m, v in n.items()}
            for a, e in mon:
                f = self.fz({((a, 1),): Fraction(1)})
                d[f] = d.get(f, 0) + e
            if rest != ONE:
                f = self.fz(rest)
                d[f] = d.get(f, 0) + 1
            return self.cancel(n, d)
        if op == 'toreal' and t.args[0].op in ('add', 'mul', 'num'):
            return self.rf(to_real(t.args[0]))
        a = self.atomize(t)
        return (atom(a), {})

    def cancel(self, n, d):
        """cancel monomial factors"""
        if not n: return ({}, {})
        if not d: return (n, d)
        d = dict(d)
        for f in list(d):
            if len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][1] == 1:
                a = f[0][0][0][0]
                k = min([dict(m).get(a, 0) for m in n] + [d[f]])
                if k:
                    n2 = {}
                    for m, c in n.items():
                        dm = dict(m)
                        dm[a] -= k
                        if dm[a] == 0: del dm[a]
                        n2[tuple(sorted(dm.items()))] = c
                    n = n2
                    d[f] -= k
                    if d[f] == 0: del d[f]
        return (n, d)

    def fz(self, p):
        return tuple(sorted(p.items(), key=lambda x: x[0]))

    def split(self, p):
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        rest = {}
        for m, c in p.items():
            dm = dict(m)
            for a, e in common.items():
                dm[a] -= e
                if dm[a] == 0: del dm[a]
            rest[tuple(sorted(dm.items()))] = c
        lead = rest[min(rest)]
        rest = {m: c / lead for m, c in rest.items()}
        return tuple(common.items()), rest, lead

    def atomize(self, t):
        """canonical atom: uf args are normalised recursively"""
        if t.op == 'uf' and t.args:
            na = []
            for a in t.args:
                na.append(self.normal(a))
            if t.data in ('exp', 'log', 'sqrt', 'sin', 'cos') or any(x is not y for x, y in zip(na, t.args)):
                t2 = rebuild(t, na)
                if t2.op != 'uf': return self.atomize2(t2)
                t = t2
        self.atoms[t.id] = t
        return t

    def atomize2(self, t):
        self.atoms[t.id] = t
        return t

    def normal(self, t):
        """normal-form term (real args of uf)"""
        if t.sort != 'R' or t.op in ('var', 'num'):
            return t
        if t.op == 'ite': return t
        n, d = self.rf(t)
        def back(p):
            out = []
            for m, c in sorted(p.items()):
                fs = [R(c)]
                for a, e in m: fs += [self.atoms_get(a)] * e
                out.append(mul(*fs))
            return add(*out) if out else R(0)
        r = back(n)
        if d:
            dd = []
            for f, e in sorted(d.items()):
                dd += [back(dict(f))] * e
            r = div(r, mul(*dd))
        return r

    def atoms_get(self, a):
        return self.atoms[a]

    def iszero(self, t):
        n, d = self.rf(t)
        # reduce with trig identity: cos^2 = 1 - sin^2
        if n:
            n = self.trig(n)
        return not n

    def trig(self, n):
        cosmap = {}
        for a, t in list(self.atoms.items()):
            if t.op == 'uf' and t.data == 'cos':
                s = uf('sin', t.args, 'R')
                self.atoms[s.id] = s
                cosmap[a] = s.id
            if t.op == 'uf' and t.data == 'sqrt':
                cosmap[a] = ('sq', t)
        if not cosmap: return n
        changed = True
        while changed:
            changed = False
            r = {}
            for m, c in n.items():
                dm = dict(m)
                hit = next((a for a in dm if a in cosmap and dm[a] >= 2), None)
                if hit is None:
                    r = padd(r, {m: c})
                    continue
                changed = True
                dm[hit] -= 2
                if dm[hit] == 0: del dm[hit]
                base = {tuple(sorted(dm.items())): c}
                cm = cosmap[hit]
                if isinstance(cm, tuple):
                    nn, dd = self.rf(cm[1].args[0])
                    if dd: return n
                    r = padd(r, pmul(base, nn))
                else:
                    r = padd(r, pmul(base, {(): Fraction(1), ((cm, 2),): Fraction(-1)}))
            n = r
        return n


# ---- the equality prover ----------------------------------------------------------
class Res:
    def __init__(self, status, backend='', detail='', model=None):
        self.status, self.backend, self.detail, self.model = status, backend, detail, model

    def __repr__(self):
        return "Res(%s,%s,%s)" % (self.status, self.backend, str(self.detail)[:300])


def find_cond(t, bound=frozenset()):
    """an ite condition in t not under a sum, smallest first"""
    seen = set()
    st = [t]
    best = None
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in BINDERS: continue
        if x.op == 'ite':
            c = x.args[0]
            if not contains(c, lambda y: y.op == 'ite'):
                return leafcond(c)
        st.extend(x.args)
    return None


def leafcond(c):
    while c.op in ('and', 'or', 'not'):
        c = c.args[0]
    return c


def assume_in(t, cond, val):
    """replace cond by its truth value in t (also inside sums when no capture)"""
    return subst(t, {cond: boolc(val)})


def orient(e):
    """an equality to a substitution (from, to) or None"""
    a, b = e.args
    if a.sort == 'I':
        l = linear(sub(a, b))
        cands = [(k, v) for k, v in l.items() if k is not None and abs(v) == 1]
        # prefer variables, then ufs
        cands.sort(key=lambda kv: (kv[0].op != 'var', kv[0].op != 'uf', -kv[0].id))
        for k, v in cands:
            if k.op not in ('var', 'uf'): continue
            rest = {q: -w / v for q, w in l.items() if q is not k}
            r = from_linear(rest, 'I')
            if k in subterms(r): continue
            return k, r
        return None
    for x, y in ((a, b), (b, a)):
        if x.op in ('var',) and x not in fv(y): return x, y
    for x, y in ((a, b), (b, a)):
        if x.op == 'uf' and x not in subterms(y): return x, y
    return None


def simp_eqs(ts, m):
    return [subst(t, m) for t in ts]


def elim_eqs(hyps, goal):
    """use equalities among the hypotheses as substitutions"""
    hyps = [g for h in hyps for g in (h.args if h.op == 'and' else (h,))]
    for _ in range(40):
        for i, h in enumerate(hyps):
            if h.op == 'eq' and h.args[0].sort in ('I', 'R') and h.data != 'used':
                o = orient(h)
                if o is None or o[0].op != 'var': continue
                m = {o[0]: o[1]}
                hyps = [subst(x, m) for j, x in enumerate(hyps) if j != i]
                goal = subst(goal, m)
                hyps = [x for x in hyps if x is not TRUE]
                break
        else:
            break
    return hyps, goal


class Prover:
    def __init__(self, timeout=20, seed=1, budget=4000):
        self.timeout = timeout
        self.rng = random.Random(seed)
        self.budget = budget
        self.deadline = None

    def prove(self, hyps, goal, deadline=None):
        t0 = time.time()
        self.deadline = deadline or (t0 + self.timeout * 6)
        self.splits = 0
        try:
            r = self._prove([alpha(h) for h in hyps], alpha(goal), 0)
        except TooBig:
            r = Res('unknown', '', 'polynomial too big')
        except TimeoutError:
            r = Res('unknown', '', 'time budget exhausted')
        r.time = time.time() - t0
        return r

    def _tick(self):
        if time.time() > self.deadline: raise TimeoutError()

    def _prove(self, hyps, goal, depth):
        self._tick()
        if goal is TRUE: return Res('proved', 'syntactic')
        op = goal.op
        if op == 'and':
            be = set()
            for g in goal.args:
                r = self._prove(hyps, g, depth)
                if r.status != 'proved': return r
                be.add(r.backend)
            return Res('proved', '+'.join(sorted(be)))
        if op == 'all':
            m = {k: fresh(k.data.split('!')[0], k.sort) for k in goal.args[:goal.data]}
            return self._prove(hyps, subst(goal.args[-1], m), depth)
        if op == 'or':
            # real equality with side alternatives: a || b  ==> assume !others
            eqs = [g for g in goal.args if g.op in ('eq', 'all', 'and')]
            hs = None
            for g in goal.args:
                if g.op == 'and' or g.op == 'all' or (g.op == 'eq' and g.args[0].sort == 'R'):
                    others = [not_(x) for x in goal.args if x is not g]
                    return self._prove(hyps + others, g, depth)
        if op == 'eq' and goal.args[0].sort == 'R':
            hyps, goal = elim_eqs(hyps, goal)
            if goal is TRUE: return Res('proved', 'syntactic')
            if goal.op != 'eq': return self.smt(hyps, goal)
            return self.prove_eq(hyps, goal.args[0], goal.args[1])
        return self.smt(hyps, goal)

    # -- generic smt ------------------------------------------------------------------
    def smt(self, hyps, goal):
        hyps, goal = self.expand_sums(hyps, goal)
        c = Ctx(hyps, timeout=int(self.timeout * 1000))
        r = c.check(not_(goal))
        if r == 'unsat': return Res('proved', 'z3')
        if r == 'unknown' and c.quant:
            c.s.set('smt.mbqi', True)
            r = c.check(not_(goal))
            if r == 'unsat': return Res('proved', 'z3')
        if r == 'sat':
            return Res('refuted', 'z3', show(goal), self.model_dict(c))
        # try cvc5
        r2 = run_cvc5(hyps, goal, self.timeout)
        if r2 == 'unsat': return Res('proved', 'cvc5')
        nr = self.numeric(hyps, goal)
        if nr is not None: return Res('refuted', 'numeric', show(goal), nr)
        return Res('unknown', 'z3/cvc5', show(goal))

    def expand_sums(self, hyps, goal):
        return hyps, goal

    def model_dict(self, c):
        out = {}
        if c.model is None: return out
        for t, z in c.tr.vars.items():
            try:
                v = c.model.eval(z, model_completion=True)
                out[t.data] = str(v)
            except Exception:
                pass
        return out

    # -- equality over the reals --------------------------------------------------------
    def prove_eq(self, hyps, a, b):
        d = sub(a, b)
        ctx = Ctx(hyps)
        for h in hyps:
            for g in (h.args if h.op == 'and' else (h,)):
                if g.op == 'eq':
                    pass
        return self.zero(ctx, d)

    def zero(self, ctx, d, subs=()):
        self._tick()
        # 1. split on ite conditions outside sums
        while True:
            c = find_cond(d)
            if c is None: break
            if ctx.entails(c):
                d = self.assume(d, c, True)
                continue
            if ctx.entails(not_(c)):
                d = self.assume(d, c, False)
                continue
            self.splits += 1
            if self.splits > self.budget: return Res('unknown', '', 'too many case splits')
            for val in (True, False):
                h = c if val else not_(c)
                c2 = ctx.child(h)
                r = self.zero(c2, self.assume(d, c, val))
                if r.status != 'proved': return r
            return Res('proved', r.backend)
        # 2. sums
        if contains(d, lambda x: x.op == 'sum'):
            return self.zero_sums(ctx, d)
        # 3. ring
        if d.op == 'num':
            if d.data == 0: return Res('proved', 'ring')
        try:
            rg = Ring()
            STAT['ring'] += 1
            if rg.iszero(d): return Res('proved', 'ring')
        except ZeroDivisionError:
            pass
        # congruence: unify equal integer arguments
        d2 = self.unify(ctx, d)
        if d2 is not d:
            if Ring().iszero(d2): return Res('proved', 'ring')
        if not ctx.sat():
            return Res('proved', 'z3')
        r = ctx.check(not_(eq(d2, R(0))))
        if r == 'unsat': return Res('proved', 'z3')
        nr = self.numeric(ctx.hyps, eq(d2, R(0)))
        if nr is not None: return Res('refuted', 'numeric', show(d2), nr)
        if r == 'sat': return Res('refuted', 'z3', show(d2), self.model_dict(ctx))
        r2 = run_cvc5(ctx.hyps, eq(d2, R(0)), self.timeout)
        if r2 == 'unsat': return Res('proved', 'cvc5')
        return Res('unknown', 'ring/z3/cvc5', show(d2))

    def assume(self, d, c, val):
        d = assume_in(d, c, val)
        if val and c.op == 'eq':
            o = orient(c)
            if o: d = subst(d, {o[0]: o[1]})
        return d

    def unify(self, ctx, d):
        """replace uf applications whose arguments are provably equal by one of them"""
        by = {}
        for t in subterms(d):
            if t.op == 'uf' and t.args:
                by.setdefault((t.data, len(t.args), t.sort), []).append(t)
        m = {}
        for k, ts in by.items():
            if len(ts) < 2 or len(ts) > 14: continue
            reps = []
            for t in ts:
                for r in reps:
                    g = and_(*[eq(x, y) for x, y in zip(t.args, r.args)])
                    if g is TRUE or (g is not FALSE and ctx.entails(g)):
                        m[t] = r
                        break
                else:
                    reps.append(t)
        # equal real atoms by hypothesis
        return subst(d, m) if m else d

    def zero_sums(self, ctx, d):
        lin = linear(expand_over_sums(d))
        rest = {}
        groups = []
        for k, v in lin.items():
            if k is None:
                rest[k] = v
                continue
            s, fac = pull_sum(k)
            if s is None:
                if contains(k, lambda x: x.op == 'sum'):
                    k2 = k  # nonlinear in sums: opaque atom
                rest[k] = v
                continue
            kk, lo, hi, body = s.args
            placed = False
            for g in groups:
                if g[1] is lo and g[2] is hi or (ctx.entails(eq(g[1], lo)) and ctx.entails(eq(g[2], hi))):
                    g[3] = add(g[3], mul(R(v), fac, subst(body, {kk: g[0]})))
                    placed = True
                    break
            if not placed:
                q = fresh('k', 'I')
                groups.append([q, lo, hi, mul(R(v), fac, subst(body, {kk: q}))])
        extra = R(0)
        left = []
        for q, lo, hi, body in groups:
            c2 = ctx.child(le(lo, q), lt(q, hi))
            r = self.zero(c2, body)
            if r.status != 'proved': left.append((q, lo, hi, body, c2, r))
        while left:
            r = self.align(ctx, left)
            if r is not None:
                extra = add(extra, r)
                continue
            q, lo, hi, body, c2, r = left.pop()
            if ctx.entails(le(hi, lo)): continue
            if ctx.entails(eq(hi, add(lo, num(1, 'I')))):
                extra = add(extra, subst(body, {q: lo}))
                continue
            col = collapse(c2, q, lo, hi, body)
            if col is None and extra is not R(0) and len(left) < 6 and getattr(self, 'again', 0) < 4:
                # boundary terms peeled off so far may cancel against this sum
                self.again = getattr(self, 'again', 0) + 1
                try:
                    return self.zero_sums(ctx, add(from_linear(rest, 'R'), extra, sum_(q, lo, hi, body), *[sum_(a[0], a[1], a[2], a[3]) for a in left]))
                finally:
                    self.again -= 1
            if col is None:
                return Res('unknown' if r.status != 'refuted' else 'refuted', r.backend, 'sum body not zero: ' + str(r.detail), r.model)
            extra = add(extra, col)
        d2 = add(from_linear(rest, 'R'), extra)
        if contains(d2, lambda x: x.op == 'sum'):
            if any(k is not None and contains(k, lambda x: x.op == 'sum') for k in rest):
                return self.zero_opaque(ctx, d2)
            return self.zero_sums(ctx, d2) if extra.op != 'num' else Res('unknown', '', 'nested sums')
        return self.zero(ctx, d2)

    def align(self, ctx, left):
        """two sums whose ranges differ in length by a small constant: cancel them up to boundary terms"""
        if len(left) > 6: return None
        for a in range(len(left)):
            for b in range(len(left)):
                if a == b: continue
                q, lo, hi, body, _, _ = left[a]
                q2, lo2, hi2, body2, _, _ = left[b]
                dl = sub(sub(hi, lo), sub(hi2, lo2))
                if dl.op != 'num' or not 0 <= dl.data <= 3: continue
                n = int(dl.data)
                if not ctx.entails(le(lo2, hi2)): continue
                for i in range(n + 1):
                    e = sub(add(lo, num(i, 'I')), lo2)
                    both = add(body, subst(body2, {q2: sub(q, e)}))
                    c2 = ctx.child(le(add(lo, num(i, 'I')), q), lt(q, sub(hi, num(n - i, 'I'))))
                    if self.zero(c2, both).status != 'proved': continue
                    out = R(0)
                    for j in list(range(i)): out = add(out, subst(body, {q: add(lo, num(j, 'I'))}))
                    for j in range(n - i): out = add(out, subst(body, {q: sub(hi, num(j + 1, 'I'))}))
                    for x in sorted((a, b), reverse=True): left.pop(x)
                    return out
        return None

    def zero_opaque(self, ctx, d):
        # replace sums by atoms, with provably equal sums identified
        atoms = []
        m = {}
        for t in subterms(d):
            if t.op == 'sum':
                for s, a in atoms:
                    k1, l1, h1, b1 = s.args
                    k2, l2, h2, b2 = t.args
                    q = fresh('k', 'I')
                    if ctx.entails(and_(eq(l1, l2), eq(h1, h2))):
                        r = self.zero(ctx.child(le(l1, q), lt(q, h1)), sub(subst(b1, {k1: q}), subst(b2, {k2: q})))
                        if r.status == 'proved':
                            m[t] = a
                            break
                else:
                    a = fresh('sumatom')
                    atoms.append((t, a))
                    m[t] = a
        r = self.zero(ctx, subst(d, m))
        if r.status != 'proved' and any(contains(h, lambda x: x.op == 'sum') for h in ctx.hyps) and ctx.check(not_(eq(d, R(0)))) == 'unsat':
            return Res('proved', 'z3')
        return r

    # -- numeric refutation -----------------------------------------------------------------
    def numeric(self, hyps, goal, tries=300):
        if any(contains(h, lambda x: x.op in ('all', 'ex')) for h in hyps):
            hyps = [h for h in hyps if not contains(h, lambda x: x.op in ('all', 'ex'))]
            weak = True
        vs = set()
        for t in list(hyps) + [goal]:
            vs |= fv(t)
        if any(v.sort not in ('R', 'I', 'B') for v in vs): return None
        rng = self.rng
        good = 0
        for n in range(tries):
            self._tick()
            env = {}
            for v in sorted(vs, key=lambda v: v.id):
                if v.sort == 'R': env[v] = rng.choice([rng.uniform(0.1, 3), rng.uniform(-5, 5), rng.uniform(0, 1e3), rng.uniform(0, 1), rng.uniform(1e3, 1e6)])
                elif v.sort == 'I': env[v] = rng.randint(0, 6)
                else: env[v] = rng.random() < .5
            tab = {}

            def ufi(name, args, sort):
                key = (name, tuple(args))
                if key not in tab:
                    tab[key] = rng.uniform(0.1, 3) if sort == 'R' else (rng.randint(0, 8) if sort == 'I' else rng.random() < .5)
                    if sort not in ('R', 'I', 'B'): raise NoValue(sort)
                return tab[key]
            try:
                memo = {}
                if not all(evaluate(h, env, ufi, memo) for h in hyps): continue
                good += 1
                if goal.op == 'eq' and goal.args[0].sort == 'R':
                    x, y = evaluate(goal.args[0], env, ufi, memo), evaluate(goal.args[1], env, ufi, memo)
                    if abs(x - y) > 1e-6 * (1 + max_mag(goal, memo)):
                        return {v.data: env[v] for v in env} | {'lhs': x, 'rhs': y}
                elif not evaluate(goal, env, ufi, memo):
                    return {v.data: env[v] for v in env}
            except (NoValue, OverflowError):
                continue
        return None


def max_mag(goal, memo):
    m = 0.0
    for t in subterms(goal):
        if t.sort == 'R' and t.id in memo and t.op in ('add', 'mul', 'div'):
            try: m = max(m, abs(memo[t.id]))
            except Exception: pass
    return m


def expand_over_sums(d):
    """distribute products over additions when a sum is inside"""
    if d.op == 'add': return add(*[expand_over_sums(a) for a in d.args])
    if d.op == 'mul' and contains(d, lambda x: x.op == 'sum'):
        for i, a in enumerate(d.args):
            if a.op == 'add' and contains(a, lambda x: x.op == 'sum'):
                others = d.args[:i] + d.args[i + 1:]
                return add(*[expand_over_sums(mul(x, *others)) for x in a.args])
    if d.op == 'div' and contains(d.args[0], lambda x: x.op == 'sum'):
        n = expand_over_sums(d.args[0])
        inv = div(R(1), d.args[1])
        if n.op == 'add': return add(*[expand_over_sums(mul(x, inv)) for x in n.args])
        return mul(n, inv)
    return d


def pull_sum(k):
    if k.op == 'sum': return k, R(1)
    if k.op == 'mul':
        ss = [a for a in k.args if a.op == 'sum']
        if len(ss) == 1:
            o = [a for a in k.args if a is not ss[0]]
            f = mul(*o)
            if not contains(f, lambda x: x.op == 'sum'): return ss[0], f
    return None, None


def ite_terms(body):
    """body as list of (cond, value) whose sum is the body"""
    if body.op == 'add':
        out = []
        for a in body.args: out += ite_terms(a)
        return out
    if body.op == 'mul':
        its = [a for a in body.args if a.op in ('ite', 'add') and contains(a, lambda y: y.op == 'ite')]
        if its:
            o = list(body.args)
            o.remove(its[0])
            out = []
            for c, v in ite_terms(its[0]):
                for c2, v2 in ite_terms(mul(v, *o)):
                    out.append((and_(c, c2), v2))
            return out
        return [(TRUE, body)]
    if body.op == 'div' and contains(body.args[0], lambda y: y.op == 'ite'):
        return [(c, div(v, body.args[1])) for c, v in ite_terms(body.args[0])]
    if body.op == 'ite':
        c, a, b = body.args
        out = []
        for c2, v in ite_terms(a): out.append((and_(c, c2), v))
        for c2, v in ite_terms(b): out.append((and_(not_(c), c2), v))
        return [(c, v) for c, v in out if not (v.op == 'num' and v.data == 0) and c is not FALSE]
    return [(TRUE, body)]


def affine_in(t, k):
    """t = a + b*k with b constant and a free of k, or None"""
    l = linear(t)
    b = Fraction(0)
    rest = {}
    for x, c in l.items():
        if x is k: b = c
        elif x is not None and x.op == 'toreal' and x.args[0] is k: b = c
        else:
            if x is not None and k in fv(x): return None
            rest[x] = c
    return from_linear(rest, t.sort), b


def solve_for(cond, k):
    """candidates k0 such that cond implies k == k0; list of terms, or 'none' if impossible"""
    for c in (cond.args if cond.op == 'and' else (cond,)):
        if c.op == 'eq' and c.args[0].sort == 'I' and k in fv(c):
            r = affine_in(sub(c.args[0], c.args[1]), k)
            if r is None:
                # UF match: f(..k..) == f(..m..)
                continue
            a, b = r
            if b == 0: continue
            l = {x: -v / b for x, v in linear(a).items()}
            if all(v.denominator == 1 for v in l.values()):
                return from_linear(l, 'I')
            if all(v.denominator == 1 for x, v in l.items() if x is not None):
                return 'none'
    return None


def uf_match(cond, k, ctx):
    """cond contains f(k)==f(m)-like equality with f injective by hypothesis: candidates by matching"""
    for c in (cond.args if cond.op == 'and' else (cond,)):
        if c.op == 'eq' and k in fv(c):
            for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if k in fv(x) and k not in fv(y):
                    # candidate m: match x against y (or y's subterms) with k as the hole
                    for cand in match_hole(sub(x, y) if x.sort == 'I' else None, x, y, k):
                        if ctx.entails(implies(cond, eq(k, cand))): return cand
    return None


def match_hole(d, x, y, k):
    out = []
    xs = [s for s in subterms(x) if s.op == 'uf' and k in fv(s)]
    ys = [s for s in subterms(y) if s.op == 'uf']
    for s in xs:
        for u in ys:
            if s.data == u.data and len(s.args) == len(u.args):
                for p, q in zip(s.args, u.args):
                    if k in fv(p):
                        r = affine_in(sub(p, q), k) if p.sort == 'I' else None
                        if r and r[1] != 0:
                            l = {a: -v / r[1] for a, v in linear(r[0]).items()}
                            if all(v.denominator == 1 for v in l.values()): out.append(from_linear(l, 'I'))
    return out


def block_match(cond, k, ctx):
    """S*(k + e) <= x < S*(k + e) + S with x = S*q + r and 0 <= r < S: k + e == q (division with remainder is unique)"""
    cs = cond.args if cond.op == 'and' else (cond,)
    lows, ups = [], []
    for c in cs:
        if c.op not in ('le', 'lt') or c.args[0].sort != 'I' or k not in fv(c): continue
        d = linear(sub(c.args[1], c.args[0]))
        ks = [t for t in d if t is not None and k in fv(t)]
        if len(ks) != 1 or ks[0].op != 'mul': continue
        f = list(ks[0].args)
        g = [a for a in f if k in fv(a)]
        if len(g) != 1: continue
        gl = linear(g[0])
        if gl.get(k) != 1 or any(k in fv(a) for a in gl if a not in (None, k)): continue
        e = sub(g[0], k)
        f.remove(g[0])
        S = mul(*f) if len(f) > 1 else f[0]
        if k in fv(S) or abs(d[ks[0]]) != 1: continue
        rest = {t: v for t, v in d.items() if t is not ks[0]}
        if d[ks[0]] == -1 and c.op == 'le': lows.append((S, e, from_linear(rest, 'I')))          # x - S k >= 0
        if d[ks[0]] == 1 and c.op == 'lt': ups.append((S, e, sub(S, from_linear(rest, 'I'))))     # S k + S - x > 0
    for S, e, x in lows:
        if not any(S is S2 and e is e2 and sub(x, x2) is num(0, 'I') for S2, e2, x2 in ups): continue
        for t, v in linear(x).items():
            if t is None or t.op != 'mul' or v.denominator != 1: continue
            f, ok = list(t.args), True
            for s in (S.args if S.op == 'mul' else (S,)):
                if s in f: f.remove(s)
                else: ok = False
            if not ok or not f: continue
            q = mul(num(v.numerator, 'I'), *f)
            r = sub(x, mul(S, q))
            if ctx.entails(and_(le(num(0, 'I'), r), lt(r, S))): return sub(q, e)
    return None


def collapse(ctx, q, lo, hi, body):
    tot = R(0)
    for c, v in ite_terms(body):
        if not ctx.sat(c): continue
        k0 = solve_for(c, q)
        if k0 is None: k0 = uf_match(c, q, ctx)
        if isinstance(k0, str): continue
        if k0 is None:
            # keep as a sum
            tot = add(tot, sum_(q, lo, hi, ite(c, v, R(0))))
            return None
        m = {q: k0}
        tot = add(tot, ite(and_(le(lo, k0), lt(k0, hi), subst(c, m)), subst(v, m), R(0)))
    return tot


# ---- cvc5 ---------------------------------------------------------------------------------
def run_cvc5(hyps, goal, timeout):
    try:
        tr = Tr()
        s = z3.Solver()
        _bound_mark(list(hyps) + [goal])
        zs = [tr.tr(h) for h in hyps] + [tr.tr(not_(goal))]
        for z in tr.side: s.add(z)
        for z in zs: s.add(z)
        txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
            return o.stdout.strip().split('\n')[-1]
        finally:
            os.unlink(f.name)
    except Exception as e:
        return 'error ' + str(e)[:100]
