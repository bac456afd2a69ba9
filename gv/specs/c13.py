"""C13: objective, gradient and constraint Jacobian are one consistent model."""
from ..session import *
from ..units import opt, model
from ..interp import ThrowEx
from ..loops import Inv, Names
from .common import *
from . import c12
from .c12 import NS, NU, NG, nt, nu, ng, T_, U_, G_, X_, SIM, St, Ct, W, vec, ivec, last, same_vec
from .c10 import sorted_, eps, member
from .. import cxx

CLS = 'ImplicitOptimizer'
# partial derivatives of the problem's functions (what C09 proves the problem hands over)
DNEW = lambda a, b, i, j: uf('dE_dnew', (a, b, i, j), 'R')
DLAST = lambda a, b, i, j: uf('dE_dlast', (a, b, i, j), 'R')
DCTL = lambda a, b, i, j: uf('dE_dcontrol', (a, b, i, j), 'R')
CX, CU = (lambda t, j: uf('dcost_dstate', (t, j), 'R')), (lambda t, j: uf('dcost_dcontrol', (t, j), 'R'))
PX, PU = (lambda t, j: uf('dpenalty_dstate', (t, j), 'R')), (lambda t, j: uf('dpenalty_dcontrol', (t, j), 'R'))
GX, GU = (lambda t, i, j: uf('dconstraint_dstate', (t, i, j), 'R')), (lambda t, i, j: uf('dconstraint_dcontrol', (t, i, j), 'R'))
MATS = {'dE_dnew_transposed': (NS, NS), 'dE_dlast_transposed': (NS, NS), 'dE_dcontrol': (NS, NU), 'dg_dnew_transposed': (NS, NG), 'dg_dcontrol': (NG, NU),
        'df_dnew_transposed': (NS, I_(1)), 'df_dcontrol': (I_(1), NU)}
x, y = var('x', 'I'), var('y', 'I')
in_ = lambda i, n: and_(le(I_(0), i), lt(i, n))
neg = lambda t: sub(R(0), t)


def sparse(n, nr, nc): return Mat2(nr, nc, Fn(lambda i, j: uf('old_' + n, (i, j), 'R'), 2), 'sparse')


def optimizer(it, initialised=True):
    ob, cache, nnz = c12.optimizer(it)
    f = dict(ob.f)
    for n, (r, c) in MATS.items():
        f[n] = sparse(n, r, c) if initialised else Mat2(0, 0, lambda i, j: R(0), 'sparse-c')
    f['solver'] = Struct('SparseLU', {'A': sparse('factorised', NS, NS), 'ok': var('factorised_before', 'B'), 'analyzed': var('analyzed', 'B')})
    f['derivative_matrices_initialized'] = boolc(initialised)
    f['states_up_to_date'] = TRUE
    f['derivatives_up_to_date'] = var('derivatives_up_to_date', 'B')
    f['index_lambda_pairs'] = vec(nt, lambda k: Tup([UP(k), LAM(k)]))
    return Struct(CLS, f), cache, nnz


UP = lambda k: uf('upper_index', (k,), 'I')
LAM = lambda k: uf('lambda', (k,), 'R')


def deliver(I, h, D, shape):
    """the problem hands every entry of the derivative D to the handler (contract of the problem, C09, and of the handlers, C14)"""
    hv = I.read(h)
    T = hv.cls.endswith('<1>')
    at = (lambda r, c: D(c, r)) if T else D
    m = hv.f['matrix']
    lv = m.lv if isinstance(m, View) else None
    M = I.read(lv)
    sh = shape[::-1] if T else shape
    I.oblige('the matrix has the shape of the derivative', and_(eq(M.nr, sh[0]), eq(M.nc, sh[1])), '', 'pre')
    if hv.cls.startswith('Coeffref'):
        I.write(lv, Mat2(M.nr, M.nc, Fn(lambda r, c: add(M.at(r, c), at(r, c)), 2), 'sparse'))
    else:
        old = hv.f.get('pending') or Fn(lambda r, c: R(0), 2)
        I.write(h, hv.with_('pending', Fn(lambda r, c: add(old.get(r, c), at(r, c)), 2)))


def set_matrix(I, base, a, n):
    hv = I.read(base)
    lv = hv.f['matrix'].lv
    M = I.read(lv)
    I.write(lv, Mat2(M.nr, M.nc, hv.f.get('pending') or Fn(lambda r, c: R(0), 2), 'sparse-c'))


def contracts(it):
    def state_is(I, t, s): same_vec(I, 'states of that time', s, NS, lambda k: St(t, k))

    def ctl_is(I, t, u): same_vec(I, 'controls of that time', u, NU, lambda k: Ct(t, k))

    def eqn(D, shape):
        def h(I, base, a, nd):
            t0, t1, s0, s1, u = [I.rv(v) for v in a[1:]]
            state_is(I, t0, s0)
            state_is(I, t1, s1)
            ctl_is(I, t1, u)
            deliver(I, a[0], lambda i, j: D(t0, t1, i, j), shape)
        return h

    def run(D, shape):
        def h(I, base, a, nd):
            t, s, u = [I.rv(v) for v in a[1:]]
            state_is(I, t, s)
            ctl_is(I, t, u)
            deliver(I, a[0], (lambda i, j: D(t, j)) if shape[0] is I_(1) else (lambda i, j: D(t, i, j)), shape)
        return h
    one = I_(1)
    P = 'OptimizableObject::'
    for n, f in (('d_evaluate_d_new_state', eqn(DNEW, (NS, NS))), ('d_evaluate_d_last_state', eqn(DLAST, (NS, NS))), ('d_evaluate_d_control', eqn(DCTL, (NS, NU))),
                 ('d_evaluate_cost_d_state', run(CX, (one, NS))), ('d_evaluate_cost_d_control', run(CU, (one, NU))),
                 ('d_evaluate_penalty_d_state', run(PX, (one, NS))), ('d_evaluate_penalty_d_control', run(PU, (one, NU))),
                 ('d_evaluate_constraint_d_state', run(GX, (NG, NS))), ('d_evaluate_constraint_d_control', run(GU, (NG, NU)))):
        for q in it.prog.funcs:
            if q.endswith('::' + n): it.contracts[q] = f
        it.contracts[P + n] = f
    for T in (0, 1): it.contracts['Triplethandler<%d>::set_matrix' % T] = set_matrix
    E = eps(it)
    c12.contracts(it, None, E)
    it.contracts.pop(CLS + '::compute_derivatives')
    return E


class Only:
    """only some of the groups (for another property that needs them)"""
    def __init__(s, S, names): s.S, s.names = S, names

    def group(s, name, fn):
        if name in s.names: s.S.group(name, fn)


def run(S):
    prog = opt()
    k = var('k', 'I')

    # ---- quadrature: the coefficients are those of the trapezoidal rule
    def weights(G):
        it = G.interp(prog)
        eps(it)
        fd = prog.find('make_objective_function_coefficients')
        t = vec(nt, T_)
        want = lambda i: div(add(ite(lt(i, last(nt)), sub(T_(add(i, I_(1))), T_(i)), R(0)), ite(lt(I_(0), i), sub(T_(i), T_(sub(i, I_(1)))), R(0))), R(2))
        for q in G.call(it, fd, None, [t], [le(I_(2), nt)]):
            if q.kind != 'ok':
                G.prove('does not fail', q.pc, FALSE)
                continue
            w = q.value[0]
            G.prove('half the length of the adjacent time intervals', q.pc + [le(I_(0), k), lt(k, nt)], and_(eq(w.n, nt), eq(w.at(k), want(k))))
        G.collect(it)
    S.group('make_objective_function_coefficients', weights)

    def trapezoid(G):
        """lemma: these weights give the trapezoidal rule (induction over the number of time steps)"""
        f = lambda i: uf('running', (i,), 'R')
        n = var('n', 'I')
        j, j2 = fresh('j', 'I'), fresh('j', 'I')
        left, right = lambda i: div(sub(T_(i), T_(sub(i, I_(1)))), R(2)), lambda i: div(sub(T_(add(i, I_(1))), T_(i)), R(2))
        # sum over all points of a grid with n steps of weight times value, the weights being those proved above
        tot = lambda n: add(sum_(j, I_(0), n, mul(right(j), f(j))), sum_(j2, I_(1), add(n, I_(1)), mul(left(j2), f(j2))))
        step = div(mul(sub(T_(add(n, I_(1))), T_(n)), add(f(n), f(add(n, I_(1))))), R(2))
        G.prove('no steps: zero', [], eq(tot(I_(0)), R(0)))
        G.prove('one more step adds its mean value times its length', [le(I_(0), n)], eq(tot(add(n, I_(1))), add(tot(n), step)))
    S.group('trapezoidal rule (lemma)', trapezoid)

    # ---- the derivative matrices of one time step
    def setup(G, initialised=True):
        it = G.interp(prog)
        ob, cache, nnz = optimizer(it, initialised)
        E = contracts(it)
        ctl = Struct('ConstMappedInterpolatingVector', {'interpolation_points': vec(nu, U_), 'inner_length': NU, 'mapped_values': vec(mul(NU, nu), X_)})
        sts = ivec('InterpolatingVector', T_, nt, NS, SIM)
        pre = c12.invariant(nnz) + [le(T_(last(nt)), add(U_(last(nu)), E)), le(R(0), E), le(I_(1), NS)]
        return it, ob, ctl, sts, pre

    def entries(G, it, q, ob, want, what):
        for n, f in want.items():
            M = ob.f[n]
            r, c = MATS[n]
            G.prove('%s: %s has its shape' % (what, n), q.pc, and_(eq(M.nr, r), eq(M.nc, c)))
            if f is not None: G.prove('%s: every entry of %s is that derivative' % (what, n), q.pc + [le(I_(0), x), lt(x, r), le(I_(0), y), lt(y, c)], eq(M.at(x, y), f(x, y)))

    def update(G, name, want, s_of):
        it, ob, ctl, sts, pre = setup(G)
        s = var('s', 'I')
        pre = pre + [le(I_(1), s), lt(s, nt)]
        for q in G.call(it, method(prog, CLS, name), ob, [s, ctl, sts], pre):
            if q.kind != 'ok':
                G.prove('does not fail', q.pc, FALSE)
                continue
            it.state = q.state
            o = it.rv(q.value[1])
            w = want(T_(sub(s, I_(1))), T_(s))
            entries(G, it, q, o, w, name)
            for n in MATS:
                if n not in w: G.prove('%s leaves %s alone' % (name, n), q.pc, eq(o.f[n].at(x, y), ob.f[n].at(x, y)))
            if name.startswith('update_equation'):
                A = o.f['solver'].f['A']
                r = q.value[0]
                G.prove('success means: the solver factorised the transposed derivative with respect to the new state', q.pc + [r], and_(o.f['solver'].f['ok'], eq(A.at(x, y), DNEW(T_(sub(s, I_(1))), T_(s), y, x))))
                G.prove('a failing factorisation is reported', q.pc + [not_(o.f['solver'].f['ok'])], not_(r))
        G.collect(it)
    S.group('update_equation_derivative_matrices', lambda G: update(G, 'update_equation_derivative_matrices', lambda a, b: {
        'dE_dnew_transposed': lambda i, j: DNEW(a, b, j, i), 'dE_dlast_transposed': lambda i, j: DLAST(a, b, j, i), 'dE_dcontrol': lambda i, j: DCTL(a, b, i, j)}, None))
    S.group('update_cost_derivative_matrices', lambda G: update(G, 'update_cost_derivative_matrices', lambda a, b: {
        'df_dnew_transposed': lambda i, j: add(CX(b, i), PX(b, i)), 'df_dcontrol': lambda i, j: add(CU(b, j), PU(b, j))}, None))
    S.group('update_constraint_derivative_matrices', lambda G: update(G, 'update_constraint_derivative_matrices', lambda a, b: {
        'dg_dnew_transposed': lambda i, j: GX(b, j, i), 'dg_dcontrol': lambda i, j: GU(b, i, j)}, None))

    def initialise(G):
        it, ob, ctl, sts, pre = setup(G, False)
        for q in G.call(it, method(prog, CLS, 'initialize_derivative_matrices'), ob, [ctl, sts], pre):
            if q.kind != 'ok':
                G.prove('does not fail', q.pc, FALSE)
                continue
            it.state = q.state
            o = it.rv(q.value[1])
            entries(G, it, q, o, {n: None for n in MATS}, 'initialize_derivative_matrices')
            G.prove('marks the matrices as initialised and the solver as prepared', q.pc, and_(o.f['derivative_matrices_initialized'], o.f['solver'].f['analyzed']))
        G.collect(it)
    S.group('initialize_derivative_matrices', initialise)

    # ---- the adjoint recursion
    XI = lambda k, i: uf('adjoint', (k, i), 'R')                       # solution of the adjoint equation of time step k
    RHS = lambda k, i: uf('adjoint_rhs', (k, i), 'R')
    XG = lambda k, i, c: uf('constraint_adjoint', (k, i, c), 'R')      # one for every row c of the constraints
    RG = lambda k, i, c: uf('constraint_adjoint_rhs', (k, i, c), 'R')
    GF = lambda k, q: uf('gradient_after', (k, q), 'R')                # contributions of the time steps after k
    a_, b_ = (lambda k: T_(sub(k, I_(1)))), T_

    def D(k, y_):
        """derivative of everything from time step k on with respect to the control at that time"""
        i = fresh('i', 'I')
        return add(sum_(i, I_(0), NS, mul(XI(k, i), DCTL(a_(k), b_(k), i, y_))), mul(W(k), add(CU(b_(k), y_), PU(b_(k), y_))))

    def back(k, i):
        j = fresh('j', 'I')
        return neg(sum_(j, I_(0), NS, mul(DLAST(a_(k), b_(k), j, i), XI(k, j))))

    def inblock(q, j): return and_(le(mul(NU, j), q), lt(q, add(mul(NU, j), NU)))

    def share(k, q):
        """what time step k adds to entry q of the gradient"""
        u, l = UP(k), LAM(k)
        up1 = sub(u, I_(1))
        return add(ite(inblock(q, u), mul(l, D(k, sub(q, mul(NU, u)))), R(0)), ite(and_(not_(eq(l, R(1))), inblock(q, up1)), mul(sub(R(1), l), D(k, sub(q, mul(NU, up1)))), R(0)))

    # constraints: the rows of the Jacobian from CI(k) on are those of constraint times after state time k
    TOT = mul(NG, ng)
    CI = lambda k: uf('constraints_up_to', (k,), 'I')                  # number of constraint times not after state time k
    RS = lambda j: uf('first_row', (j,), 'I')                          # first constraint present in column block j (C11)
    JC = lambda k, c, q: uf('jacobian_after', (k, c, q), 'R')          # contributions of the time steps after k

    def is_new(k): return and_(lt(I_(0), CI(k)), eq(G_(sub(CI(k), I_(1))), T_(k)))

    def P_(k): return sub(CI(k), ite(is_new(k), I_(1), I_(0)))         # first constraint not before state time k

    def in_new(k, c): return and_(is_new(k), le(mul(NG, P_(k)), c), lt(c, add(mul(NG, P_(k)), NG)))

    def DG_(k, c, y_):
        """derivative of constraint row c from time step k on with respect to the control at that time"""
        i = fresh('i', 'I')
        return add(sum_(i, I_(0), NS, mul(XG(k, i, c), DCTL(a_(k), b_(k), i, y_))), ite(in_new(k, c), GU(b_(k), sub(c, mul(NG, P_(k))), y_), R(0)))

    def rhs_new(k, i, c): return sub(ite(le(mul(NG, CI(k)), c), RG(k, i, c), R(0)), ite(in_new(k, c), GX(b_(k), sub(c, mul(NG, P_(k))), i), R(0)))

    def back_g(k, i, c):
        j = fresh('j', 'I')
        return ite(le(mul(NG, P_(k)), c), neg(sum_(j, I_(0), NS, mul(DLAST(a_(k), b_(k), j, i), XG(k, j, c)))), R(0))

    def share_g(k, c, q):
        """what time step k adds to entry (c, q) of the Jacobian"""
        u, l = UP(k), LAM(k)
        up1 = sub(u, I_(1))
        return ite(le(mul(NG, P_(k)), c),
                   add(ite(inblock(q, u), mul(l, DG_(k, c, sub(q, mul(NU, u)))), R(0)), ite(and_(not_(eq(l, R(1))), inblock(q, up1)), mul(sub(R(1), l), DG_(k, c, sub(q, mul(NU, up1)))), R(0))), R(0))

    def grids():
        """what CI and RS are, that every constraint time is a state time (checked by the constructor, C10), the interpolation of the controls (C10)"""
        k, c, j = fresh('k', 'I'), fresh('c', 'I'), fresh('j', 'I')
        at = lambda c: uf('state_of_constraint', (c,), 'I')
        i2, j2 = fresh('i', 'I'), fresh('j', 'I')
        grow = lambda f, n: forall((i2, j2), implies(and_(le(I_(0), i2), lt(i2, j2), lt(j2, n)), lt(f(i2), f(j2))))
        return [forall(k, implies(in_(k, nt), and_(le(I_(0), CI(k)), le(CI(k), ng)))),
                forall((k, c), implies(and_(in_(k, nt), in_(c, ng)), eq(lt(c, CI(k)), le(G_(c), T_(k))))),
                forall(j, implies(in_(j, nu), and_(le(I_(0), RS(j)), le(RS(j), ng)))),
                forall((j, c), implies(and_(in_(j, nu), in_(c, ng)), eq(lt(c, RS(j)), and_(lt(I_(0), j), le(G_(c), U_(sub(j, I_(1)))))))),
                forall(k, implies(in_(k, nt), and_(le(I_(0), UP(k)), lt(UP(k), nu), le(R(0), LAM(k)), le(LAM(k), R(1)), implies(eq(UP(k), I_(0)), eq(LAM(k), R(1))),
                                                   implies(lt(I_(0), UP(k)), lt(U_(sub(UP(k), I_(1))), T_(k)))))),
                forall(c, implies(in_(c, ng), and_(in_(at(c), nt), eq(T_(at(c)), G_(c))))), grow(T_, nt), grow(U_, nu), grow(G_, ng),
                forall(c, implies(in_(c, ng), lt(T_(I_(0)), G_(c)))), le(I_(2), nt), le(I_(1), nu), le(I_(0), ng)]

    def facts(k):
        """consequences of grids() for time step k"""
        u = UP(k)
        return [('numbers of constraints', implies(in_(k, nt), and_(le(I_(0), CI(k)), le(CI(k), ng)))),
                ('a time step meets at most one constraint time', implies(and_(lt(I_(0), k), lt(k, nt)), eq(CI(sub(k, I_(1))), P_(k)))),
                ('after the last time all constraint times are over', implies(eq(k, last(nt)), eq(CI(k), ng))),
                ('no constraint at the start', eq(CI(I_(0)), I_(0))),
                ('controls of the time step', implies(in_(k, nt), and_(in_(u, nu), le(R(0), LAM(k)), le(LAM(k), R(1)), implies(eq(u, I_(0)), eq(LAM(k), R(1)))))),
                ('the column of the upper control has all rows from there on', implies(and_(lt(I_(0), k), lt(k, nt)), and_(le(I_(0), RS(u)), le(RS(u), P_(k))))),
                ('the column of the lower control has all rows from there on', implies(and_(lt(I_(0), k), lt(k, nt), lt(I_(0), u)), and_(le(I_(0), RS(sub(u, I_(1)))), le(RS(sub(u, I_(1))), P_(k)))))]

    def grid_lemmas(G):
        k = var('k', 'I')
        last_one = [forall(k, implies(in_(k, ng), le(G_(k), T_(last(nt)))))]
        c, g = var('c', 'I'), grids()
        at = uf('state_of_constraint', (c,), 'I')
        step = [lt(I_(0), k), lt(k, nt)]
        G.prove('the state of an earlier constraint is an earlier state', step + g + [in_(c, ng), lt(G_(c), T_(k))], and_(in_(at, k), eq(T_(at), G_(c))))
        G.prove('a constraint before a time step is not after the preceding one', step + g + [in_(c, ng), in_(at, k), eq(T_(at), G_(c))], le(G_(c), T_(sub(k, I_(1)))))
        z = sub(P_(k), I_(1))
        G.prove('the constraint preceding those from this time on is earlier', step + g + [le(I_(0), z)], and_(in_(z, ng), lt(G_(z), T_(k))))
        G.prove('constraints from this time on: not fewer', step + g + [implies(le(I_(0), z), and_(in_(z, ng), le(G_(z), T_(sub(k, I_(1))))))], le(P_(k), CI(sub(k, I_(1)))))
        G.prove('constraints from this time on: not more', step + g, le(CI(sub(k, I_(1))), P_(k)))
        u, c0 = UP(k), P_(k)
        low = sub(u, I_(1))
        row = lambda j: and_(le(I_(0), RS(j)), le(RS(j), ng), implies(in_(c0, ng), eq(lt(c0, RS(j)), and_(lt(I_(0), j), le(G_(c0), U_(sub(j, I_(1))))))))
        inst = [le(I_(0), c0), le(c0, ng), in_(u, nu), implies(lt(c0, ng), le(T_(k), G_(c0))), implies(lt(I_(0), u), lt(U_(low), T_(k))), implies(lt(I_(0), low), lt(U_(sub(low, I_(1))), U_(low))), row(u), implies(lt(I_(0), u), row(low))]
        for f in inst: G.prove('instances for the rows of a column', step + g, f)
        for nm, f in facts(k):
            if nm.startswith('the column of'):
                G.prove(nm, inst, f)
                continue
            more = [implies(and_(*step), and_(le(P_(k), CI(sub(k, I_(1)))), le(CI(sub(k, I_(1))), P_(k))))] if nm.startswith('a time step meets') else []
            G.prove(nm, (more or g) + last_one, f)
        a, b = var('a', 'I'), var('b', 'I')
        G.prove('products of ordered factors', [le(I_(0), NG), le(a, b)], le(mul(NG, a), mul(NG, b)))
    S.group('time grids (lemmas)', grid_lemmas)

    def adjoint(G, some):
        it, ob, ctl, sts, pre = setup(G)
        q_, c_ = var('q', 'I'), var('c', 'I')
        ob = ob.with_('constraint_jacobian', ob.f['constraint_jacobian'].with_('dense', Mat2(TOT, mul(NU, nu), Fn(lambda i, j: uf('old_jacobian', (i, j), 'R'), 2))))
        JLV = lambda I: I.frames[-1]['this'].sub(('f', 'constraint_jacobian')).sub(('f', 'dense'))

        def upd(name, want):
            def h(I, base, a, nd):
                s, c, st = I.rv(a[0]), I.rv(a[1]), I.rv(a[2])
                I.oblige('%s: a time step' % name, and_(le(I_(1), s), lt(s, nt)), '', 'pre')
                o = I.read(base)
                for n, f in want(a_(s), b_(s)).items(): o = o.with_(n, Mat2(*MATS[n], Fn(f, 2), 'sparse'))
                if name.startswith('update_equation'):
                    ok = I.branch(fresh('factorised', 'B'))
                    o = o.with_('solver', Struct('SparseLU', {'A': o.f['dE_dnew_transposed'], 'ok': boolc(ok), 'analyzed': TRUE}))
                    I.write(base, o)
                    return boolc(ok)
                I.write(base, o)
            return h
        for n, w in (('update_equation_derivative_matrices', lambda a, b: {'dE_dnew_transposed': lambda i, j: DNEW(a, b, j, i), 'dE_dlast_transposed': lambda i, j: DLAST(a, b, j, i), 'dE_dcontrol': lambda i, j: DCTL(a, b, i, j)}),
                     ('update_cost_derivative_matrices', lambda a, b: {'df_dnew_transposed': lambda i, j: add(CX(b, i), PX(b, i)), 'df_dcontrol': lambda i, j: add(CU(b, j), PU(b, j))}),
                     ('update_constraint_derivative_matrices', lambda a, b: {'dg_dnew_transposed': lambda i, j: GX(b, j, i), 'dg_dcontrol': lambda i, j: GU(b, i, j)})):
            it.contracts[CLS + '::' + n] = upd(n, w)

        def solve(I, A, b):
            v = Names(I)
            s = v('state_index')
            m, n = fresh('m', 'I'), fresh('n', 'I')
            I.oblige('the factorised matrix is the transposed derivative of this time step', implies(and_(in_(m, NS), in_(n, NS)), eq(A.at(m, n), DNEW(a_(s), b_(s), n, m))), '', 'inv')
            if isinstance(b, Vec):
                I.oblige('right-hand side of the adjoint equation', implies(in_(m, NS), eq(b.at(m), sub(RHS(s, m), mul(W(s), add(CX(b_(s), m), PX(b_(s), m)))))), '', 'inv')
                return Vec(NS, Fn(lambda i: XI(s, i)))
            z = mul(NG, P_(s))
            I.oblige('the adjoint equations are those of the constraints from this time on', and_(eq(b.nc, sub(TOT, z)), eq(b.nr, NS)), '', 'inv')
            I.oblige('right-hand sides of the adjoint equations of the constraints', implies(and_(in_(m, NS), in_(n, b.nc)), eq(b.at(m, n), rhs_new(s, m, add(z, n)))), '', 'inv')
            return Mat2(b.nr, b.nc, lambda i, j: XG(s, i, add(z, j)))
        it.lu_solve = solve

        def column(I, base, a, nd):
            j = I.rv(a[0])
            I.oblige('the column exists', in_(j, nu), '', 'pre')
            return base.sub(('f', 'dense')).sub(('blk', mul(NG, RS(j)), mul(NU, j), mul(NG, sub(ng, RS(j))), NU))
        it.contracts['ConstraintJacobian_Base::get_column_block'] = column

        def zero(I, base, a, nd): I.write(base.sub(('f', 'dense')), Mat2(TOT, mul(NU, nu), Fn(lambda i, j: R(0), 2)))
        it.contracts['ConstraintJacobian_Base::setZero'] = zero

        def inv(I, v):
            s, ci, rhs, rg, act = v('state_index'), v('constraint_index'), v('rhs_f'), v('full_rhs_g'), v('constraints_are_active_at_current_time')
            g = member(I, I.read(I.frames[-1]['this']).f['objective_gradient'], 'values')
            J = I.read(JLV(I))
            m, q, c = fresh('m', 'I'), fresh('q', 'I'), fresh('c', 'I')
            # the ghost functions at s: named at the head of the loop, unfolded once where the invariant is to be established
            nx, at_head, start = add(s, I_(1)), head.pop() if head else False, eq(s, last(nt)) is TRUE
            val = lambda name, step: name if at_head else R(0) if start else step
            ordered = [implies(g, le(mul(NG, x), mul(NG, y))) for g, x, y in ((TRUE, I_(0), CI(s)), (TRUE, CI(s), ng), (lt(I_(0), s), I_(0), P_(s)), (lt(I_(0), s), RS(UP(s)), P_(s)), (and_(lt(I_(0), s), lt(I_(0), UP(s))), RS(sub(UP(s), I_(1))), P_(s)),
                                                                              (lt(I_(0), s), I_(0), RS(UP(s))), (and_(lt(I_(0), s), lt(I_(0), UP(s))), I_(0), RS(sub(UP(s), I_(1)))))]
            fs = [('time step', and_(le(I_(0), s), lt(s, nt))),
                  ('right-hand side', and_(eq(rhs.n, NS), implies(in_(m, NS), eq(rhs.at(m), val(RHS(s, m), back(nx, m)))))),
                  ('gradient', and_(eq(g.n, mul(NU, nu)), implies(in_(q, mul(NU, nu)), eq(g.at(q), val(GF(s, q), add(GF(nx, q), share(nx, q)))))))]
            if some:
                fs += [('constraint index', eq(ci, CI(s))),
                       ('active', eq(act, lt(ci, ng))),
                       ('right-hand sides of the constraints', and_(eq(rg.nr, NS), eq(rg.nc, TOT), implies(and_(in_(m, NS), in_(c, TOT)), eq(rg.at(m, c), val(ite(lt(c, mul(NG, CI(s))), R(0), RG(s, m, c)), back_g(nx, m, c)))))),
                       ('Jacobian', implies(and_(in_(c, TOT), in_(q, mul(NU, nu))), eq(J.at(c, q), val(JC(s, c, q), add(JC(nx, c, q), share_g(nx, c, q)))))),
                       ('!', and_(*ordered))]
            fs += [('!', f) for _, f in facts(s)]
            return fs

        def bind(I, lv):
            s = Names(I)('state_index')
            I.write(lv('rhs_f'), Vec(NS, Fn(lambda i: RHS(s, i))))
            head[:] = [True]
            if some:
                I.write(lv('constraint_index'), CI(s))
                I.write(lv('full_rhs_g'), Mat2(NS, TOT, Fn(lambda i, c: ite(lt(c, mul(NG, CI(s))), R(0), RG(s, i, c)), 2)))
            this = I.frames[-1]['this']
            o = I.read(this)
            og = o.f['objective_gradient']
            o = o.with_('objective_gradient', og.with_('values', vec(mul(NU, nu), lambda q: GF(s, q))))
            I.write(this, o)
            if some: I.write(JLV(I), Mat2(TOT, mul(NU, nu), Fn(lambda c, q: JC(s, c, q), 2)))
        it.loop_contracts[CLS + '::compute_derivatives'] = [Inv(inv, lambda I, v: v('state_index'), bind)]
        head, n = [], 0
        for p in G.call(it, method(prog, CLS, 'compute_derivatives'), ob, [ctl, sts], pre + [lt(I_(0), NG) if some else eq(NG, I_(0)), eq(CI(last(nt)), ng)]):
            if p.kind != 'ok':
                G.prove('does not fail', p.pc, FALSE)
                continue
            n += 1
            it.state = p.state
            o = it.rv(p.value[1])
            r = p.value[0]
            g = member(it, o.f['objective_gradient'], 'values')
            J = o.f['constraint_jacobian'].f['dense']
            G.prove('success: the gradient holds the contributions of all time steps', p.pc + [r, in_(q_, mul(NU, nu))], eq(g.at(q_), GF(I_(0), q_)))
            if some: G.prove('success: the Jacobian holds the contributions of all time steps', p.pc + [r, in_(q_, mul(NU, nu)), in_(c_, TOT)], eq(J.at(c_, q_), JC(I_(0), c_, q_)))
            if some: G.prove('success: the constraints of all times have been met', p.pc + [r], eq(CI(I_(0)), I_(0)))
            G.prove('success marks the derivatives as up to date', p.pc, eq(o.f['derivatives_up_to_date'], or_(r, ob.f['derivatives_up_to_date'])))
        G.collect(it)
    def adjoint_lemma(G):
        """the gradient after all time steps is the derivative of the objective along every direction of the controls (induction over the time steps);
        dx is the change of the states that keeps the equations satisfied to first order when the controls change by du"""
        k = var('k', 'I')
        dx, du = lambda t, i: uf('state_direction', (t, i), 'R'), lambda q: uf('control_direction', (q,), 'R')
        n, m = var('n', 'I'), var('m', 'I')
        A, f, v = (lambda i, j: uf('A', (i, j), 'R')), (lambda i: uf('f', (i,), 'R')), (lambda i: uf('v', (i,), 'R'))

        def rows_first(A, f, v, m, n):
            i, j = fresh('i', 'I'), fresh('j', 'I')
            return sum_(j, I_(0), n, mul(sum_(i, I_(0), m, mul(f(i), A(i, j))), v(j)))

        def columns_first(A, f, v, m, n):
            i, j = fresh('i', 'I'), fresh('j', 'I')
            return sum_(i, I_(0), m, mul(f(i), sum_(j, I_(0), n, mul(A(i, j), v(j)))))
        i = fresh('i', 'I')
        inc, pos = mul(sum_(i, I_(0), m, mul(f(i), A(i, n))), v(n)), [le(I_(0), n), le(I_(0), m)]
        for nm, F in (('columns', rows_first), ('rows', columns_first)):
            G.prove('exchange of sums, induction start (%s)' % nm, pos, eq(F(A, f, v, m, I_(0)), R(0)))
            G.prove('exchange of sums, induction step (%s)' % nm, pos, eq(sub(F(A, f, v, m, add(n, I_(1))), F(A, f, v, m, n)), inc))
        nonneg = [le(I_(0), NS), le(I_(0), NU), le(I_(1), nu)]
        xi, old, new = (lambda i: XI(k, i)), (lambda i: dx(sub(k, I_(1)), i)), (lambda i: dx(k, i))
        u, l = UP(k), LAM(k)
        dc = lambda y: add(mul(l, du(add(mul(NU, u), y))), mul(sub(R(1), l), du(add(mul(NU, sub(u, I_(1))), y))))      # change of the interpolated control
        mats = [(lambda i, j: DNEW(a_(k), b_(k), i, j), new, NS), (lambda i, j: DLAST(a_(k), b_(k), i, j), old, NS), (lambda i, j: DCTL(a_(k), b_(k), i, j), dc, NU)]
        fx, fu = (lambda i: add(CX(b_(k), i), PX(b_(k), i))), (lambda y: add(CU(b_(k), y), PU(b_(k), y)))

        def total(n, f):
            i = fresh('i', 'I')
            return sum_(i, I_(0), n, f(i))
        lin = lambda i: add(*[total(n, lambda j, M=M, d=d: mul(M(i, j), d(j))) for M, d, n in mats])
        r = lambda i: uf('residual', (i,), 'R')
        i = fresh('i', 'I')
        G.prove('a sum of zeros', [forall(i, implies(in_(i, n), eq(r(i), R(0))))], eq(total(n, lambda i: mul(f(i), r(i))), R(0)))
        N, L, C = [var(c, 'R') for c in 'NLC']           # xi' dE/dnew dx(k), xi' dE/dlast dx(k-1), xi' dE/dcontrol dc
        G.prove('the equations stay satisfied: multiplied by the adjoint', nonneg, eq(add(*[columns_first(M, xi, d, NS, n) for M, d, n in mats]), total(NS, lambda i: mul(xi(i), lin(i)))))
        res = lambda j: sub(total(NS, lambda i: mul(DNEW(a_(k), b_(k), i, j), xi(i))), sub(RHS(k, j), mul(W(k), fx(j))))
        G.prove('adjoint equation: multiplied by the direction', nonneg, eq(rows_first(*mats[0][:1], xi, new, NS, NS), add(total(NS, lambda j: mul(new(j), res(j))), total(NS, lambda j: mul(RHS(k, j), new(j))), mul(R(-1), W(k), total(NS, lambda j: mul(fx(j), new(j)))))))
        G.prove('right-hand side of the preceding step: multiplied by the direction', nonneg, eq(total(NS, lambda i: mul(back(k, i), old(i))), mul(R(-1), rows_first(*mats[1][:1], xi, old, NS, NS))))
        G.prove('control derivative: multiplied by the direction', nonneg, eq(total(NU, lambda y: mul(D(k, y), dc(y))), add(rows_first(*mats[2][:1], xi, dc, NS, NU), mul(W(k), total(NU, lambda y: mul(fu(y), dc(y)))))))
        rng = [in_(u, nu), le(R(0), l), le(l, R(1)), implies(eq(u, I_(0)), eq(l, R(1)))] + [le(I_(0), mul(NU, u)), le(add(mul(NU, u), NU), mul(NU, nu)), implies(lt(I_(0), u), le(I_(0), mul(NU, sub(u, I_(1)))))]
        for f_ in rng[4:]: G.prove('blocks of the gradient', nonneg + rng[:4], f_)
        # a sum over a block of a longer range is the sum over the block (induction over the end n of the range)
        E, h, s_ = (lambda y: uf('E', (y,), 'R')), (lambda q: uf('h', (q,), 'R')), var('s', 'I')
        inside = lambda q: and_(le(s_, q), lt(q, add(s_, NU)))
        B, C_ = (lambda n: total(n, lambda q: ite(inside(q), h(q), R(0)))), (lambda c: total(c, lambda y: h(add(s_, y))))
        n1 = add(n, I_(1))
        blk = nonneg + [le(I_(0), s_), le(I_(0), n)]
        G.prove('sum over a block: before the block', blk + [le(n, s_)], eq(B(n), R(0)))
        G.prove('sum over a block: inside the block', blk + [inside(n)], eq(sub(B(n1), B(n)), h(n)))
        G.prove('sum over a block: terms of the block', blk + [inside(n)], eq(sub(C_(sub(n1, s_)), C_(sub(n, s_))), h(n)))
        G.prove('sum over a block: after the block', blk + [le(add(s_, NU), n)], eq(B(n1), B(n)))
        part = lambda j, w: lambda q: mul(ite(inblock(q, j), mul(w, D(k, sub(q, mul(NU, j)))), R(0)), du(q))
        q_ = var('q', 'I')
        lo = sub(u, I_(1))
        G.prove('contribution to the gradient: at a control time it goes to that control', rng + [eq(l, R(1))], eq(share(k, q_), ite(inblock(q_, u), D(k, sub(q_, mul(NU, u))), R(0))))
        G.prove('contribution to the gradient: else to the neighbouring controls', rng + [not_(eq(l, R(1)))], eq(mul(share(k, q_), du(q_)), add(part(u, l)(q_), part(lo, sub(R(1), l))(q_))))
        y_ = var('y', 'I')
        G.prove('change of the interpolated control', nonneg, eq(total(NU, lambda y: mul(E(y), dc(y))), add(total(NU, lambda y: mul(E(y), mul(l, du(add(mul(NU, u), y))))), total(NU, lambda y: mul(E(y), mul(sub(R(1), l), du(add(mul(NU, lo), y))))))))
        S_ = {c: var(c, 'R') for c in ('J_after', 'J_before', 'G_after', 'G_before', 'rhs_new', 'rhs_old', 'Wfx', 'Wfu', 'Ddc')}
        z = lambda c: S_[c]
        G.prove('induction step: gradient times direction is the change of the objective', [
            eq(add(N, L, C), R(0)), eq(N, sub(z('rhs_new'), z('Wfx'))), eq(z('rhs_old'), mul(R(-1), L)), eq(z('Ddc'), add(C, z('Wfu'))), eq(z('G_before'), add(z('G_after'), z('Ddc'))), eq(z('J_before'), add(z('J_after'), z('Wfx'), z('Wfu'))),
            eq(z('J_after'), sub(z('G_after'), z('rhs_new')))], eq(z('J_before'), sub(z('G_before'), z('rhs_old'))))
        G.prove('induction end: the initial states do not change', [eq(z('J_before'), sub(z('G_before'), z('rhs_old'))), eq(z('rhs_old'), R(0))], eq(z('J_before'), z('G_before')))
    S.group('adjoint method (lemma)', adjoint_lemma)

    S.group('compute_derivatives', lambda G: adjoint(G, False))
    S.group('compute_derivatives (with constraints)', lambda G: adjoint(G, True))

    # ---- the blocks of the constraint matrices
    def block(G, name, rows, full, part, first):
        it, ob, ctl, sts, pre = setup(G)
        F = Mat2(full[0], full[1], Fn(lambda i, j: uf('full', (i, j), 'R'), 2))
        ci = var('ci', 'I')
        for q in G.call(it, method(prog, CLS, name), ob, [F, ci], pre + [le(I_(0), ci), lt(ci, ng)]):
            if q.kind != 'ok':
                G.prove('does not fail', q.pc, FALSE)
                continue
            it.state = q.state
            B = it.rv(q.value[0])
            i0, j0 = (first(ci), I_(0)) if rows else (I_(0), first(ci))
            nr, nc = (part(ci), full[1]) if rows else (full[0], part(ci))
            G.prove('%s: the block of these constraints' % name, q.pc + [le(I_(0), x), lt(x, nr), le(I_(0), y), lt(y, nc)], and_(eq(B.nr, nr), eq(B.nc, nc), eq(B.at(x, y), uf('full', (add(i0, x), add(j0, y)), 'R'))))
        G.collect(it)
    S.group('right_cols', lambda G: block(G, 'right_cols', False, (NS, TOT), lambda c: sub(TOT, mul(NG, c)), lambda c: mul(NG, c)))
    S.group('middle_col_block', lambda G: block(G, 'middle_col_block', False, (NS, TOT), lambda c: NG, lambda c: mul(NG, c)))
    S.group('middle_row_block', lambda G: block(G, 'middle_row_block', True, (TOT, NU), lambda c: NG, lambda c: mul(NG, c)))
    S.group('lower_rows', lambda G: block(G, 'lower_rows', True, (TOT, NU), lambda c: sub(TOT, mul(NG, c)), lambda c: mul(NG, c)))


NATIVE = ('c13', ('model', 'opt'), 60, 3000)
