"""C01: a Newton solve reports success only for a genuine root."""
from ..session import *
from ..units import model
from ..interp import ThrowEx
from ..loops import Inv
from .common import *
from . import c13

CLS = 'Newtonsolver'
N = var('n', 'I')
TOL, MAX = var('tolerance', 'R'), var('maximal_iterations', 'I')
T0, T1 = var('last_time', 'R'), var('new_time', 'R')
# ghost: evaluation number c was done at the state XS(c, .) and gave the residual FS(c, .)
XS = lambda c, k: uf('evaluated_state', (c, k), 'R')
FS = lambda c, k: uf('residual', (c, k), 'R')
LAST, CTL, START = (lambda k: uf('last_state', (k,), 'R')), (lambda k: uf('control', (k,), 'R')), (lambda k: uf('start_state', (k,), 'R'))
NC = var('controls', 'I')


def vec(n, f): return Vec(n, Fn(f), 'vec')


def same_vec(I, name, v, n, f):
    k = fresh('k', 'I')
    I.oblige(name, and_(eq(v.n, n), implies(and_(le(I_(0), k), lt(k, n)), eq(v.at(k), f(k)))), '', 'pre')


def run(S):
    prog = model()
    k = var('k', 'I')

    def setup(G):
        it = G.interp(prog)
        it.nan_aware = True
        it.numbers = {TOL}

        def evaluate(I, base, a, nd):
            out, t0, t1, l, x, u = [I.rv(v) for v in a]
            I.oblige('evaluated for the given times', and_(eq(t0, T0), eq(t1, T1)), '', 'pre')
            same_vec(I, 'evaluated with the given last state', l, N, LAST)
            same_vec(I, 'evaluated with the given control', u, NC, CTL)
            I.oblige('sizes fit', and_(eq(out.n, N), eq(x.n, N)), '', 'pre')
            c = fresh('evaluation', 'I')
            I.write(a[0], vec(N, lambda k: FS(c, k)))
            I.state.ghost = dict(I.state.ghost, last_eval=(x, c))
        for q in list(prog.funcs) + ['Controlcomponent::evaluate']:
            if q.endswith('::evaluate'): it.contracts[q] = evaluate
        ob = Struct(CLS, {'tolerance': TOL, 'maximal_iterations': MAX, 'jacobian': Mat2(var('jr', 'I'), var('jc', 'I'), Fn(lambda i, j: uf('old_jacobian', (i, j), 'R'), 2), 'sparse'),
                          'lusolver': Struct('SparseLU', {'A': Mat2(0, 0, lambda i, j: R(0), 'sparse'), 'ok': var('factorised_before', 'B'), 'analyzed': var('analyzed', 'B')})})
        prob = Sym('Controlcomponent', var('problem', 'O'), True)
        return it, ob, prob

    def solve(G, full):
        it, ob, prob = setup(G)

        def derivative(I, base, a, nd):
            p, t0, t1, l, x, u = [I.rv(v) for v in a]
            I.oblige('derivative for the given times', and_(eq(t0, T0), eq(t1, T1)), '', 'pre')
            same_vec(I, 'derivative with the given last state', l, N, LAST)
            same_vec(I, 'derivative with the given control', u, NC, CTL)
            o = I.read(base)
            nm = fresh('jac', 'R').data
            I.write(base, o.with_('jacobian', Mat2(N, N, Fn(lambda i, j: uf(nm, (i, j), 'R'), 2), 'sparse')))
        it.contracts[CLS + '::evaluate_state_derivative_triplets'] = derivative
        it.contracts[CLS + '::evaluate_state_derivative_coeffref'] = derivative
        last_eval = lambda I: I.state.ghost.get('last_eval')

        def bound(state, values):
            def bind(I, lv):
                c = fresh('evaluation', 'I')
                x = vec(N, lambda k: XS(c, k))
                I.write(lv(state), x)
                I.write(lv(values), vec(N, lambda k: FS(c, k)))
                I.state.ghost = dict(I.state.ghost, last_eval=(x, c))
            return bind

        def belongs(I, what, x, f):
            e = last_eval(I)
            if e is None: return [(what, FALSE)]
            k = fresh('k', 'I')
            d = and_(le(I_(0), k), lt(k, N))
            return [(what, and_(eq(x.n, N), eq(f.n, N), implies(d, and_(eq(x.at(k), e[0].at(k)), eq(f.at(k), FS(e[1], k))))))]

        def outer(I, v):
            s = v('solstruct')
            x, f = v('new_state'), v('rootvalues')
            r = belongs(I, 'residual belongs to the current state', x, f) + [
                ('iterations within the limit', and_(le(I_(0), s.f['used_iterations']), or_(le(s.f['used_iterations'], MAX), eq(s.f['used_iterations'], I_(0)))))]
            e = last_eval(I)
            if e is not None: r.append(('reported residual norm is that of the current state once a step was taken', or_(eq(s.f['used_iterations'], I_(0)), eq(s.f['residual'], it.lib.m_norm(None, vec(N, lambda k: FS(e[1], k)), (), None)))))
            return r

        def inner(I, v): return belongs(I, 'candidate values belong to the candidate', v('candidate_vector'), v('candidate_values'))
        it.loop_contracts[CLS + '::solve'] = [Inv(outer, lambda I, v: add(sub(MAX, v('solstruct').f['used_iterations']), I_(1)), bind=bound('new_state', 'rootvalues')),
                                              Inv(inner, bind=bound('candidate_vector', 'candidate_values'))]
        x0, l, u = vec(N, START), vec(N, LAST), vec(NC, CTL)
        fd = method(prog, CLS, 'solve')
        oks = 0
        for q in G.call(it, fd, ob, [x0, prob, var('newjac', 'B'), boolc(full), T0, T1, l, u], [le(I_(0), N), le(I_(0), NC), le(I_(0), MAX)]):
            if q.kind != 'ok':
                G.prove('a solve that fails throws a numerical problem', q.pc, boolc('SolverNumericalProblem' in str(q.value)))
                continue
            oks += 1
            it.state = q.state
            r = q.value[0]
            x, l1, u1 = [it.rv(q.value[2][i]) for i in (0, 6, 7)]
            e = last_eval(it)
            if e is None:
                G.prove('success only after an evaluation', q.pc, not_(r.f['success']))
                continue
            norm = it.lib.m_norm(None, vec(N, lambda k: FS(e[1], k)), (), None)
            ok = r.f['success']
            G.prove('success: the residual at the returned state is a number within tolerance', q.pc + [ok], and_(not_(it.isnan(norm)), le(norm, TOL)))
            G.prove('and it is the residual of exactly the returned state', q.pc + [le(I_(0), k), lt(k, N)], and_(eq(x.n, N), eq(x.at(k), e[0].at(k))))
            G.prove('a residual within tolerance is reported as success', q.pc + [not_(it.isnan(norm)), le(norm, TOL)], ok)
            G.prove('iterations within the limit', q.pc, and_(le(I_(0), r.f['used_iterations']), le(r.f['used_iterations'], MAX)))
            G.prove('reported residual is that of the returned state once a step was taken', q.pc, or_(eq(r.f['used_iterations'], I_(0)), eq(r.f['residual'], norm)))
            G.prove('the other inputs are unchanged', q.pc + [le(I_(0), k)], and_(eq(l1.n, N), eq(u1.n, NC), eq(l1.at(k), LAST(k)), eq(u1.at(k), CTL(k))))
        if not oks: raise ExtractError('solve never returns')
        G.collect(it)
    S.group('solve (simplified Newton)', lambda G: solve(G, False))
    S.group('solve (full Jacobian)', lambda G: solve(G, True))

    # ---- the Jacobian the solver works with
    def jac(G, name):
        it, ob, prob = setup(G)
        D = lambda i, j: uf('dE_dnew_state', (i, j), 'R')
        x = vec(N, START)

        def d_eval(I, base, a, nd):
            t0, t1, l, s, u = [I.rv(v) for v in a[1:]]
            I.oblige('derivative for the given times', and_(eq(t0, T0), eq(t1, T1)), '', 'pre')
            same_vec(I, 'derivative at the given last state', l, N, LAST)
            same_vec(I, 'derivative at the given state', s, N, START)
            same_vec(I, 'derivative at the given control', u, NC, CTL)
            c13.deliver(I, a[0], D, (N, N))
        for q in list(prog.funcs) + ['Controlcomponent::d_evaluate_d_new_state']:
            if q.endswith('::d_evaluate_d_new_state'): it.contracts[q] = d_eval
        for T in (0, 1): it.contracts['Triplethandler<%d>::set_matrix' % T] = c13.set_matrix
        pre = [le(I_(0), N), le(I_(0), NC)] + ([eq(var('jr', 'I'), N), eq(var('jc', 'I'), N)] if 'coeffref' in name else [])
        i, j = var('i', 'I'), var('j', 'I')
        for q in G.call(it, method(prog, CLS, name), ob, [prob, T0, T1, vec(N, LAST), x, vec(NC, CTL)], pre):
            if q.kind != 'ok':
                G.prove('does not fail', q.pc, FALSE)
                continue
            it.state = q.state
            o = it.rv(q.value[1])
            M = o.f['jacobian']
            G.prove('the Jacobian holds exactly the derivative with respect to the new state', q.pc, and_(eq(M.nr, N), eq(M.nc, N), eq(M.at(i, j), D(i, j))))
            if 'triplets' in name: G.prove('the pattern is analysed anew', q.pc, o.f['lusolver'].f['analyzed'])
        G.collect(it)
    for nm in ('evaluate_state_derivative_triplets', 'evaluate_state_derivative_coeffref'): S.group(nm, lambda G, nm=nm: jac(G, nm))


NATIVE = ('c01', ('model', 'opt'), 100, 800)
