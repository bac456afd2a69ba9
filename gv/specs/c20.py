"""C20: the Ipopt callbacks pass sizes, bounds, points and results on unchanged, and announce every new point."""
from ..session import *
from ..units import wrapper, opt
from ..interp import ThrowEx
from .common import *
from .. import cxx

CLS = 'IpoptWrapper'
N, M, NNZ = var('controls', 'I'), var('constraints', 'I'), var('jacobian_entries', 'I')
MAXI = I_(2147483647)
X_ = lambda k: uf('ipopt_x', (k,), 'R')
NEWX = var('new_x', 'B')
k = var('k', 'I')
JUNK = lambda nm: (lambda k: uf('junk_' + nm, (k,), 'R'))


def vec(n, f): return Vec(n, Fn(f), 'vec')
def iff(a, b): return and_(implies(a, b), implies(b, a))


def same_vec(I, name, v, n, f):
    c = fresh('k', 'I')
    I.oblige(name, and_(eq(v.n, n), implies(and_(le(I_(0), c), lt(c, n)), eq(v.at(c), f(c)))), '', 'pre')


DATA = {'get_initial_controls': N, 'get_lower_bounds': N, 'get_upper_bounds': N, 'get_constraint_lower_bounds': M, 'get_constraint_upper_bounds': M}
data = lambda m: (lambda k: uf(m[4:], (k,), 'R'))
OBJ, COST, PEN = var('objective_of_x', 'R'), var('cost_of_x', 'R'), var('penalty_of_x', 'R')
GRAD, CON, JAC = (lambda k: uf('gradient_of_x', (k,), 'R')), (lambda k: uf('constraints_of_x', (k,), 'R')), (lambda k: uf('jacobian_of_x', (k,), 'R'))
ROW, COL = (lambda k: uf('entry_row', (k,), 'I')), (lambda k: uf('entry_col', (k,), 'I'))


def setup(G, announced):
    """announced: formula telling whether the model already knows the current point"""
    it = G.interp(wrapper())
    it.enum_values = {'SUCCESS': 0, 'C_STYLE': 0, 'FORTRAN_STYLE': 1}      # Ipopt's headers
    it.state.ghost = dict(it.state.ghost, known=announced)
    c = it.contracts
    c['Optimizer::get_total_no_controls'] = lambda I, b, a, n: N
    c['Optimizer::get_total_no_constraints'] = lambda I, b, a, n: M
    c['Optimizer::get_no_nnz_in_jacobian'] = lambda I, b, a, n: NNZ
    for m, sz in DATA.items(): c['Optimizer::' + m] = lambda I, b, a, n, m=m, sz=sz: vec(sz, data(m))

    def new_x(I, base, a, nd): I.state.ghost = dict(I.state.ghost, known=TRUE)
    c['Optimizer::new_x'] = new_x

    def evaluate(scalar, size, f):
        def h(I, base, a, nd):
            I.oblige('a changed point is announced before it is evaluated', I.state.ghost['known'], I.loc(nd), 'pre')
            same_vec(I, 'the point evaluated is the optimizer\'s point', I.rv(a[0]), N, X_)
            ok = I.branch(fresh('evaluation_succeeds', 'B'))
            I.state.ghost = dict(I.state.ghost, ok=boolc(ok))
            if scalar: I.write(a[1], f if ok else fresh('partial', 'R'))
            else:
                out = I.rv(a[1])
                I.oblige('room for all results', eq(out.n, size), I.loc(nd), 'pre')
                nm = fresh('partial', 'R').data
                I.write(a[1], vec(size, f if ok else (lambda k: uf(nm, (k,), 'R'))))
            return boolc(ok)
        return h
    c['Optimizer::evaluate_objective'] = evaluate(True, None, OBJ)
    c['Optimizer::evaluate_cost'] = evaluate(True, None, COST)
    c['Optimizer::evaluate_penalty'] = evaluate(True, None, PEN)
    c['Optimizer::evaluate_constraints'] = evaluate(False, M, CON)
    c['Optimizer::evaluate_objective_gradient'] = evaluate(False, N, GRAD)
    c['Optimizer::evaluate_constraint_jacobian'] = evaluate(False, NNZ, JAC)

    def indices(I, base, a, nd):
        for v, f in zip(a, (ROW, COL)):
            I.oblige('room for all positions', eq(I.rv(v).n, NNZ), I.loc(nd), 'pre')
            I.write(v, Vec(NNZ, Fn(f), 'vec'))
        I.state.ghost = dict(I.state.ghost, ok=TRUE)
        return TRUE
    c['Optimizer::supply_constraint_jacobian_indices'] = indices
    ob = Struct(CLS, {'optimizer': Ptr(it.alloc(Sym('Optimizer', var('optimizer', 'O'), True))), 'best_solution': vec(var('old.n', 'I'), JUNK('solution')),
                      'best_objective_value': var('old_objective', 'R'), 'best_cost_value': var('old_cost', 'R'), 'best_penalty_value': var('old_penalty', 'R'),
                      'best_constraints': vec(var('old.m', 'I'), JUNK('constraints'))})
    pre = [le(I_(0), N), le(I_(0), M), le(I_(0), NNZ), le(I_(0), var('old.n', 'I')), le(I_(0), var('old.m', 'I'))]
    return it, ob, pre


def buffer(it, n, f): return Iter(it.alloc(Vec(n, Fn(f), 'std')), I_(0))


NULL = Ptr(None)


def run(S):
    prog = wrapper()

    def nlp_info(G):
        it, ob, pre = setup(G, TRUE)
        outs = [it.alloc(var('old_%d' % i, 'I')) for i in range(4)]
        st = it.alloc(var('old_style', 'I'))
        fits = and_(le(N, MAXI), le(M, MAXI), le(NNZ, MAXI))
        n = 0
        for q in G.call(it, method(prog, CLS, 'get_nlp_info'), ob, outs + [st], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            n += 1
            it.state = q.state
            g = [it.rv(o) for o in outs]
            G.prove('a problem that fits is accepted, one that does not is refused', q.pc, iff(q.value[0], fits))
            G.prove('the dimensions are the problem\'s', q.pc + [q.value[0]], and_(eq(g[0], N), eq(g[1], M), eq(g[2], NNZ)))
            G.prove('no Hessian entries, 0-based indices', q.pc + [q.value[0]], and_(eq(g[3], I_(0)), eq(lift(it.rv(st), 'I'), I_(0))))
        if n < 2: raise ExtractError('get_nlp_info has only one outcome')
        G.collect(it)
    S.group('get_nlp_info', nlp_info)

    def buffers_hold(G, it, q, bufs, name, extra=()):
        for nm, b, n, f in bufs:
            v = it.read(b.lv)
            G.prove('%s: %s arrives unchanged' % (name, nm), q.pc + list(extra) + [le(I_(0), k), lt(k, n)], eq(v.at(k), f(k)))

    def bounds(G):
        it, ob, pre = setup(G, TRUE)
        b = [buffer(it, n, JUNK(m)) for m, n in (('xl', N), ('xu', N), ('gl', M), ('gu', M))]
        ok = 0
        for q in G.call(it, method(prog, CLS, 'get_bounds_info'), ob, [N, b[0], b[1], M, b[2], b[3]], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            ok += 1
            it.state = q.state
            G.prove('reports success', q.pc, q.value[0])
            buffers_hold(G, it, q, [('lower bound', b[0], N, data('get_lower_bounds')), ('upper bound', b[1], N, data('get_upper_bounds')),
                                    ('lower constraint bound', b[2], M, data('get_constraint_lower_bounds')), ('upper constraint bound', b[3], M, data('get_constraint_upper_bounds'))], 'bounds')
        if not ok: raise ExtractError('get_bounds_info never returns')
        G.collect(it)
    S.group('get_bounds_info', bounds)

    def start(G):
        it, ob, pre = setup(G, TRUE)
        x = buffer(it, N, JUNK('x'))
        ok = 0
        for q in G.call(it, method(prog, CLS, 'get_starting_point'), ob, [N, TRUE, x, FALSE, NULL, NULL, M, FALSE, NULL], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            ok += 1
            it.state = q.state
            G.prove('reports success', q.pc, q.value[0])
            buffers_hold(G, it, q, [('start value', x, N, data('get_initial_controls'))], 'start')
        if not ok: raise ExtractError('get_starting_point never returns')
        G.collect(it)
    S.group('get_starting_point', start)

    def evaluation(G, name, size, f):
        it, ob, pre = setup(G, not_(NEWX))
        x = buffer(it, N, X_)
        out = it.alloc(var('old_value', 'R')) if size is None else buffer(it, size, JUNK('out'))
        args = {'eval_f': [N, x, NEWX, out], 'eval_grad_f': [N, x, NEWX, out], 'eval_g': [N, x, NEWX, M, out], 'eval_jac_g': [N, x, NEWX, M, NNZ, NULL, NULL, out]}[name]
        n = 0
        for q in G.call(it, method(prog, CLS, name), ob, args, pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            n += 1
            it.state = q.state
            G.prove('success is reported exactly if the evaluation succeeded', q.pc, iff(q.value[0], q.state.ghost.get('ok', FALSE)))
            G.prove('the model knows the current point afterwards', q.pc, q.state.ghost['known'])
            if size is None: G.prove('the value is the model\'s', q.pc + [q.value[0]], eq(it.rv(out), f))
            else: buffers_hold(G, it, q, [('entry', out, size, f)], name, [q.value[0]])
            G.prove('the point is left as it is', q.pc + [le(I_(0), k), lt(k, N)], eq(it.read(x.lv).at(k), X_(k)))
        if n < 2: raise ExtractError(name + ' has only one outcome')
        G.collect(it)
    for nm, sz, f in (('eval_f', None, OBJ), ('eval_grad_f', N, GRAD), ('eval_g', M, CON), ('eval_jac_g', NNZ, JAC)): S.group(nm, lambda G, a=(nm, sz, f): evaluation(G, *a))

    def structure(G):
        it, ob, pre = setup(G, not_(NEWX))
        r, c = (Iter(it.alloc(Vec(NNZ, Fn(lambda k, m=m: uf(m, (k,), 'I')), 'std')), I_(0)) for m in ('junk_row', 'junk_col'))
        n = 0
        for q in G.call(it, method(prog, CLS, 'eval_jac_g'), ob, [N, NULL, NEWX, M, NNZ, r, c, NULL], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            n += 1
            it.state = q.state
            G.prove('reports success', q.pc, q.value[0])
            buffers_hold(G, it, q, [('row', r, NNZ, ROW), ('column', c, NNZ, COL)], 'structure')
            G.prove('a point announced with the structure call is not forgotten', q.pc + [not_(NEWX)], q.state.ghost['known'])
        if not n: raise ExtractError('eval_jac_g never returns')
        G.collect(it)
    S.group('eval_jac_g (structure)', structure)

    def final(G):
        # the solution may be any point, not the one evaluated last
        it, ob, pre = setup(G, FALSE)
        x, g = buffer(it, N, X_), buffer(it, M, lambda k: uf('final_constraints', (k,), 'R'))
        seen = {}
        for m in ('evaluate_cost', 'evaluate_penalty'):
            old = it.contracts['Optimizer::' + m]

            def h(I, base, a, nd, m=m, old=old):
                r = old(I, base, a, nd)
                I.state.ghost = dict(I.state.ghost, **{m: r})
                return r
            it.contracts['Optimizer::' + m] = h
        ok = 0
        for q in G.call(it, method(prog, CLS, 'finalize_solution'), ob, [var('status', 'I'), N, x, NULL, NULL, M, g, NULL, var('final_objective', 'R'), NULL, NULL], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            ok += 1
            it.state = q.state
            o = it.rv(q.value[1]).f
            st1 = q.state
            obj = q.value[1]
            gh = q.state.ghost
            get = {}
            for nm, fd in (('solution', 'get_best_solution'), ('objective', 'get_best_objective_value'), ('cost', 'get_best_cost_value'), ('penalty', 'get_best_penalty_value'), ('constraints', 'get_best_constraints')):
                rs = G.call(it, method(prog, CLS, fd), obj, [], [], base=st1)
                if len(rs) != 1 or rs[0].kind != 'ok': raise ExtractError(fd)
                get[nm] = rs[0].value[0]
                it.state = st1
            G.prove('the reported solution is the final point', q.pc + [le(I_(0), k), lt(k, N)], and_(eq(get['solution'].n, N), eq(get['solution'].at(k), X_(k))))
            G.prove('the reported constraints are the final ones', q.pc + [le(I_(0), k), lt(k, M)], and_(eq(get['constraints'].n, M), eq(get['constraints'].at(k), uf('final_constraints', (k,), 'R'))))
            G.prove('the reported objective is the final one', q.pc, eq(get['objective'], var('final_objective', 'R')))
            G.prove('the reported cost is that of the final point', q.pc + [gh.get('evaluate_cost', TRUE)], eq(get['cost'], COST))
            G.prove('the reported penalty is that of the final point', q.pc + [gh.get('evaluate_penalty', TRUE)], eq(get['penalty'], PEN))
        if not ok: raise ExtractError('finalize_solution never returns')
        G.collect(it)
    S.group('finalize_solution and what is reported afterwards', final)

    # ---- where the data come from
    def initialvalues(G):
        it = G.interp(prog)
        from . import c10
        fd = [d for d in prog.funcs.get('Initialvalues::Initialvalues', []) if cxx.Program.body(d) is not None]
        if len(fd) != 1: raise ExtractError('constructor of Initialvalues')
        names = ['initial_controls', 'lower_bounds', 'upper_bounds', 'constraint_lower_bounds', 'constraint_upper_bounds']
        given = {m: c10.ivec(it, 'InterpolatingVector', name='given_' + m)[0] for m in names}

        def go():
            lv = it.alloc(Struct('Initialvalues', {}))
            it.lib.run_ctor('Initialvalues', fd[0], lv, [it.alloc(given[m]) for m in names])
            return lv
        for q in it.explore(go, it.state.clone()):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            it.state = q.state
            o = it.rv(q.value)
            for m in names:
                a, b = o.f[m], given[m]
                G.prove('stores ' + m, q.state.pc, and_(eq(a.f['values'].n, b.f['values'].n), eq(a.f['values'].at(k), b.f['values'].at(k)), eq(a.f['inner_length'], b.f['inner_length']),
                                                  eq(a.f['interpolation_points'].n, b.f['interpolation_points'].n), eq(a.f['interpolation_points'].at(k), b.f['interpolation_points'].at(k))))
        G.collect(it)
    S.group('Initialvalues', initialvalues)

    from . import c12
    po = opt()

    def dimensions(G):
        it = G.interp(po)
        it.contracts['OptimizableObject::get_number_of_controls_per_timepoint'] = lambda I, b, a, n: c12.NU
        it.contracts['OptimizableObject::get_number_of_constraints_per_timepoint'] = lambda I, b, a, n: c12.NG
        ob, cache, nnz = c12.optimizer(it)
        pre = c12.invariant(nnz)
        st0 = it.state
        for nm, want in (('get_total_no_controls', mul(c12.NU, c12.nu)), ('get_total_no_constraints', mul(c12.NG, c12.ng)), ('get_no_nnz_in_jacobian', nnz)):
            it.state = st0
            for q in G.call(it, method(po, 'ImplicitOptimizer', nm), ob, [], pre):
                G.prove(nm, q.pc, eq(q.value[0], want) if q.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('dimensions of the problem', dimensions)


NATIVE = ('c20', ('model', 'opt'), 200, 5000)
