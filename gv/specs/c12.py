"""C12: what the optimizer hands out always belongs to the controls last announced."""
from ..session import *
from ..units import opt, model
from ..interp import ThrowEx
from .common import *
from .c10 import sorted_, eps, member
from .. import cxx

CLS = 'ImplicitOptimizer'
NS, NU, NG = var('states_per_step', 'I'), var('controls_per_step', 'I'), var('constraints_per_step', 'I')
nt, nu, ng = var('state_times.n', 'I'), var('control_times.n', 'I'), var('constraint_times.n', 'I')
T_ = lambda k: uf('state_time', (k,), 'R')
U_ = lambda k: uf('control_time', (k,), 'R')
G_ = lambda k: uf('constraint_time', (k,), 'R')
X_ = lambda k: uf('announced_control', (k,), 'R')
SIM = lambda k: uf('simulated_state', (k,), 'R')         # states simulated with the announced controls
OLD = lambda k: uf('stale_state', (k,), 'R')
DF = lambda k: uf('objective_derivative', (k,), 'R')
DG = lambda k: uf('constraint_derivative', (k,), 'R')
W = lambda k: uf('integral_weight', (k,), 'R')
St = lambda t, k: uf('state_at', (t, k), 'R')            # interpolation of SIM / X at a time
Ct = lambda t, k: uf('control_at', (t, k), 'R')
COST, PEN = (lambda n: lambda t: uf(n, (t,), 'R'))('running_cost'), (lambda n: lambda t: uf(n, (t,), 'R'))('running_penalty')
CON = lambda t, k: uf('constraint_value', (t, k), 'R')
SN, DN = var('states_up_to_date', 'B'), var('derivatives_up_to_date', 'B')
last = lambda n: sub(n, I_(1))


def vec(n, f, kind='vec'): return Vec(n, Fn(f), kind)


def ivec(cls, pts, n, L, f):
    return Struct(cls, {'interpolation_points': vec(n, pts, 'std'), 'inner_length': L, 'values': vec(mul(L, n), f)})


def optimizer(it):
    """an optimizer in any state its class invariant allows: what is marked up to date belongs to the announced controls"""
    g = it.state.ghost
    cache = it.alloc(ivec('InterpolatingVector', T_, nt, NS, lambda k: ite(SN, SIM(k), OLD(k))))
    nnz = var('nnz', 'I')
    f = {'problem': Sym('OptimizableObject', var('problem', 'O'), True), 'init': Sym('Initialvalues', var('init', 'O'), True), 'cache': Sym('StateCache', var('cache', 'O'), True),
         'derivative_matrices_initialized': var('derivative_matrices_initialized', 'B'), 'states_up_to_date': SN, 'derivatives_up_to_date': DN,
         'state_timepoints': vec(nt, T_), 'control_timepoints': vec(nu, U_), 'constraint_timepoints': vec(ng, G_), 'initial_state': vec(NS, lambda k: uf('initial_state', (k,), 'R')),
         'integral_weights': vec(nt, W),
         'objective_gradient': ivec('InterpolatingVector', U_, nu, NU, lambda k: ite(DN, DF(k), uf('stale_gradient', (k,), 'R'))),
         'constraint_jacobian': Struct('ConstraintJacobian', {'block_height': NG, 'block_width': NU, 'block_column_offsets': vec(var('offsets.n', 'I'), lambda k: uf('offset', (k,), 'I')), 'storage': vec(nnz, lambda k: ite(DN, DG(k), uf('stale_jacobian', (k,), 'R')))}),
         'constraintjacobian_accessor': Struct('MappedConstraintJacobian', {'block_height': NG, 'block_width': NU, 'block_column_offsets': vec(var('offsets.n', 'I'), lambda k: uf('offset', (k,), 'I')), 'values': Ptr(None), 'number_of_entries': nnz})}
    return Struct(CLS, f), cache, nnz


def invariant(nnz):
    i = fresh('i', 'I')
    co = lambda k: uf('offset', (k,), 'I')
    return [le(I_(2), nt), le(I_(1), nu), le(I_(0), ng), le(I_(0), NS), le(I_(0), NU), le(I_(0), NG), le(I_(0), nnz), implies(DN, SN),
            le(I_(0), mul(NU, nu)), le(I_(0), mul(NS, nt)), le(I_(0), mul(NG, ng)), le(I_(2), var('offsets.n', 'I')),
            eq(nnz, mul(co(last(var('offsets.n', 'I'))), mul(NG, NU))),
            le(U_(I_(0)), T_(I_(0)))] + [sorted_(vec(n, f)) for n, f in ((nt, T_), (nu, U_), (ng, G_))] + [
            forall(i, implies(and_(le(I_(0), i), lt(i, nt)), and_(le(T_(I_(0)), T_(i)), le(T_(i), T_(last(nt)))))),
            forall(i, implies(and_(le(I_(0), i), lt(i, ng)), and_(lt(T_(I_(0)), G_(i)), le(G_(i), T_(last(nt))))))]


def same_vec(I, name, v, n, f):
    k = fresh('k', 'I')
    I.oblige(name, and_(eq(v.n, n), implies(and_(le(I_(0), k), lt(k, n)), eq(v.at(k), f(k)))), '', 'pre')


def contracts(it, cache, E):
    def values_of(I, o):
        for nm in ('values', 'mapped_values'):
            if nm in o.f: return member(I, o, nm)

    def refresh(I, base, a, nd):
        c, ts, x0 = I.rv(a[1]), I.rv(a[2]), I.rv(a[3])
        same_vec(I, 'the simulation uses the announced controls', values_of(I, c), mul(NU, nu), X_)
        same_vec(I, 'the simulation uses the control times', c.f['interpolation_points'], nu, U_)
        same_vec(I, 'the simulation uses the state times', ts, nt, T_)
        same_vec(I, 'the simulation starts at the initial state', x0, NS, lambda k: uf('initial_state', (k,), 'R'))
        if I.branch(fresh('simulation_succeeds', 'B')):
            I.write(cache, ivec('InterpolatingVector', T_, nt, NS, SIM))
            return TRUE
        nm = fresh('failed', 'R').data
        I.write(cache, ivec('InterpolatingVector', T_, nt, NS, lambda k: uf(nm, (k,), 'R')))
        return FALSE

    def at_time(I, base, a, nd):
        o, t = I.read(base), I.rv(a[0])
        p = o.f['interpolation_points']
        v = values_of(I, o)
        I.oblige('the time lies in the covered interval', and_(le(p.at(I_(0)), t), le(t, add(p.at(last(p.n)), E))), '', 'pre')
        if o.cls == 'InterpolatingVector':
            same_vec(I, 'states belong to the announced controls', v, mul(NS, nt), SIM)
            return Vec(NS, Fn(lambda k: St(t, k)), 'vec')
        same_vec(I, 'controls are the announced ones', v, mul(NU, nu), X_)
        return Vec(NU, Fn(lambda k: Ct(t, k)), 'vec')

    def args_at(I, t, s, u):
        same_vec(I, 'states of that time', s, NS, lambda k: St(t, k))
        same_vec(I, 'controls of that time', u, NU, lambda k: Ct(t, k))

    def running(f):
        def h(I, base, a, nd):
            t, s, u = [I.rv(x) for x in a]
            args_at(I, t, s, u)
            return f(t)
        return h

    def constraint(I, base, a, nd):
        t, s, u = [I.rv(x) for x in a[1:]]
        args_at(I, t, s, u)
        old = I.rv(a[0])
        I.oblige('room for the constraints of one time', eq(old.n, NG), '', 'pre')
        I.write(a[0], Vec(NG, Fn(lambda k: CON(t, k)), 'vec'))

    def derivatives(I, base, a, nd):
        c, s = I.rv(a[0]), I.rv(a[1])
        same_vec(I, 'derivatives are taken at the announced controls', values_of(I, c), mul(NU, nu), X_)
        same_vec(I, 'derivatives are taken at the simulated states', values_of(I, s), mul(NS, nt), SIM)
        o = I.read(base)
        ok = I.branch(fresh('derivatives_computed', 'B'))
        nm = fresh('partial', 'R').data
        g = (DF, DG) if ok else tuple((lambda z: lambda k: uf(nm + z, (k,), 'R'))(z) for z in 'fg')
        og, cj = o.f['objective_gradient'], o.f['constraint_jacobian']
        o = o.with_('objective_gradient', og.with_('values', vec(og.f['values'].n, g[0]))).with_('constraint_jacobian', cj.with_('storage', vec(cj.f['storage'].n, g[1])))
        if ok: o = o.with_('derivatives_up_to_date', TRUE)
        I.write(base, o.with_('derivative_matrices_initialized', TRUE))
        return TRUE if ok else FALSE
    it.contracts.update({
        'StateCache::refresh_cache': refresh, 'StateCache::get_cached_states': lambda I, b, a, n: cache,
        'InterpolatingVector_Base::operator()': at_time,
        'OptimizableObject::evaluate_cost': running(COST), 'OptimizableObject::evaluate_penalty': running(PEN), 'OptimizableObject::evaluate_constraint': constraint,
        CLS + '::compute_derivatives': derivatives,
        CLS + '::get_initial_controls': lambda I, b, a, n: vec(mul(NU, nu), lambda k: uf('initial_control', (k,), 'R')),
    })
    for q, v in (('get_number_of_states', NS), ('get_number_of_controls_per_timepoint', NU), ('get_number_of_constraints_per_timepoint', NG)):
        it.contracts['OptimizableObject::' + q] = lambda I, b, a, n, v=v: v
        for c in ('Controlcomponent', 'Statecomponent', 'ControlStateComponent'): it.contracts[c + '::' + q] = lambda I, b, a, n, v=v: v


def run(S):
    prog = opt()
    k = var('k', 'I')

    def still_valid(G, it, q, cache, what):
        it.state = q.state
        o = it.rv(q.value[1] if q.kind == 'ok' else it.last_this)
        s, d = o.f['states_up_to_date'], o.f['derivatives_up_to_date']
        cs = it.read(cache).f['values']
        og, cj = o.f['objective_gradient'].f['values'], o.f['constraint_jacobian'].f['storage']
        G.prove(what + ': cached states marked valid belong to the announced controls', q.pc + [s, le(I_(0), k), lt(k, mul(NS, nt))], eq(cs.at(k), SIM(k)))
        G.prove(what + ': cached gradient marked valid belongs to the announced controls', q.pc + [d, le(I_(0), k), lt(k, og.n)], and_(s, eq(og.at(k), DF(k))))
        G.prove(what + ': cached Jacobian marked valid belongs to the announced controls', q.pc + [d, le(I_(0), k), lt(k, cj.n)], eq(cj.at(k), DG(k)))

    def setup(G):
        it = G.interp(prog)
        ob, cache, nnz = optimizer(it)
        E = eps(it)
        contracts(it, cache, E)
        pre = invariant(nnz) + [le(T_(last(nt)), add(U_(last(nu)), E)), le(R(0), E)]
        return it, ob, cache, pre, nnz
    xs = Vec(mul(NU, nu), Fn(X_), 'vec')

    def integral(G, name, f):
        it, ob, cache, pre, _ = setup(G)
        j = fresh('j', 'I')
        want = sum_(j, I_(1), nt, mul(W(j), f(T_(j))))
        for q in G.call(it, method(prog, CLS, name), ob, [xs, var('out', 'R')], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            still_valid(G, it, q, cache, name)
            out = it.rv(q.value[2][1])
            G.prove('a number is only reported for a successful simulation of the announced controls', q.pc + [q.value[0]], and_(it.rv(q.value[1]).f['states_up_to_date'], eq(out, want)))
        G.collect(it)
    S.group('evaluate_cost', lambda G: integral(G, 'evaluate_cost', COST))
    S.group('evaluate_penalty', lambda G: integral(G, 'evaluate_penalty', PEN))

    def objective(G):
        it, ob, cache, pre, _ = setup(G)

        def part(nm):
            def h(I, base, a, nd):
                x = I.rv(a[0])
                same_vec(I, nm + ' is asked for the announced controls', x, mul(NU, nu), X_)
                if I.branch(fresh(nm + '_ok', 'B')):
                    I.write(a[1], var(nm, 'R'))
                    return TRUE
                return FALSE
            return h
        it.contracts[CLS + '::evaluate_cost'] = part('cost')
        it.contracts[CLS + '::evaluate_penalty'] = part('penalty')
        for q in G.call(it, method(prog, CLS, 'evaluate_objective'), ob, [xs, var('out', 'R')], pre):
            if q.kind != 'ok': G.prove('does not throw', q.pc, FALSE)
            else: G.post(it, 'objective is cost plus penalty', q, [q.value[0]], lambda: eq(it.rv(q.value[2][1]), add(var('cost', 'R'), var('penalty', 'R'))))
            oks = [c for c in q.pc if c.op == 'not' and c.args[0].op == 'var' and '_ok' in c.args[0].data]
            if oks and q.kind == 'ok': G.prove('a failing part is reported', q.pc, not_(q.value[0]))
        G.collect(it)
    S.group('evaluate_objective', objective)

    def constraints(G):
        it, ob, cache, pre, _ = setup(G)
        i, j = var('i', 'I'), var('j', 'I')
        room = Vec(var('room', 'I'), Fn(lambda k: uf('room', (k,), 'R')), 'vec')
        x2 = Vec(var('x.n', 'I'), Fn(X_), 'vec')
        for q in G.call(it, method(prog, CLS, 'evaluate_constraints'), ob, [x2, room], pre + [le(I_(0), room.n), le(I_(0), i), lt(i, ng), le(I_(0), j), lt(j, NG)]):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            still_valid(G, it, q, cache, 'evaluate_constraints')
            out = it.rv(q.value[2][1])
            G.prove('wrong sizes are refused', q.pc + [q.value[0]], and_(eq(room.n, mul(NG, ng)), eq(x2.n, mul(NU, nu))))
            G.prove('every constraint value belongs to the announced controls', q.pc + [q.value[0]], eq(out.at(add(mul(NG, i), j)), CON(G_(i), j)))
        G.collect(it)
    S.group('evaluate_constraints', constraints)

    def derivative(G, name, f, n_of):
        it, ob, cache, pre, nnz = setup(G)
        n = n_of(nnz)
        room = Vec(n, Fn(lambda k: uf('room', (k,), 'R')), 'vec')
        for q in G.call(it, method(prog, CLS, name), ob, [xs, room], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            still_valid(G, it, q, cache, name)
            out = it.rv(q.value[2][1])
            G.prove('every value belongs to the announced controls', q.pc + [q.value[0], le(I_(0), k), lt(k, n)], and_(eq(out.n, n), eq(out.at(k), f(k))))
        G.collect(it)
    S.group('evaluate_objective_gradient', lambda G: derivative(G, 'evaluate_objective_gradient', DF, lambda z: mul(NU, nu)))
    S.group('evaluate_constraint_jacobian', lambda G: derivative(G, 'evaluate_constraint_jacobian', DG, lambda z: z))

    def new_x(G):
        it, ob, cache, pre, _ = setup(G)
        for q in G.call(it, method(prog, CLS, 'new_x'), ob, [], pre):
            it.state = q.state
            o = it.rv(q.value[1])
            G.prove('announcing controls invalidates everything computed before', q.pc, and_(not_(o.f['states_up_to_date']), not_(o.f['derivatives_up_to_date'])) if q.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('new_x', new_x)

    # ---- the state cache: what it hands out was simulated with the controls it was last asked for
    def cache_setup(G):
        it = G.interp(prog)
        from . import c10
        sc, sp, sL, sv = c10.ivec(it, 'InterpolatingVector', name='kept_control')
        ss, _, ssL, ssv = c10.ivec(it, 'InterpolatingVector', name='kept_states')
        fc, fp, fL, fv_ = c10.ivec(it, 'InterpolatingVector', name='failed_control')
        vecd = lambda n: Vec(var(n + '.n', 'I'), Fn(lambda k: uf(n, (k,), 'R')), 'vec')
        entry = lambda c, n: Struct('Cacheentry', {'control': c, 'state_timepoints': vecd(n + '_times'), 'initial_state': vecd(n + '_initial')})
        ob = Struct('ControlStateCache', {'evolver': Sym('Timeevolver', var('evolver', 'O'), True), 'cache': Tup([entry(sc, 'kept'), ss]), 'failed': entry(fc, 'failed')})
        ctl = ivec('InterpolatingVector', U_, nu, NU, X_)
        pre = [le(I_(1), nt), le(I_(1), nu), le(I_(0), NS), le(I_(0), NU), le(I_(0), mul(NU, nu)), le(I_(0), mul(NS, nt)), sorted_(vec(nt, T_)), sorted_(vec(nu, U_))]
        for p_, L_ in ((sp, sL), (fp, fL), (ss.f['interpolation_points'], ssL)): pre += c10.inv(p_, L_, nonempty=False)
        for n in ('kept', 'failed'): pre += [le(I_(0), vecd(n + '_times').n), le(I_(0), vecd(n + '_initial').n)]

        def simulate(I, base, a, nd):
            x0, c, out = I.rv(a[0]), I.rv(a[1]), I.rv(a[3])
            same_vec(I, 'the simulation starts at the given initial state', x0, NS, lambda k: uf('initial_state', (k,), 'R'))
            same_vec(I, 'the simulation uses the given controls', c.f['values'], mul(NU, nu), X_)
            same_vec(I, 'the simulation uses the given control times', c.f['interpolation_points'], nu, U_)
            same_vec(I, 'the simulation fills the given time points', out.f['interpolation_points'], nt, T_)
            if I.branch(fresh('simulation_throws', 'B')):
                nm = fresh('partial', 'R').data
                I.write(a[3], out.with_('values', vec(out.f['values'].n, lambda k: uf(nm, (k,), 'R'))))
                raise ThrowEx('gthrow')
            I.write(a[3], out.with_('values', vec(out.f['values'].n, SIM)))
        it.contracts['Timeevolver::simulate'] = simulate
        args = [Sym('Controlcomponent', var('controlcomponent', 'O'), False), ctl, vec(nt, T_), vec(NS, lambda k: uf('initial_state', (k,), 'R'))]
        return it, ob, args, pre, (sc, ss, vecd)

    def entry_is_given(G, q, e, what):
        c = e.f['control']
        for nm, v, n, f in ((' controls', c.f['values'], mul(NU, nu), X_), (' control times', c.f['interpolation_points'], nu, U_),
                            (' state times', e.f['state_timepoints'], nt, T_), (' initial state', e.f['initial_state'], NS, lambda k: uf('initial_state', (k,), 'R'))):
            G.prove(what + nm, q.pc + [le(I_(0), k), lt(k, n)], and_(eq(v.n, n), eq(v.at(k), f(k))))

    def holds_sim(G, q, s, what, extra=()):
        G.prove(what, q.pc + list(extra) + [le(I_(0), k), lt(k, mul(NS, nt))], and_(eq(s.f['values'].n, mul(NS, nt)), eq(s.f['inner_length'], NS), eq(s.f['values'].at(k), SIM(k))))
        G.prove(what + ' (time points)', q.pc + list(extra) + [le(I_(0), k), lt(k, nt)], and_(eq(s.f['interpolation_points'].n, nt), eq(s.f['interpolation_points'].at(k), T_(k))))

    def refresh(G):
        it, ob, args, pre, (sc, ss, vecd) = cache_setup(G)
        for q in G.call(it, method(prog, 'ControlStateCache', 'refresh_cache'), ob, args, pre):
            if q.kind != 'ok':
                G.prove('a failing simulation is reported, not thrown', q.pc, FALSE)
                continue
            it.state = q.state
            ok, o = q.value[0], it.rv(q.value[1])
            kept = o.f['cache'].d
            if ok is TRUE:
                holds_sim(G, q, kept[1], 'the cache holds the simulation of the given controls')
                entry_is_given(G, q, kept[0], 'the cache is labelled with the given')
            else:
                G.prove('true is only returned for a finished simulation', q.pc, not_(ok))
                entry_is_given(G, q, o.f['failed'], 'the failure is labelled with the given')
        G.collect(it)
    S.group('ControlStateCache::refresh_cache', refresh)

    def cached(G):
        it, ob, args, pre, (sc, ss, vecd) = cache_setup(G)
        for q in G.call(it, method(prog, 'ControlStateCache', 'get_cached_states'), ob, [], pre):
            r = q.value[0]
            G.prove('hands out the stored states', q.pc + [le(I_(0), k), lt(k, ss.f['values'].n)], and_(eq(r.f['values'].n, ss.f['values'].n), eq(r.f['values'].at(k), ss.f['values'].at(k))) if q.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('ControlStateCache::get_cached_states', cached)

    # ---- start values and bounds: the given data, interpolated to the optimizer's own grid
    def bounds(G, name, member_, points, L, n):
        it, ob, cache, pre, _ = setup(G)
        from . import c10
        data = {}
        for m in ('initial_controls', 'lower_bounds', 'upper_bounds', 'constraint_lower_bounds', 'constraint_upper_bounds'):
            data[m] = c10.ivec(it, 'InterpolatingVector', name='given_' + m)[0]
        init = it.alloc(Struct('Initialvalues', data))
        ob = ob.with_('init', Ptr(init))
        it.contracts.pop(CLS + '::get_initial_controls', None)
        want = lambda k: uf('interpolated_' + member_, (k,), 'R')

        def interpolate(I, base, a, nd):
            p, l, src = I.rv(a[0]), I.rv(a[1]), I.rv(a[2])
            same_vec(I, 'interpolates to the grid of the optimizer', p, n, points)
            I.oblige('with its inner length', eq(l, L), '', 'pre')
            g = data[member_]
            same_vec(I, 'interpolates ' + member_, src.f['values'], g.f['values'].n, g.f['values'].at)
            same_vec(I, 'interpolates %s from its own time points' % member_, src.f['interpolation_points'], g.f['interpolation_points'].n, g.f['interpolation_points'].at)
            return ivec('InterpolatingVector', points, n, L, want)
        it.contracts['InterpolatingVector::construct_and_interpolate_from'] = interpolate
        for m, d in data.items(): pre = pre + c10.inv(d.f['interpolation_points'], d.f['inner_length'])
        for q in G.call(it, method(prog, CLS, name), ob, [], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            r = q.value[0]
            G.prove('the given data on the grid of the optimizer', q.pc + [le(I_(0), k), lt(k, mul(L, n))], and_(eq(r.n, mul(L, n)), eq(r.at(k), want(k))))
        G.collect(it)
    for nm, m, c in (('get_initial_controls', 'initial_controls', 0), ('get_lower_bounds', 'lower_bounds', 0), ('get_upper_bounds', 'upper_bounds', 0),
                     ('get_constraint_lower_bounds', 'constraint_lower_bounds', 1), ('get_constraint_upper_bounds', 'constraint_upper_bounds', 1)):
        S.group(nm, lambda G, nm=nm, m=m, c=c: bounds(G, nm, m, G_ if c else U_, NG if c else NU, ng if c else nu))

    def construct_interpolate(G):
        it = G.interp(prog)
        from . import c10
        src, sp, sL, sv = c10.ivec(it, 'InterpolatingVector', L=NU, name='given')
        p = Vec(nu, Fn(U_), 'vec')
        i, j = var('i', 'I'), var('j', 'I')
        pre = c10.inv(sp, sL) + [le(I_(1), nu), le(I_(0), NU), le(I_(0), mul(NU, nu)), sorted_(p, True), le(I_(0), i), lt(i, nu), le(I_(0), j), lt(j, NU)]
        At = lambda t, k: uf('given_at', (t, k), 'R')

        def at(I, base, a, nd):
            t, o = I.rv(a[0]), I.read(base)
            same_vec(I, 'evaluates the given vector', o.f['values'], sv.n, sv.at)
            if I.branch(fresh('covered', 'B')): return Vec(sL, Fn(lambda k: At(t, k)), 'vec')
            raise ThrowEx('gthrow')
        it.contracts['InterpolatingVector_Base::operator()'] = at
        fd = prog.find('InterpolatingVector::construct_and_interpolate_from')
        for q in G.call(it, fd, None, [p, NU, src], pre):
            if q.kind != 'ok': continue
            it.state, r = q.state, q.value[0]
            G.prove('every value is the given vector at that time', q.pc, and_(eq(r.f['values'].n, mul(NU, nu)), eq(r.f['interpolation_points'].n, nu), eq(r.f['interpolation_points'].at(i), U_(i)),
                                                                       eq(r.f['values'].at(add(mul(NU, i), j)), At(U_(i), j))))
        G.collect(it)
    S.group('InterpolatingVector::construct_and_interpolate_from', construct_interpolate)

    # a failed derivative computation does not count as up to date
    from . import c13
    c13.run(c13.Only(S, ['compute_derivatives']))


NATIVE = ('c12', ('model', 'opt'), 60, 2000)
