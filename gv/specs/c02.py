"""C02: every stored time step solves the equations at its own time."""
from ..session import *
from ..units import model
from ..interp import ThrowEx
from ..loops import Inv
from .common import *
from .c10 import sorted_, member

CLS = 'Timeevolver'
NS, NC, NT = var('states', 'I'), var('controls', 'I'), var('steps', 'I')
T_ = lambda k: uf('grid_time', (k,), 'R')
OLD = lambda k: uf('old_storage', (k,), 'R')
CT = lambda t, k: uf('control_at', (t, k), 'R')
ST = lambda t, k: uf('accepted_state', (t, k), 'R')          # the state the solver accepted for time t
PRED = lambda t: uf('preceding_time', (t,), 'R')
INIT = lambda k: uf('initial_state', (k,), 'R')
L0, L1 = var('last_time', 'R'), var('new_time', 'R')
LAST, START = (lambda k: uf('last_state', (k,), 'R')), (lambda k: uf('start_state', (k,), 'R'))
CTL = lambda k: uf('control', (k,), 'R')
RET = var('retries', 'I')


def vec(n, f): return Vec(n, Fn(f), 'vec')


def same_vec(I, name, v, n, f):
    k = fresh('k', 'I')
    I.oblige(name, and_(eq(v.n, n), implies(and_(le(I_(0), k), lt(k, n)), eq(v.at(k), f(k)))), '', 'pre')


def result(ok):
    return Struct('Solutionstruct', {'success': ok, 'residual': fresh('residual', 'R'), 'used_iterations': fresh('iterations', 'I')})


def evolver(simplified): return Struct(CLS, {'solver': Struct('Newtonsolver', {'id': var('solver', 'O')}), 'retries': RET, 'use_simplified_newton': simplified})


def run(S):
    prog = model()
    k, j = var('k', 'I'), var('j', 'I')

    # ---- one step: prepared for and solved with the given data; returns only what the solver accepted
    def one(G, simplified):
        it = G.interp(prog)
        SOLN = var('controls', 'I')

        def prepare(I, base, a, nd):
            t0, t1, l, u = [I.rv(v) for v in a]
            I.oblige('prepared for the given times', and_(eq(t0, L0), eq(t1, L1)), '', 'pre')
            same_vec(I, 'prepared with the given last state', l, NS, LAST)
            same_vec(I, 'prepared with the given control', u, NC, CTL)
            I.state.ghost = dict(I.state.ghost, prepared=True)

        def solve(I, base, a, nd):
            x, p, nj, full, t0, t1, l, u = [I.rv(v) for v in a]
            I.oblige('prepared before solving', boolc(bool(I.state.ghost.get('prepared'))), '', 'pre')
            I.oblige('solved for the given times', and_(eq(t0, L0), eq(t1, L1)), '', 'pre')
            same_vec(I, 'solved from the given start state', x, NS, START)
            same_vec(I, 'solved with the given last state', l, NS, LAST)
            same_vec(I, 'solved with the given control', u, NC, CTL)
            I.oblige('the Jacobian structure is kept', not_(nj), '', 'pre')
            I.state.ghost = dict(I.state.ghost, prepared=False)
            if not I.branch(fresh('solvable', 'B')): raise ThrowEx('SolverNumericalProblem')
            ok = I.branch(fresh('accepted', 'B'))
            nm = fresh('solution', 'R').data
            I.write(a[0], vec(NS, lambda k: ST(L1, k) if ok else uf(nm, (k,), 'R')))
            return result(boolc(ok))
        for q in prog.funcs:
            if q.endswith('::prepare_timestep'): it.contracts[q] = prepare
        it.contracts['Controlcomponent::prepare_timestep'] = prepare
        it.contracts['Newtonsolver::solve'] = solve

        def inv(I, v):
            x, l, u, b = v('new_state'), v('last_state'), v('control'), v.opt('new_state_backup')
            c = fresh('k', 'I')
            d = and_(le(I_(0), c), lt(c, NS))
            same = lambda w, n, f: and_(eq(w.n, n), implies(and_(le(I_(0), c), lt(c, n)), eq(w.at(c), f(c))))
            return ([('the start state is kept', same(b, NS, START))] if b is not None else []) + [('not yet accepted', not_(v('solstruct').f['success'])),
                    ('size of the state', eq(x.n, NS)), ('retries within the limit', and_(le(I_(0), v('retry')), le(v('retry'), add(mul(I_(2), RET), I_(1)))))]

        def bind(I, lv):
            nm = fresh('attempt', 'R').data
            I.write(lv('new_state'), vec(NS, lambda k: uf(nm, (k,), 'R')))
        it.loop_contracts[CLS + '::make_one_step'] = [Inv(inv, lambda I, v: sub(add(mul(I_(2), RET), I_(2)), v('retry')), bind=bind)]
        n = 0
        for q in G.call(it, method(prog, CLS, 'make_one_step'), evolver(boolc(simplified)), [L0, L1, vec(NS, LAST), vec(NS, START), vec(NC, CTL), Sym('Controlcomponent', var('problem', 'O'), True)], [le(I_(0), NS), le(I_(0), NC), le(I_(0), RET)]):
            if q.kind != 'ok': continue
            n += 1
            it.state = q.state
            r, x, l, u = [it.rv(v) for v in (q.value[0], q.value[2][3], q.value[2][2], q.value[2][4])]
            G.prove('returns only successful steps', q.pc, r.f['success'])
            G.prove('the state handed back is the accepted one', q.pc + [le(I_(0), k), lt(k, NS)], and_(eq(x.n, NS), eq(x.at(k), ST(L1, k))))
            G.prove('last state and control are unchanged', q.pc + [le(I_(0), k)], and_(eq(l.n, NS), eq(u.n, NC), eq(l.at(k), LAST(k)), eq(u.at(k), CTL(k))))
        if not n: raise ExtractError('make_one_step never returns')
        G.collect(it)
    for simp in (False, True): S.group('make_one_step (%s Newton)' % ('simplified' if simp else 'full'), lambda G, simp=simp: one(G, simp))

    # ---- the whole simulation
    def simulate(G, cls, control):
        it = G.interp(prog)
        store = 'values' if cls == 'InterpolatingVector' else 'mapped_values'
        saved = Struct(cls, {'interpolation_points': Vec(NT, Fn(T_), 'std'), 'inner_length': NS, store: vec(mul(NS, NT), OLD)})
        ctl = Sym('InterpolatingVector_Base', var('controls_iv', 'O'), True)
        it.contracts['InterpolatingVector_Base::get_inner_length'] = lambda I, b, a, n: NC if isinstance(I.read(b), Sym) else I.read(b).f['inner_length']
        nc = NC if control else I_(0)

        def at_time(I, base, a, nd):
            t = I.rv(a[0])
            return vec(NC, lambda k: CT(t, k))
        it.contracts['InterpolatingVector_Base::operator()'] = at_time

        def triplets(I, base, a, nd):
            p, t0, t1, l, x, u = [I.rv(v) for v in a]
            I.oblige('sizes of the structure evaluation', and_(eq(l.n, NS), eq(x.n, NS), eq(u.n, nc)), '', 'pre')
        it.contracts['Newtonsolver::evaluate_state_derivative_triplets'] = triplets

        def step(I, base, a, nd):
            t0, t1, l, x, u, p = [I.rv(v) for v in a]
            I.oblige('a step goes from one time point to the next', eq(t0, PRED(t1)), '', 'pre')
            same_vec(I, 'a step starts from the state stored for the preceding time', l, NS, lambda k: ST(t0, k))
            same_vec(I, 'a step uses the controls of exactly its time', u, nc, lambda k: CT(t1, k))
            I.oblige('size of the new state', eq(x.n, NS), '', 'pre')
            if not I.branch(fresh('step_succeeds', 'B')):
                I.state.ghost = dict(I.state.ghost, failed=t1)
                raise ThrowEx('gthrow')
            I.write(a[3], vec(NS, lambda k: ST(t1, k)))
            return result(TRUE)
        it.contracts[CLS + '::make_one_step'] = step
        i1 = fresh('i', 'I')
        # j, k: any position of the storage (ghost constants)
        pre = [le(I_(0), j), lt(j, NT), le(I_(0), k), lt(k, NS), le(I_(2), NT), le(I_(0), NS), le(I_(0), mul(NS, NT)), le(I_(1), NC) if control else eq(NC, I_(0)), sorted_(Vec(NT, Fn(T_), 'std'), True),
               forall(i1, implies(and_(le(I_(1), i1), lt(i1, NT)), eq(PRED(T_(i1)), T_(sub(i1, I_(1)))))),
               forall(i1, implies(and_(le(I_(0), i1), lt(i1, NS)), eq(ST(T_(I_(0)), i1), INIT(i1))))]
        n = 0
        for q in G.call(it, method(prog, CLS, 'simulate'), evolver(var('use_simplified', 'B')), [vec(NS, INIT), ctl, Sym('Controlcomponent', var('problem', 'O'), True), saved], pre):
            it.state = q.state
            o = it.rv(q.value[2][3]) if q.kind == 'ok' else it.rv(it.last_args[3])
            v = member(it, o, store)
            h = q.pc
            got = v.at(add(mul(j, NS), k))
            if q.kind != 'ok':
                f = q.state.ghost.get('failed')
                G.prove('fails only where a step fails', q.pc, boolc(f is not None))
                if f is not None: G.prove('nothing is stored for the failed or a later time', h + [le(f, T_(j))], eq(got, OLD(add(mul(j, NS), k))))
                continue
            n += 1
            G.prove('the stored times are the prescribed grid', q.pc + [le(I_(0), j), lt(j, NT)], and_(eq(o.f['interpolation_points'].n, NT), eq(o.f['interpolation_points'].at(j), T_(j))))
            G.prove('the storage keeps its size', h, eq(v.n, mul(NS, NT)))
            G.prove('the first time point stores the initial state', h + [eq(j, I_(0))], eq(got, INIT(k)))
            G.prove('every later time point stores the state accepted for it', h + [le(I_(1), j)], eq(got, ST(T_(j), k)))
        if not n: raise ExtractError('simulate never returns')
        G.collect(it)
    for cls in ('InterpolatingVector', 'MappedInterpolatingVector'):
        for c in (True, False): S.group('simulate (%s controls, into %s)' % ('with' if c else 'without', cls), lambda G, c=c, cls=cls: simulate(G, cls, c))

    # ---- the optimizer's cache holds exactly the states of a simulation that succeeded, or reports the failure
    from ..units import opt
    po = opt()

    def cached(G, cls):
        it = G.interp(po)
        store = 'values' if cls == 'InterpolatingVector' else 'mapped_values'
        cp = lambda k: uf('control_times', (k,), 'R')
        cv = lambda k: uf('control_values', (k,), 'R')
        m = var('control_steps', 'I')
        ctl = Struct(cls, {'interpolation_points': Vec(m, Fn(cp), 'std'), 'inner_length': NC, store: vec(mul(NC, m), cv)})
        SIM = lambda k: uf('simulated', (k,), 'R')

        def simulate(I, base, a, nd):
            x0, c, p, s = [I.rv(v) for v in a]
            same_vec(I, 'simulated from the initial state', x0, NS, INIT)
            same_vec(I, 'simulated with the given controls', member(I, c, store) if c.cls == cls else c.f['values'], mul(NC, m), cv)
            same_vec(I, 'simulated with the given control times', c.f['interpolation_points'], m, cp)
            same_vec(I, 'simulated on the prescribed grid', s.f['interpolation_points'], NT, T_)
            I.oblige('one state per time point', eq(s.f['inner_length'], NS), '', 'pre')
            if not I.branch(fresh('simulation_succeeds', 'B')): raise ThrowEx('gthrow')
            I.write(a[3], s.with_('values', vec(mul(NS, NT), SIM)))
        it.contracts[CLS + '::simulate'] = simulate
        old = Struct('InterpolatingVector', {'interpolation_points': Vec(var('old.n', 'I'), Fn(lambda k: uf('old_time', (k,), 'R')), 'std'), 'inner_length': var('old.inner', 'I'), 'values': vec(var('old.values', 'I'), lambda k: uf('old_value', (k,), 'R'))})
        entry = lambda nm: Struct('Cacheentry', {'control': old, 'state_timepoints': vec(var(nm + '.nt', 'I'), lambda k: uf(nm + '.t', (k,), 'R')), 'initial_state': vec(var(nm + '.ns', 'I'), lambda k: uf(nm + '.x', (k,), 'R'))})
        ob = Struct('ControlStateCache', {'evolver': Ptr(it.alloc(evolver(var('use_simplified', 'B')))), 'cache': Tup([entry('cached'), old]), 'failed': entry('failed')})
        pre = [le(I_(2), NT), le(I_(0), NS), le(I_(0), NC), le(I_(1), m), le(I_(0), mul(NS, NT)), le(I_(0), mul(NC, m)), sorted_(Vec(NT, Fn(T_), 'std'), True), sorted_(Vec(m, Fn(cp), 'std'), True), le(I_(0), k)]
        ok = 0
        for q in G.call(it, method(po, 'ControlStateCache', 'refresh_cache'), ob, [Sym('Controlcomponent', var('problem', 'O'), True), ctl, vec(NT, T_), vec(NS, INIT)], pre):
            if q.kind != 'ok':
                G.prove('does not fail', q.pc, FALSE)
                continue
            it.state = q.state
            st = it.rv(q.value[1]).f['cache'].d[1]
            w = st.f['interpolation_points']
            if q.value[0] is TRUE:
                ok += 1
                G.prove('success: exactly the simulated states, on the prescribed grid', q.pc, and_(eq(st.f['inner_length'], NS), eq(w.n, NT), eq(st.f['values'].n, mul(NS, NT)), eq(w.at(k), T_(k)), eq(st.f['values'].at(k), SIM(k))))
            else: G.prove('failure is reported as such', q.pc, not_(q.value[0]))
        if not ok: raise ExtractError('refresh_cache never succeeds')
        G.collect(it)
    for cls in ('InterpolatingVector', 'ConstMappedInterpolatingVector'): S.group('ControlStateCache::refresh_cache (%s)' % cls, lambda G, cls=cls: cached(G, cls))


NATIVE = ('c02', ('model', 'opt'), 60, 400)
