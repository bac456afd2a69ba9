"""C16: stochastic demands stay in their band, steps are stable, samples respect their bounds."""
from ..session import *
from ..units import model
from ..interp import ThrowEx
from ..loops import Inv
from .common import *
from .. import cxx

A_, TH, DT, N = var('stability_parameter', 'R'), var('theta', 'R'), var('delta_t', 'R'), var('requested_steps', 'I')
CUT, MU, SIG, LAST = var('cut_off_factor', 'R'), var('mu', 'R'), var('sigma', 'R'), var('last_value', 'R')
K = var('stable_steps', 'I')
real = lambda i: lift(i, 'R')
S_ = lambda i: uf('sample', (i,), 'R')
Y = lambda i: uf('process', (i,), 'R')
MEAN, SD, LO, UP = var('mean', 'R'), var('standard_deviation', 'R'), var('lower_bound', 'R'), var('upper_bound', 'R')


def run(S):
    prog = model()

    # ---- number of sub-steps
    def steps(G):
        it = G.interp(prog)
        fd = prog.find('compute_stable_number_of_oup_steps')
        valid = and_(lt(R(0), A_), lt(A_, R(2)), le(R(0), TH), le(I_(0), N))
        n = 0
        for q in G.call(it, fd, None, [A_, TH, DT, N], [lt(R(0), DT)]):
            if q.kind != 'ok':
                G.prove('refuses only invalid parameters', q.pc, not_(valid))
                continue
            n += 1
            r = q.value[0]
            G.prove('accepts only valid parameters', q.pc, valid)
            G.prove('at least one step', q.pc, le(I_(1), r))
            G.prove('the stability bound holds', q.pc, lt(mul(TH, DT), mul(A_, real(r))))
            G.prove('never fewer steps than requested', q.pc, le(N, r))
            G.prove('a request that is stable is honoured', q.pc + [lt(mul(TH, DT), mul(A_, real(N)))], eq(r, N))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('compute_stable_number_of_oup_steps', steps)

    # ---- the process
    def em(y, h, s): return add(y, mul(TH, sub(MU, y), h), mul(SIG, s))

    def cut(v):
        lo, hi = mul(sub(R(1), CUT), MU), mul(add(R(1), CUT), MU)
        below, above = ite(lt(R(0), MU), lt(v, lo), and_(lt(MU, R(0)), lt(lo, v))), ite(lt(R(0), MU), lt(hi, v), and_(lt(MU, R(0)), lt(v, hi)))
        return ite(below, lo, ite(above, hi, v))

    def oup(G):
        it = G.interp(prog)
        h = div(DT, real(K))

        def stable(I, base, a, nd):
            g = [I.rv(v) for v in a]
            I.oblige('the number of steps is chosen for this process and interval', and_(eq(g[0], A_), eq(g[1], TH), eq(g[2], DT), eq(g[3], N)), I.loc(nd), 'pre')
            return K
        it.contracts['compute_stable_number_of_oup_steps'] = stable

        def sample(I, base, a, nd):
            sd = I.rv(a[-1])
            I.oblige('samples have variance of the sub-step width', and_(le(R(0), sd), eq(mul(sd, sd), h)), I.loc(nd), 'pre')
            if len(a) == 2: I.oblige('samples have mean zero', eq(I.rv(a[0]), R(0)), I.loc(nd), 'pre')
            i = I.state.ghost.get('i')
            if i is None: raise Unsupported('sample outside the step loop')
            return S_(i)
        it.contracts['Normaldistribution::get_sample'] = sample
        fds = [d for d in prog.funcs.get('euler_maruyama_oup', []) if cxx.Program.body(d) is not None and 'Normaldistribution' in str(d.get('type', {}).get('qualType', ''))]
        if not fds: raise ExtractError('euler_maruyama_oup is not instantiated')

        def inv(I, v):
            i = v('i')
            return [('number of finished steps', and_(le(I_(0), i), le(i, K))), ('the value is that of the process after so many steps', eq(v('current_value'), Y(i))),
                    ('!', eq(Y(add(i, I_(1))), cut(em(Y(i), h, S_(i)))))]

        def bind(I, lv): I.state.ghost = dict(I.state.ghost, i=I.rv(lv('i')))
        it.loop_contracts['euler_maruyama_oup'] = [Inv(inv, lambda I, v: sub(K, v('i')), bind=bind)]
        dist = Sym('Normaldistribution', var('distribution', 'O'), True)
        # the contract of the step count (group above), the band is meant for a non-negative factor
        pre = [le(I_(1), K), lt(R(0), DT), lt(mul(TH, DT), mul(A_, real(K))), le(R(0), CUT), eq(Y(I_(0)), LAST)]
        n = 0
        for q in G.call(it, fds[0], None, [A_, CUT, LAST, TH, MU, DT, SIG, dist, N], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            n += 1
            r = q.value[0]
            G.prove('the result is the Ornstein-Uhlenbeck process after all steps', q.pc, eq(r, Y(K)))
            last = sub(K, I_(1))
            step = eq(Y(K), cut(em(Y(last), h, S_(last))))      # definition of the process
            G.prove('the result stays in the band around the mean', q.pc + [step, lt(R(0), MU)], and_(le(mul(sub(R(1), CUT), MU), r), le(r, mul(add(R(1), CUT), MU))))
            G.prove('the result stays in the band around a negative mean', q.pc + [step, lt(MU, R(0))], and_(le(r, mul(sub(R(1), CUT), MU)), le(mul(add(R(1), CUT), MU), r)))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('euler_maruyama_oup', oup)

    # ---- samples
    def truncated(G, args, lo, up, mean, sd):
        it = G.interp(prog)

        def normal(I, base, a, nd):
            I.oblige('samples are drawn with the given mean and deviation', and_(eq(I.rv(a[0]) if len(a) == 2 else R(0), mean), eq(I.rv(a[-1]), sd)), I.loc(nd), 'pre')
            return fresh('sample', 'R')
        it.contracts['Normaldistribution::get_sample'] = normal
        fds = [d for d in prog.funcs.get('Truncatednormaldist::get_sample', []) if cxx.Program.body(d) is not None and len(params(d)) == len(args)]
        if len(fds) != 1: raise ExtractError('Truncatednormaldist::get_sample')
        four = [d for d in prog.funcs.get('Truncatednormaldist::get_sample', []) if cxx.Program.body(d) is not None and len(params(d)) == 4][0]
        it.loop_contracts['Truncatednormaldist::get_sample'] = [Inv(lambda I, v: [('trials', le(I_(0), v('counter')))])]
        n = 0
        for q in G.call(it, fds[0], Struct('Truncatednormaldist', {'normaldist': Struct('Normaldistribution', {})}), args, [le(R(0), sd)]):
            if q.kind != 'ok': continue
            n += 1
            G.prove('a sample lies between its bounds', q.pc, and_(le(lo, q.value[0]), le(q.value[0], up)))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    two = mul(R(2), SD)
    S.group('Truncatednormaldist::get_sample(mean, deviation, bounds)', lambda G: truncated(G, [MEAN, SD, LO, UP], LO, UP, MEAN, SD))
    S.group('Truncatednormaldist::get_sample(mean, deviation)', lambda G: truncated(G, [MEAN, SD], sub(MEAN, two), add(MEAN, two), MEAN, SD))
    S.group('Truncatednormaldist::get_sample(deviation, bounds)', lambda G: truncated(G, [SD, LO, UP], LO, UP, R(0), SD))
    S.group('Truncatednormaldist::get_sample(deviation)', lambda G: truncated(G, [SD], -two, two, R(0), SD))

    def normal(G):
        it = G.interp(prog)

        def draw(I, a, nd):
            gen, p = I.rv(a[0]), I.rv(a[1])
            I.oblige('draws with its own generator', eq(gen, var('generator', 'O')), '', 'pre')
            return uf('normal', (p.d[0], p.d[1]), 'R')
        for args, mean in (([MEAN, SD], MEAN), ([SD], R(0))):
            fds = [d for d in prog.funcs.get('Normaldistribution::get_sample', []) if cxx.Program.body(d) is not None and len(params(d)) == len(args)]
            for q in G.call(it, fds[0], Struct('Normaldistribution', {'dist': draw, 'generator': var('generator', 'O')}), args, []):
                G.prove('draws from the normal distribution with the given parameters', q.pc, eq(q.value[0], uf('normal', (mean, SD), 'R')) if q.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('Normaldistribution::get_sample', normal)

    # ---- the node
    def prepare(G):
        it = G.interp(prog)
        t0, t1 = var('last_time', 'R'), var('new_time', 'R')
        P_, Q_ = (lambda x: uf('P', (x,), 'R')), (lambda x: uf('Q', (x,), 'R'))
        seen = []
        fields = {f: var(f, 'R') for f in ('cut_off_factor', 'stability_parameter', 'sigma_P', 'theta_P', 'sigma_Q', 'theta_Q')}
        it.contracts['InterpolatingVector_Base::operator()'] = lambda I, b, a, nd: (lambda t: Vec(I_(2), Fn(lambda i: uf('boundary', (t, i), 'R'))))(I.rv(a[0]))
        xl = Vec(var('n', 'I'), Fn(lambda i: uf('last_state', (i,), 'R')), 'vec')

        def power(nm):
            def h(I, base, a, nd):
                k = fresh('k', 'I')
                v = I.rv(a[0])
                I.oblige(nm + ' is that of the last state', eq(v.at(k), xl.at(k)), I.loc(nd), 'pre')
                return var('last_' + nm, 'R')
            return h
        it.contracts['Powernode::P'], it.contracts['Powernode::Q'] = power('P'), power('Q')
        it.contracts['euler_maruyama_oup'] = lambda I, base, a, nd: uf('ou_process', tuple(lift(I.rv(v), 'R') for i, v in enumerate(a) if i != 7), 'R')
        sd = it.alloc(Struct('StochasticData', dict(fields, distribution=Struct('Normaldistribution', {}), number_of_stochastic_steps=N)))
        nd = it.make('StochasticPQnode', 'node')
        nd = nd.with_('stochasticdata', Ptr(sd))
        b = lambda i: uf('boundary', (t1, I_(i)), 'R')
        for q in G.call(it, method(prog, 'StochasticPQnode', 'prepare_timestep'), nd, [t0, t1, xl], [lt(t0, t1)]):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            it.state = q.state
            o = it.rv(q.value[1]).f
            for nm, i in (('P', 0), ('Q', 1)):
                want = uf('ou_process', (fields['stability_parameter'], fields['cut_off_factor'], var('last_' + nm, 'R'), fields['theta_' + nm], b(i), sub(t1, t0), fields['sigma_' + nm], real(N)), 'R')
                G.prove('%s of the step is the process with the parameters of %s around its boundary value at the new time' % (nm, nm), q.pc, eq(o['current_' + nm], want))
        G.collect(it)
    S.group('StochasticPQnode::prepare_timestep', prepare)

    # ---- construction: every parameter from the entry of its name; reproducible random numbers
    names = ['stability_parameter', 'cut_off_factor', 'sigma_P', 'theta_P', 'sigma_Q', 'theta_Q']
    js = var('topology', 'J')
    seed = lambda i: uf('given_seed', (I_(i),), 'I')
    rnd = lambda i: uf('random_seed', (I_(i),), 'I')

    def ctor(G):
        it = G.interp(prog)
        it.contracts['Powernode::Powernode'] = lambda I, b, a, nd: None
        it.contracts['make_random_seed'] = lambda I, b, a, nd: Tup([rnd(i) for i in range(8)])

        def rng(I, base, a, nd): return uf('generator', tuple(I.rv(a[0]).d), 'O')
        it.contracts['setup_random_number_generator'] = rng
        out = it.alloc(var('output', 'J'))
        it.contracts['Statecomponent::get_output_json_ref'] = lambda I, b, a, nd: out
        n = 0
        for q in it.explore(lambda: it.read(it.lib.construct_class('StochasticPQnode', [it.alloc(js)], None)), it.state.clone()):
            if q.kind != 'ok':
                G.prove('refuses only a seed of the wrong length', q.pc, not_(eq(uf('json_size', (uf('json_at', (uf('json_at', (js, strc('boundary_values')), 'J'), strc('seed')), 'J'),), 'I'), I_(8))))
                continue
            n += 1
            it.state = q.state
            d = it.read(q.value.f['stochasticdata'].lv).f
            at = lambda j, f: uf('json_at', (j, strc(f)), 'J')
            for f in names: G.prove(f + ' is taken from the entry of that name', q.pc, eq(d[f], uf('json_real', (at(js, f),), 'R')))
            G.prove('number of steps', q.pc, eq(d['number_of_stochastic_steps'], uf('json_int', (at(js, 'number_of_stochastic_steps'),), 'I')))
            has = uf('json_has', (at(js, 'boundary_values'), strc('seed')), 'B')
            sj = at(at(js, 'boundary_values'), 'seed')
            given = tuple(uf('json_int', (uf('json_idx', (sj, I_(i)), 'J'),), 'I') for i in range(8))
            g = d['distribution'].f['generator']
            G.prove('a given seed is used', q.pc + [has], eq(g, uf('generator', given, 'O')))
            G.prove('without one a random seed is used', q.pc + [not_(has)], eq(g, uf('generator', tuple(rnd(i) for i in range(8)), 'O')))
        if n < 2: raise ExtractError('the constructor has only one outcome')
        G.collect(it)
    S.group('StochasticPQnode construction', ctor)


NATIVE = ('c16', ('model',), 60, 2000)
