"""C09: index ranges partition the vectors; the problem dispatches every call exactly once to every component."""
from ..session import *
from ..units import model
from .common import *
from .c05 import state_vec

CLS = 'Networkproblem'
LISTS = (('equationcomponents', 'Equationcomponent', 'eq'), ('statecomponents', 'Statecomponent', 'st'), ('controlcomponents', 'Controlcomponent', 'ct'),
         ('costcomponents', 'Costcomponent', 'co'), ('constraintcomponents', 'Constraintcomponent', 'cn'))


def problem(it, N):
    o = it.make(CLS, 'problem')
    f = dict(o.f)
    for fld, cls, s in LISTS:
        f[fld] = Vec(N[s], Fn(lambda i, s=s, cls=cls: Sym(cls, uf('comp_' + s, (i,), 'O'), nonnull=True), 1, fld))
    f['cost_weight'] = f['penalty_weight'] = R(1)      # see the construction group
    return Struct(CLS, f)


def obj(it, e):
    e = it.rv(e) if isinstance(e, LV) else e
    return it.rv(e.lv) if isinstance(e, Ptr) and e.lv is not None else e


def vec(v): return v if isinstance(v, Vec) else vec_of(v)


def C(s, i): return uf('comp_' + s, (i,), 'O')


def run(S):
    prog = model()
    N = {s: var('n_' + s, 'I') for _, _, s in LISTS}
    npos = [le(I_(0), v) for v in N.values()]
    n, nc, ncn = var('n', 'I'), var('n_controls', 'I'), var('n_constraints', 'I')
    x, xl, u = state_vec('new_state', n), state_vec('last_state', n), state_vec('control', nc)
    t0, t1 = var('last_time', 'R'), var('new_time', 'R')
    r, c = var('row', 'I'), var('col', 'I')
    k = fresh('k', 'I')
    J0 = Fn(lambda a, b: uf('J0', (a, b), 'R'), 2, 'J')

    def args_ok(I, a, want):
        """the arguments handed to the component are the problem's own"""
        j = fresh('j', 'I')
        for v, w in zip(a, want):
            v = I.rv(v)
            if isinstance(w, Vec): I.oblige('the component receives the right vector', and_(eq(vec(v).n, w.n), eq(vec(v).at(j), w.at(j))), '', 'pre')
            else: I.oblige('the component receives the right time', eq(v, w), '', 'pre')

    # ---- distribution of the calls. A component's contribution to a vector or matrix is modelled as
    # added to it, so that a component skipped or called twice changes the sum.
    def vector_call(name, want):
        def f(I, b, a, nd):
            o = I.rv(b).t
            args_ok(I, a[1:], want)
            old = vec(I.rv(a[0]))
            I.write(a[0], Vec(old.n, Fn(lambda i: add(old.at(i), uf(name, (o, i), 'R')), 1)))
        return f

    def matrix_call(name, want):
        def f(I, b, a, nd):
            o = I.rv(b).t
            args_ok(I, a[1:], want)
            old = I.read(a[0]).f['J']
            I.write(a[0].sub(('f', 'J')), Fn(lambda i, j: add(old.get(i, j), uf(name, (o, i, j), 'R')), 2, 'J'))
        return f

    def scalar_call(name, want):
        def f(I, b, a, nd):
            args_ok(I, a, want)
            return uf(name, (I.rv(b).t,), 'R')
        return f

    eq_args, ct_args = [t0, t1, xl, x], [t0, t1, xl, x, u]

    def distribute(G, fn, kind, parts, first, args):
        """parts: [(interface, list suffix, wanted arguments)]"""
        it = G.interp(prog)
        for cls, s, want in parts:
            mk = vector_call if kind == 'vector' else matrix_call if kind == 'matrix' else scalar_call
            it.contracts['%s::%s' % (cls, fn)] = mk(s + '_' + fn, want)
        for p in G.call(it, method(prog, CLS, fn), problem(it, N), first + args, npos):
            if p.kind != 'ok':
                G.prove('does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            if kind == 'vector':
                out = it.rv(p.value[2][0])
                G.post(it, 'every component contributes exactly once', p, [], lambda: eq(out.at(r), add(first[0].at(r), *[sum_(k, I_(0), N[s], uf(s + '_' + fn, (C(s, k), r), 'R')) for _, s, _ in parts])))
            elif kind == 'matrix':
                J = it.rv(p.value[2][0]).f['J']
                G.post(it, 'every component contributes exactly once', p, [], lambda: eq(J.get(r, c), add(J0.get(r, c), *[sum_(k, I_(0), N[s], uf(s + '_' + fn, (C(s, k), r, c), 'R')) for _, s, _ in parts])))
            else:
                G.post(it, 'sum over all components', p, [], lambda: eq(p.value[0], add(*[sum_(k, I_(0), N[s], uf(s + '_' + fn, (C(s, k),), 'R')) for _, s, _ in parts])))
        G.collect(it)
    both = [('Equationcomponent', 'eq', eq_args), ('Controlcomponent', 'ct', ct_args)]
    root = Vec(n, Fn(lambda i: uf('root0', (i,), 'R'), 1, 'root'))
    con = Vec(ncn, Fn(lambda i: uf('con0', (i,), 'R'), 1, 'con'))
    at = [t1, x, u]
    G_ = lambda fn, kind, parts, first, args: S.group(CLS + '::' + fn, lambda G: distribute(G, fn, kind, parts, first, args))
    G_('evaluate', 'vector', both, [root], ct_args)
    for fn in ('d_evaluate_d_new_state', 'd_evaluate_d_last_state'): G_(fn, 'matrix', both, [handler(J0)], ct_args)
    G_('d_evaluate_d_control', 'matrix', both[1:], [handler(J0)], ct_args)
    cost, cons = [('Costcomponent', 'co', at)], [('Constraintcomponent', 'cn', at)]
    for w in ('cost', 'penalty'):
        G_('evaluate_' + w, 'scalar', cost, [], at)
        for v in ('state', 'control'): G_('d_evaluate_%s_d_%s' % (w, v), 'matrix', cost, [handler(J0)], at)
    G_('evaluate_constraint', 'vector', cons, [con], at)
    for v in ('state', 'control'): G_('d_evaluate_constraint_d_' + v, 'matrix', cons, [handler(J0)], at)

    # ---- calls without a result: counted with an arbitrary weight per component
    def counted(G, fn, parts, args):
        it = G.interp(prog)
        g = var('ghost_counter', 'O')
        it.symfields['ghost_total'] = Fn(lambda o: R(0), 1)

        def ghost_call(s, want):
            def f(I, b, a, nd):
                args_ok(I, a, want)
                fld = I.symfield('ghost', 'ghost_total')
                I.state.sym['ghost_total'] = fld.set((g,), add(fld.get(g), uf('w_' + s, (I.rv(b).t,), 'R')))
            return f
        for cls, s, want in parts: it.contracts['%s::%s' % (cls, fn)] = ghost_call(s, want)
        for p in G.call(it, method(prog, CLS, fn), problem(it, N), args, npos):
            if p.kind != 'ok':
                G.prove('does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            G.post(it, 'every component is called exactly once', p, [], lambda: eq(it.symfield('ghost', 'ghost_total').get(g), add(*[sum_(k, I_(0), N[s], uf('w_' + s, (C(s, k),), 'R')) for _, s, _ in parts])))
        G.collect(it)
    S.group(CLS + '::setup', lambda G: counted(G, 'setup', [('Equationcomponent', 'eq', []), ('Controlcomponent', 'ct', [])], []))
    S.group(CLS + '::prepare_timestep', lambda G: counted(G, 'prepare_timestep', [('Equationcomponent', 'eq', [t0, t1, xl]), ('Controlcomponent', 'ct', [t0, t1, xl, u])], [t0, t1, xl, u]))
    S.group(CLS + '::json_save', lambda G: counted(G, 'json_save', [('Statecomponent', 'st', [t1, x])], [t1, x]))
    S.group(CLS + '::add_results_to_json', lambda G: counted(G, 'add_results_to_json', [('Statecomponent', 'st', [])], [var('json', 'J')]))
    S.group(CLS + '::save_controls_to_json', lambda G: counted(G, 'save_controls_to_json', [('Controlcomponent', 'ct', [])], [Struct('InterpolatingVector_Base', {}), var('json', 'J')]))

    def init(G):
        it = G.interp(prog)
        fi = {w: var('first_' + w, 'I') for w in ('state', 'control', 'constraint')}
        for w in fi:
            def f(I, b, a, nd, w=w):
                I.oblige('%s indices begin at the given index' % w, eq(I.rv(a[0]), fi[w]), '', 'pre')
                I.state.ghost[w] = I.state.ghost.get(w, 0) + 1
                return var('next_' + w, 'I')
            it.contracts['%s::set_%s_indices' % (CLS, w)] = f

        def setup(I, b, a, nd): I.state.ghost['setup'] = tuple(I.state.ghost.get(w, 0) for w in fi)
        it.contracts[CLS + '::setup'] = setup
        for p in G.call(it, prog.find(CLS + '::init'), problem(it, N), list(fi.values()), npos):
            G.prove('all indices are set before the components are set up', p.pc, boolc(p.kind == 'ok' and p.state.ghost.get('setup') == (1, 1, 1)))
        G.collect(it)
    S.group(CLS + '::init', init)

    # ---- index ranges
    def indices(G, what, lst, s, cls):
        fn = 'set_%s_indices' % what
        it = G.interp(prog)
        start, after = what + '_startindex', what + '_afterindex'
        size = lambda o: uf('size_' + what, (o,), 'I')
        st0 = var('next_free', 'I')

        def comp(I, b, a, nd):
            o, nx = I.rv(b), I.rv(a[0])
            for fld, v in ((start, nx), (after, add(nx, size(o.t)))):
                f = I.symfield(cls, fld)
                I.state.sym[fld] = f.set((o.t,), v)
            return add(nx, size(o.t))
        it.contracts['%s::%s' % (cls, fn)] = comp
        i = var('i', 'I')
        rng = and_(le(I_(0), i), lt(i, N[s]))
        j = fresh('j', 'I')
        distinct = forall(j, implies(and_(le(I_(0), j), lt(j, N[s])), eq(uf('slot_' + s, (C(s, j),), 'I'), j)))
        pre = npos + [distinct, rng]
        ob = problem(it, N)
        for p in G.call(it, method(prog, CLS, fn), ob, [st0], pre):
            if p.kind != 'ok':
                G.prove('does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            upto = lambda m: add(st0, sum_(k, I_(0), m, size(C(s, k))))
            new = it.rv(p.value[1])
            G.post(it, 'the next free index is the end of the last range', p, [], lambda: eq(p.value[0], upto(N[s])))
            G.post(it, 'the ranges cover the vector', p, [], lambda: and_(eq(new.f[start], st0), eq(new.f[after], upto(N[s]))))
            G.post(it, 'a range begins where the preceding one ends', p, [], lambda: eq(it.symfield(cls, start).get(C(s, i)), upto(i)))
            G.post(it, 'a range has the requested size', p, [], lambda: eq(it.symfield(cls, after).get(C(s, i)), add(upto(i), size(C(s, i)))))
        G.collect(it)
    for what, lst, s, cls in (('state', 'statecomponents', 'st', 'Statecomponent'), ('control', 'controlcomponents', 'ct', 'Controlcomponent'), ('constraint', 'constraintcomponents', 'cn', 'Constraintcomponent')):
        S.group('%s::set_%s_indices' % (CLS, what), lambda G, a=(what, lst, s, cls): indices(G, *a))

    def simple(G, what, cls, need, leaf):
        it = G.interp(prog)
        start, after = what + '_startindex', what + '_afterindex'
        it.contracts['%s::%s' % (cls[0], need)] = lambda I, b, a, nd: var('needed', 'I')
        nx = var('next_free', 'I')
        o = it.make(cls[1], 'component')
        for p in G.call(it, prog.find('%s::set_%s_indices' % (cls[1], what)), o, [nx], []):
            if p.kind != 'ok':
                G.prove('does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            f = it.rv(p.value[1]).f
            G.prove('the component owns exactly the range it asked for', p.pc, and_(eq(f[start], nx), eq(f[after], add(nx, var('needed', 'I'))), eq(p.value[0], add(nx, var('needed', 'I')))))
        it2 = G.interp(prog)
        o = it2.make(cls[1], 'component')
        for g, w in (('get_%s_startindex' % what, o.f[start]), ('get_%s_afterindex' % what, o.f[after])):
            for p in G.call(it2, prog.find('%s::%s' % (cls[0], g)), o, [], []):
                if p.kind == 'ok': G.prove(g, p.pc, and_(eq(p.value[0], w), le(I_(0), w)))
                else: G.prove(g + ' refuses only before the indices are set', p.pc, lt(w, I_(0)))
        for p in G.call(it2, prog.find('%s::%s' % (cls[0], leaf)), o, [], [le(I_(0), o.f[start]), le(o.f[start], o.f[after])]):
            G.prove(leaf, p.pc, eq(p.value[0], sub(o.f[after], o.f[start])) if p.kind == 'ok' else FALSE)
        G.collect(it)
        G.collect(it2)
    for what, cls, need, leaf in (('state', ('Statecomponent', 'SimpleStatecomponent'), 'needed_number_of_states', 'get_number_of_states'),
                                  ('control', ('Controlcomponent', 'SimpleControlcomponent'), 'needed_number_of_controls_per_time_point', 'get_number_of_controls_per_timepoint'),
                                  ('constraint', ('Constraintcomponent', 'SimpleConstraintcomponent'), 'needed_number_of_constraints_per_time_point', 'get_number_of_constraints_per_timepoint')):
        S.group(cls[1], lambda G, a=(what, cls, need, leaf): simple(G, *a))

    # ---- construction: each list holds every network element of its kind exactly once
    def ctor(G):
        it = G.interp(prog)
        nn, ne = var('n_nodes', 'I'), var('n_edges', 'I')
        it.contracts['Net::get_nodes'] = lambda I, b, a, nd: Vec(nn, Fn(lambda i: Sym('Node', uf('node', (i,), 'O'), nonnull=True), 1))
        it.contracts['Net::get_edges'] = lambda I, b, a, nd: Vec(ne, Fn(lambda i: Sym('Edge', uf('edge', (i,), 'O'), nonnull=True), 1))

        def go():
            return it.read(it.lib.construct_class(CLS, [it.alloc(it.symbolic('std::unique_ptr<Network::Net>', 'net'))], None))
        for p in it.explore(go, State(pc=[le(I_(0), nn), le(I_(0), ne)])):
            if p.kind != 'ok':
                G.prove('does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            f = p.value.f
            for fld, cls, s in LISTS:
                j = fresh('j', 'I')
                fun = lambda o: uf('anyfun', (o,), 'R')
                isa = lambda o: uf('isa_' + cls, (o,), 'B')

                def goal():
                    e = f[fld].at(j)
                    e = obj(it, e)
                    spec = lambda nm, M: sum_(k, I_(0), M, ite(isa(uf(nm, (k,), 'O')), fun(uf(nm, (k,), 'O')), R(0)))
                    return eq(sum_(j, I_(0), f[fld].n, fun(e.t)), add(spec('node', nn), spec('edge', ne)))
                G.post(it, '%s: every network element of this kind exactly once' % fld, p, [], goal)
            for w in ('cost_weight', 'penalty_weight'): G.prove('the problem has unit ' + w, p.pc, eq(f[w], R(1)))
        G.collect(it)
    S.group('Networkproblem construction', ctor)
NATIVE = ('c09', ('model',), 60, 3000)
