"""C05: AC power-flow equations at power nodes and their Jacobians."""
from ..session import *
from ..units import model
from .common import *
from .c03 import cmp


def state_vec(name, n=None):
    return Vec(n or var('n', 'I'), Fn(lambda i: uf(name, (i,), 'R'), 1, name))


def node(it, cls, m):
    """a power node with m attached lines"""
    nd = it.make(cls, 'node')
    f = dict(nd.f)
    f['attached_component_data'] = Vec(m, Fn(lambda i: Tup([uf('line_G', (i,), 'R'), uf('line_B', (i,), 'R'), Sym('Powernode', uf('line_other', (i,), 'O'))]), 1, 'lines'))
    return Struct(cls, f)


def edges(it, ns, ne):
    """the edges attached to the node under contract (Network::Node, see C19)"""
    it.symfields['starting_edges'] = Fn(lambda o: Vec(ns, Fn(lambda i: Sym('Edge', uf('start_edge', (i,), 'O')), 1)), 1)
    it.symfields['ending_edges'] = Fn(lambda o: Vec(ne, Fn(lambda i: Sym('Edge', uf('end_edge', (i,), 'O')), 1)), 1)


def V_of(it, o):
    """state index of the node object o"""
    return it.symfield('Powernode', 'state_startindex').get(o)


def power(it, nd, x, m, reactive):
    G_, B_ = nd.f['G'], nd.f['B']
    s = nd.f['state_startindex']
    Vi, pi = x.at(s), x.at(add(s, I_(1)))
    k = fresh('k', 'I')
    o = uf('line_other', (k,), 'O')
    sk = V_of(it, o)
    Vk, pk = x.at(sk), x.at(add(sk, I_(1)))
    Gk, Bk = uf('line_G', (k,), 'R'), uf('line_B', (k,), 'R')
    d = sub(pi, pk)
    c, sn = uf_cos(d), uf_sin(d)
    if reactive:
        return add(-mul(B_, Vi, Vi), sum_(k, I_(0), m, mul(Vi, Vk, sub(mul(Gk, sn), mul(Bk, c)))))
    return add(mul(G_, Vi, Vi), sum_(k, I_(0), m, mul(Vi, Vk, add(mul(Gk, c), mul(Bk, sn)))))


def uf_cos(d): return uf('cos', (d,), 'R')
def uf_sin(d): return uf('sin', (d,), 'R')


def run(S):
    prog = model()
    m, n = var('m', 'I'), var('n', 'I')
    k = var('k', 'I')
    row, col = var('row', 'I'), var('col', 'I')
    x, xl = state_vec('new_state', n), state_vec('last_state', n)
    root = Vec(n, Fn(lambda i: uf('root0', (i,), 'R'), 1, 'root'))
    J0 = Fn(lambda r, c: uf('J0', (r, c), 'R'), 2, 'J')
    t0, t1 = var('last_time', 'R'), var('new_time', 'R')

    def bv(I, b, a, nd):
        t = I.rv(a[0])
        return Vec(I_(2), Fn(lambda i: uf('boundary', (t, i), 'R'), 1, 'boundary'))

    def setup(G, cls):
        it = G.interp(prog)
        it.contracts['InterpolatingVector_Base::operator()'] = bv
        nd = node(it, cls, m)
        s = nd.f['state_startindex']
        j = fresh('j', 'I')
        oj = V_of(it, uf('line_other', (j,), 'O'))
        pre = [le(I_(0), m), le(I_(0), s), lt(add(s, I_(1)), n),
               forall(j, implies(and_(le(I_(0), j), lt(j, m)), and_(le(I_(0), oj), lt(add(oj, I_(1)), n))))]
        return it, nd, s, pre

    # ---- the power sums
    for fn, reac in (('P', 0), ('Q', 1)):
        def f(G, fn=fn, reac=reac):
            it, nd, s, pre = setup(G, 'PQnode')
            for p in G.call(it, prog.find('Powernode::' + fn), nd, [x], pre):
                G.post(it, '%s is the AC power-flow sum' % fn, p, [], lambda: eq(p.value[0], power(it, nd, x, m, reac)) if p.kind == 'ok' else FALSE)
            G.collect(it)
        S.group('Powernode::' + fn, f)

        def g(G, fn=fn, reac=reac):
            it, nd, s, pre = setup(G, 'PQnode')
            e = var('equationindex', 'I')
            for p in G.call(it, prog.find('Powernode::evaluate_%s_derivative' % fn), nd, [e, handler(J0), x], pre):
                if p.kind != 'ok':
                    G.prove('does not throw', p.pc, FALSE)
                    continue
                it.state = p.state
                J = it.rv(p.value[2][1]).f['J']
                d = diff(power(it, nd, x, m, reac), wrt_uf('new_state', col))
                G.post(it, 'row holds the exact derivative of %s' % fn, p, [], lambda: eq(J.get(e, col), add(J0.get(e, col), d)))
                G.post(it, 'other rows untouched', p, [not_(eq(row, e))], lambda: eq(J.get(row, col), J0.get(row, col)))
            G.collect(it)
        S.group('Powernode::evaluate_%s_derivative' % fn, g)

    # ---- collecting the attached lines
    def helper(G):
        it = G.interp(prog)
        it.assume_isa.add('Powernode')
        it.contracts['Statecomponent::setup_output_json_helper'] = lambda I, b, a, nd: None
        ns, ne = var('n_start', 'I'), var('n_end', 'I')
        nd = it.make('PQnode', 'node')
        edges(it, ns, ne)
        for p in G.call(it, prog.find('Powernode::setup_helper'), nd, [], [le(I_(0), ns), le(I_(0), ne)]):
            if p.kind != 'ok':
                G.prove('does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[1]).f['attached_component_data']
            kk, j = fresh('t', 'I'), fresh('j', 'I')
            fun = lambda g, b, o: uf('anyfun', (g, b, o), 'R')

            def val(v):
                v = it.rv(v) if isinstance(v, LV) else v
                return v.t if isinstance(v, Sym) else v

            def spec(nm, N, other):
                e = uf(nm, (j,), 'O')
                return sum_(j, I_(0), N, ite(uf('isa_Transmissionline', (e,), 'B'), fun(it.symfield('Transmissionline', 'G').get(e), it.symfield('Transmissionline', 'B').get(e), val(it.symfield('Edge', other).get(e))), R(0)))

            def goal():
                e = out.at(kk)
                got = sum_(kk, I_(0), out.n, fun(e.d[0], e.d[1], val(e.d[2])))
                return eq(got, add(spec('start_edge', ns, 'ending_node'), spec('end_edge', ne, 'starting_node')))
            G.post(it, 'every attached line contributes once, with its admittance and the node at its other end', p, [], goal)
        G.collect(it)
    S.group('Powernode::setup_helper', helper)

    # ---- node types: which residual goes into which row
    b0, b1 = uf('boundary', (t1, I_(0)), 'R'), uf('boundary', (t1, I_(1)), 'R')

    def ntype(G, cls, spec):
        it, nd, s, pre = setup(G, cls)
        P_, Q_ = power(it, nd, x, m, 0), power(it, nd, x, m, 1)
        want = spec(nd, P_, Q_, x.at(s), x.at(add(s, I_(1))))
        for p in G.call(it, method(prog, cls, 'evaluate'), nd, [root, t0, t1, xl, x], pre):
            if p.kind != 'ok':
                G.prove('evaluate does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[2][0])
            for i in (0, 1):
                G.post(it, 'residual %d' % i, p, [], lambda: eq(out.at(add(s, I_(i))), want[i]))
            G.post(it, 'other rows untouched', p, [not_(eq(row, s)), not_(eq(row, add(s, I_(1))))], lambda: eq(out.at(row), root.at(row)))
        for fn, w in (('d_evaluate_d_new_state', 'new_state'), ('d_evaluate_d_last_state', 'last_state')):
            for p in G.call(it, method(prog, cls, fn), nd, [handler(J0), t0, t1, xl, x], pre):
                if p.kind != 'ok':
                    G.prove(fn + ' does not throw', p.pc, FALSE)
                    continue
                it.state = p.state
                J = it.rv(p.value[2][0]).f['J']
                for i in (0, 1):
                    d = diff(want[i], wrt_uf(w, col))
                    G.post(it, '%s: row %d is exact' % (fn, i), p, [], lambda: eq(J.get(add(s, I_(i)), col), add(J0.get(add(s, I_(i)), col), d)))
                G.post(it, fn + ': other rows untouched', p, [not_(eq(row, s)), not_(eq(row, add(s, I_(1))))], lambda: eq(J.get(row, col), J0.get(row, col)))
        for p in G.call(it, method(prog, cls, 'needed_number_of_states'), nd, [], pre):
            G.prove('two states', p.pc, eq(p.value[0], I_(2)) if p.kind == 'ok' else FALSE)
        it2 = G.interp(prog)
        it2.contracts['Powernode::setup_helper'] = lambda I, b, ar, nd_: I.state.ghost.__setitem__('helper', I.state.ghost.get('helper', 0) + 1)
        edges(it2, var('n_start', 'I'), var('n_end', 'I'))
        for p in G.call(it2, method(prog, cls, 'setup'), nd, [], pre + [le(I_(0), var('n_start', 'I')), le(I_(0), var('n_end', 'I'))]):
            if p.kind == 'ok': G.prove('setup collects the attached lines', p.pc, boolc(p.state.ghost.get('helper', 0) >= 1))
        G.collect(it)
    for cls, spec in (('PQnode', lambda nd, P_, Q_, V, ph: [sub(P_, b0), sub(Q_, b1)]),
                      ('PVnode', lambda nd, P_, Q_, V, ph: [sub(P_, b0), sub(V, b1)]),
                      ('Vphinode', lambda nd, P_, Q_, V, ph: [sub(V, b0), sub(ph, b1)]),
                      ('ExternalPowerplant', lambda nd, P_, Q_, V, ph: [sub(V, b0), sub(ph, b1)]),
                      ('StochasticPQnode', lambda nd, P_, Q_, V, ph: [sub(P_, nd.f['current_P']), sub(Q_, nd.f['current_Q'])])):
        S.group(cls, lambda G, cls=cls, spec=spec: ntype(G, cls, spec))

    # ---- construction and preparation
    def ctor(G):
        it = G.interp(prog)
        it.contracts['Node::Node'] = lambda I, b, ar, nd: None
        it.contracts['Edge::Edge'] = lambda I, b, ar, nd: None
        it.contracts['InterpolatingVector::construct_from_json'] = lambda I, b, ar, nd: Struct('InterpolatingVector', {'src': I.rv(ar[0])})
        js = var('topology', 'J')
        real = lambda f: uf('json_real', (uf('json_at', (js, strc(f)), 'J'),), 'R')
        for cls in ('Powernode', 'Transmissionline'):
            def go(cls=cls):
                a = [it.alloc(js)]
                if cls == 'Transmissionline': a.append(it.alloc(it.symbolic('std::vector<std::unique_ptr<Network::Node>>', 'nodes')))
                return it.read(it.lib.construct_class(cls, a, None))
            for p in it.explore(go, State()):
                if p.kind != 'ok':
                    G.prove('constructor does not throw', p.pc, FALSE)
                    continue
                for f in ('G', 'B'):
                    G.prove('%s: %s is taken from the entry of that name' % (cls, f), p.pc, eq(p.value.f[f], real(f)))
                if cls == 'Powernode':
                    bvv = p.value.f['boundaryvalue']
                    G.prove('boundary values come from their entry', p.pc, eq(bvv.f['src'], uf('json_at', (js, strc('boundary_values')), 'J')))
        G.collect(it)
    S.group('Powernode and Transmissionline construction', ctor)
NATIVE = ('c05', ('model',), 60, 3000)
