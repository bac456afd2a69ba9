"""C08: gas-power plants: generated power, its derivative, the coupling equations and Jacobians; smoothed absolute value."""
from ..session import *
from ..units import model
from .common import *
from .c05 import state_vec, edges, uf_cos

CLS = 'Gaspowerconnection'
KAPPA = 60


def piecewise(G, it, fv, fd, this, x, pre, outer, borders):
    """fv is outer(side)(x) outside the borders, fd is its exact derivative everywhere, and fv is
    continuously differentiable at the borders"""
    base = State(pc=list(pre))

    def go():
        lv = it.alloc(this) if this is not None else None
        return it.rv(it.call_def(fv, lv, [it.alloc(x)])), it.rv(it.call_def(fd, lv, [it.alloc(x)]))
    ps = it.explore(go, base)
    e = var('eps', 'R')
    inner = []
    for i, p in enumerate(ps):
        if p.kind != 'ok':
            G.prove('no exception (path %d)' % i, p.pc, FALSE)
            continue
        v, d = p.value
        lo, hi = borders
        for nm, hyp, w in (('below the transition', lt(x, lo), outer(-1)), ('above the transition', lt(hi, x), outer(1))):
            G.prove('value %s (path %d)' % (nm, i), p.pc + [hyp], eq(v, w))
            G.prove('derivative %s (path %d)' % (nm, i), p.pc + [hyp], eq(d, diff(w, x)))
        G.prove('derivative is exact inside the transition (path %d)' % i, p.pc + [lt(lo, x), lt(x, hi)], eq(d, diff(v, x)))
        # one-sided limits at the borders: any piece reaching up to a border has the border value and slope there
        for b, side in ((lo, -1), (hi, 1)):
            w = outer(side)
            sub_ = lambda t, y: subst(t, {x: y})
            for s, nm in ((add(b, e), 'right'), (sub(b, e), 'left')):
                h = [sub_(c, s) for c in p.pc] + [lt(R(0), e), lt(e, div(sub(hi, lo), R(2)))] + list(pre)
                G.prove('continuous at a border from the %s (path %d)' % (nm, i), h, eq(sub_(v, b), sub_(w, b)))
                G.prove('derivative continuous at a border from the %s (path %d)' % (nm, i), h, eq(sub_(d, b), sub_(diff(w, x), b)))
            h = [sub_(c, b) for c in p.pc]
            G.prove('value at a border (path %d)' % i, h, eq(sub_(v, b), sub_(w, b)))
            G.prove('derivative at a border (path %d)' % i, h, eq(sub_(d, b), sub_(diff(w, x), b)))
        if Ctx(p.pc).sat(and_(lt(lo, x), lt(x, hi))): inner.append((p.pc, v))
    for j in range(1, len(inner)):
        G.prove('one smooth transition', list(pre) + [lt(borders[0], x), lt(x, borders[1])], eq(inner[0][1], inner[j][1]))


def run(S):
    prog = model()
    s, n, pw = var('state_startindex', 'I'), var('n', 'I'), var('plant_startindex', 'I')
    x, xl = state_vec('new_state', n), state_vec('last_state', n)
    root = Vec(n, Fn(lambda i: uf('root0', (i,), 'R'), 1, 'root'))
    J0 = Fn(lambda a, b: uf('J0', (a, b), 'R'), 2, 'J')
    t0, t1, q = var('last_time', 'R'), var('new_time', 'R'), var('q', 'R')
    r, c = var('row', 'I'), var('col', 'I')
    plant = var('plant', 'O')
    row = add(s, I_(1))

    def edge(it):
        o = it.make(CLS, 'edge')
        f = dict(o.f)
        f['state_startindex'], f['state_afterindex'] = s, add(s, I_(2))
        f['powerendnode'] = Sym('ExternalPowerplant', plant, nonnull=True)
        return Struct(CLS, f)
    C = prog.find

    def power(G):
        it = G.interp(prog)
        ed = edge(it)
        g2p, p2g = ed.f['gas2power_q_coefficient'], ed.f['power2gas_q_coefficient']
        piecewise(G, it, C(CLS + '::generated_power'), C(CLS + '::dgenerated_power_dq'), ed, q, [],
                  lambda side: mul(g2p if side > 0 else p2g, q), (R(-KAPPA), R(KAPPA)))
        G.collect(it)
    S.group('generated power', power)

    def sabs(G):
        it = G.interp(prog)
        e = var('Aux.epsilon', 'R')
        piecewise(G, it, C('smooth_abs'), C('dsmooth_abs_dx'), None, q, [lt(R(0), e)], lambda side: mul(R(side), q), (-e, e))
        G.collect(it)
    S.group('smooth_abs', sabs)

    gen = lambda v: uf('gen', (v,), 'R')
    pre = [le(I_(0), s), lt(row, n), le(I_(0), pw), lt(add(pw, I_(1)), n)]

    def plantP(I, b, a, nd):
        st = I.rv(a[0])
        j = fresh('j', 'I')
        I.oblige('plant power is evaluated at the new state', and_(eq(I.rv(b).t, plant), eq(st.at(j), x.at(j))), '', 'pre')
        return var('plant_P', 'R')

    def plantD(I, b, a, nd):
        rr, st = I.rv(a[0]), I.rv(a[2])
        j = fresh('j', 'I')
        I.oblige('plant derivative is evaluated at the new state', and_(eq(I.rv(b).t, plant), eq(st.at(j), x.at(j))), '', 'pre')
        h = I.read(a[1])
        old = h.f['J']
        I.write(a[1].sub(('f', 'J')), Fn(lambda y, z: add(old.get(y, z), ite(eq(y, rr), uf('plant_dP', (z,), 'R'), R(0))), 2, 'J'))

    def eqs(G):
        it = G.interp(prog)
        it.contracts['Powernode::P'] = plantP
        it.contracts['Powernode::evaluate_P_derivative'] = plantD
        it.contracts[CLS + '::generated_power'] = lambda I, b, a, nd: gen(I.rv(a[0]))
        it.contracts[CLS + '::dgenerated_power_dq'] = lambda I, b, a, nd: uf('dgen', (I.rv(a[0]),), 'R')
        it.symfields['state_startindex'] = Fn(lambda o: pw, 1)
        ed = edge(it)
        for p in G.call(it, method(prog, CLS, 'evaluate'), ed, [root, t0, t1, xl, x], pre):
            if p.kind != 'ok':
                G.prove('evaluate does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[2][0])
            G.post(it, 'the plant produces exactly the power generated from the gas flow', p, [], lambda: eq(out.at(row), sub(var('plant_P', 'R'), gen(x.at(row)))))
            G.post(it, 'only its own row is written', p, [not_(eq(r, row))], lambda: eq(out.at(r), root.at(r)))
        for p in G.call(it, method(prog, CLS, 'd_evaluate_d_new_state'), ed, [handler(J0), t0, t1, xl, x], pre):
            if p.kind != 'ok':
                G.prove('d_evaluate_d_new_state does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            J = it.rv(p.value[2][0]).f['J']
            G.post(it, 'row holds the exact derivative', p, [], lambda: eq(J.get(row, c), add(J0.get(row, c), uf('plant_dP', (c,), 'R'), ite(eq(c, row), -uf('dgen', (x.at(row),), 'R'), R(0)))))
            G.post(it, 'other rows untouched', p, [not_(eq(r, row))], lambda: eq(J.get(r, c), J0.get(r, c)))
        for p in G.call(it, method(prog, CLS, 'd_evaluate_d_last_state'), ed, [handler(J0), t0, t1, xl, x], pre):
            if p.kind != 'ok':
                G.prove('d_evaluate_d_last_state does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            G.post(it, 'no dependence on the old state', p, [], lambda: eq(it.rv(p.value[2][0]).f['J'].get(r, c), J0.get(r, c)))
        for p in G.call(it, method(prog, CLS, 'needed_number_of_states'), ed, [], pre):
            G.prove('two states', p.pc, eq(p.value[0], I_(2)) if p.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('Gaspowerconnection', eqs)

    def setup(G):
        it = G.interp(prog)
        it.contracts['Statecomponent::setup_output_json_helper'] = lambda I, b, a, nd: None
        ed = it.make(CLS, 'edge')
        ok = uf('isa_ExternalPowerplant', (it.make(CLS, 'edge').f['ending_node'].t,), 'B')
        for p in G.call(it, method(prog, CLS, 'setup'), ed, [], []):
            if p.kind != 'ok':
                G.prove('only an ending node that is no power plant is refused', p.pc, not_(ok))
                continue
            it.state = p.state
            v = it.rv(p.value[1]).f
            G.post(it, 'the coupled plant is the ending node', p, [], lambda: and_(ok, eq(v['powerendnode'].t, v['ending_node'].t)))
        G.collect(it)
    S.group('Gaspowerconnection::setup', setup)

    def ctor(G):
        it = G.interp(prog)
        it.contracts['Edge::Edge'] = lambda I, b, ar, nd: None
        js = var('topology', 'J')

        def go():
            return it.read(it.lib.construct_class(CLS, [it.alloc(js), it.alloc(it.symbolic('std::vector<std::unique_ptr<Network::Node>>', 'nodes'))], None))
        for p in it.explore(go, State()):
            if p.kind != 'ok':
                G.prove('constructor does not throw', p.pc, FALSE)
                continue
            for f, k in (('gas2power_q_coefficient', 'gas2power_q_coeff'), ('power2gas_q_coefficient', 'power2gas_q_coeff')):
                G.prove('%s is taken from the entry %s' % (f, k), p.pc, eq(p.value.f[f], uf('json_real', (uf('json_at', (js, strc(k)), 'J'),), 'R')))
        G.collect(it)
    S.group('Gaspowerconnection construction', ctor)
NATIVE = ('c08', ('model',), 60, 3000)
