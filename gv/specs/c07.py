"""C07: short pipes, control valves, compressors and constrained sinks: equations, costs, constraints, derivatives."""
from ..session import *
from ..units import model
from .common import *
from .c05 import state_vec
from .c06 import gasnode, attached, interface, E, D, START, END


def run(S):
    prog = model()
    s, cs, n, nc = var('state_startindex', 'I'), var('control_startindex', 'I'), var('n', 'I'), var('n_controls', 'I')
    x, xl, u = state_vec('new_state', n), state_vec('last_state', n), state_vec('control', nc)
    root = Vec(n, Fn(lambda i: uf('root0', (i,), 'R'), 1, 'root'))
    J0 = Fn(lambda a, b: uf('J0', (a, b), 'R'), 2, 'J')
    t0, t1 = var('last_time', 'R'), var('new_time', 'R')
    r, c = var('row', 'I'), var('col', 'I')
    at = lambda i: add(s, I_(i))
    pre = [le(I_(0), s), le(at(4), n), le(I_(0), cs), lt(cs, nc)]

    def comp(it, cls):
        o = it.make(cls, 'edge')
        f = dict(o.f)
        f['state_startindex'], f['state_afterindex'] = s, at(4)
        if cls != 'Shortpipe': f['control_startindex'], f['control_afterindex'] = cs, add(cs, I_(1))
        return Struct(cls, f)

    def values(G, it, cls, want, args):
        for p in G.call(it, method(prog, cls, 'evaluate'), comp(it, cls), [root, t0, t1, xl, x] + args, pre):
            if p.kind != 'ok':
                G.prove('evaluate does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[2][0])
            for i, w in want.items():
                G.post(it, 'equation %d' % i, p, [], lambda: eq(out.at(at(i)), w))
            G.post(it, 'only its own rows are written', p, [not_(eq(r, at(i))) for i in want], lambda: eq(out.at(r), root.at(r)))

    def matrix(G, it, cls, fn, want, args, wrt, what):
        """want: row -> function; the handler must receive its exact derivative"""
        for p in G.call(it, method(prog, cls, fn), comp(it, cls), args, pre):
            if p.kind != 'ok':
                G.prove(fn + ' does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            J = it.rv(p.value[2][0]).f['J']
            for i, w in want:
                G.post(it, '%s: row %s' % (what, i), p, [], lambda: eq(J.get(i, c), add(J0.get(i, c), diff(w, wrt_uf(wrt, c)))))
            G.post(it, '%s: other rows untouched' % what, p, [not_(eq(r, i)) for i, w in want], lambda: eq(J.get(r, c), J0.get(r, c)))

    def component(G, cls, want, ctrl):
        it = G.interp(prog)
        a = [u] if ctrl else []
        values(G, it, cls, want, a)
        rows = [(at(i), w) for i, w in want.items()]
        for fn, wrt in (('d_evaluate_d_new_state', 'new_state'), ('d_evaluate_d_last_state', 'last_state')) + ((('d_evaluate_d_control', 'control'),) if ctrl else ()):
            matrix(G, it, cls, fn, rows, [handler(J0), t0, t1, xl, x] + a, wrt, fn)
        sizes = [('needed_number_of_states', 4)] + ([('needed_number_of_controls_per_time_point', 1)] if ctrl else [])
        for fn, w in sizes:
            for p in G.call(it, method(prog, cls, fn), comp(it, cls), [], pre):
                G.prove(fn, p.pc, eq(p.value[0], I_(w)) if p.kind == 'ok' else FALSE)
        G.collect(it)
    p0, q0, p1, q1 = [x.at(at(i)) for i in range(4)]
    uu = u.at(cs)
    S.group('Shortpipe', lambda G: component(G, 'Shortpipe', {1: sub(p0, p1), 2: sub(q0, q1)}, False))
    S.group('Controlvalve', lambda G: component(G, 'Controlvalve', {1: add(sub(p1, p0), uu), 2: sub(q1, q0)}, True))
    S.group('Compressorstation', lambda G: component(G, 'Compressorstation', {1: sub(sub(p1, p0), uu), 2: sub(q1, q0)}, True))

    def cost(G):
        cls = 'Compressorstation'
        it = G.interp(prog)
        w = comp(it, cls).f['cost_weight']
        for fn, want in (('cost', mul(w, uu, uu)), ('penalty', R(0))):
            for p in G.call(it, method(prog, cls, 'evaluate_' + fn), comp(it, cls), [t1, x, u], pre):
                G.prove('running %s' % fn, p.pc, eq(p.value[0], want) if p.kind == 'ok' else FALSE)
            for wrt, nm in (('state', 'new_state'), ('control', 'control')):
                matrix(G, it, cls, 'd_evaluate_%s_d_%s' % (fn, wrt), [(I_(0), want)], [handler(J0), t1, x, u], nm, 'd%s/d%s' % (fn, wrt))
        G.collect(it)
    S.group('Compressorstation cost and penalty', cost)

    def sink(G):
        cls = 'ConstraintSink'
        it = G.interp(prog)
        it.contracts['Gasedge::get_boundary_state_index'] = lambda I, b, a, nd: uf('edge_state', (I.rv(b).t, I.rv(a[0])), 'I')
        it.contracts['Gasedge::get_boundary_state'] = lambda I, b, a, nd: (lambda k, v: Mat(2, 1, [v.at(k), v.at(add(k, I_(1)))]))(uf('edge_state', (I.rv(b).t, I.rv(a[0])), 'I'), I.rv(a[1]))
        m, cst, nct = var('m', 'I'), var('constraint_startindex', 'I'), var('n_constraints', 'I')
        nd = gasnode(it, cls, m)
        f = dict(nd.f)
        f['constraint_startindex'], f['constraint_afterindex'] = cst, add(cst, I_(1))
        nd = Struct(cls, f)
        k = uf('edge_state', (E(I_(0)), D(I_(0))), 'I')
        pre = attached(m) + [lt(I_(0), m), le(I_(0), cst), lt(cst, nct), le(I_(0), k), lt(add(k, I_(1)), n)]
        cv = Vec(nct, Fn(lambda i: uf('constraint0', (i,), 'R'), 1, 'con'))
        want = x.at(k)
        for p in G.call(it, method(prog, cls, 'evaluate_constraint'), nd, [cv, t1, x, u], pre):
            if p.kind != 'ok':
                G.prove('evaluate_constraint does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[2][0])
            G.post(it, 'the constraint is the first state variable at the sink of the first attached edge', p, [], lambda: eq(out.at(cst), want))
            G.post(it, 'only its own constraint is written', p, [not_(eq(r, cst))], lambda: eq(out.at(r), cv.at(r)))
        for fn, wrt in (('d_evaluate_constraint_d_state', 'new_state'), ('d_evaluate_constraint_d_control', 'control')):
            for p in G.call(it, method(prog, cls, fn), nd, [handler(J0), t1, x, u], pre):
                if p.kind != 'ok':
                    G.prove(fn + ' does not throw', p.pc, FALSE)
                    continue
                it.state = p.state
                J = it.rv(p.value[2][0]).f['J']
                G.post(it, fn, p, [], lambda: eq(J.get(cst, c), add(J0.get(cst, c), diff(want, wrt_uf(wrt, c)))))
                G.post(it, fn + ': other rows untouched', p, [not_(eq(r, cst))], lambda: eq(J.get(r, c), J0.get(r, c)))
        for p in G.call(it, method(prog, cls, 'needed_number_of_constraints_per_time_point'), nd, [], pre):
            G.prove('one constraint', p.pc, eq(p.value[0], I_(1)) if p.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('ConstraintSink', sink)
NATIVE = ('c07', ('model',), 60, 3000)
