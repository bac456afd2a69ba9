"""C06: gas nodes equate pressures and balance flows; edges' pressure/flow maps and boundary rows."""
from ..session import *
from ..units import model
from .common import *
from .c03 import cmp, P, bar, alpha, c2
from .c05 import state_vec, edges

START, END = I_(1), I_(-1)


def interface(it):
    """the Gasedge interface through its contract: an edge end has an equation row, a pressure and a
    flow which are functions of the state; dboundary_p_qvol_dstate adds function_derivative * d(p,q)/dstate"""
    def beq(I, b, a, n):
        return row(I.rv(b).t, I.rv(a[0]))

    def pq(I, b, a, n):
        o, d = I.rv(b).t, I.rv(a[0])
        return Mat(2, 1, [press(o, d), flow(o, d)])

    def dpq(I, b, a, n):
        o, d = I.rv(b).t, I.rv(a[0])
        f, r = I.rv(a[2]), I.rv(a[3])
        h = I.read(a[1])
        old = h.f['J']
        f0, f1 = [lift(x, 'R') for x in f.d]
        I.write(a[1].sub(('f', 'J')), Fn(lambda x, y: add(old.get(x, y), ite(eq(x, r), add(mul(f0, dpress(o, d, y)), mul(f1, dflow(o, d, y))), R(0))), 2, 'J'))
    it.contracts['Gasedge::boundary_equation_index'] = beq
    it.contracts['Gasedge::get_boundary_p_qvol_bar'] = pq
    it.contracts['Gasedge::dboundary_p_qvol_dstate'] = dpq


def row(o, d): return uf('edge_row', (o, d), 'I')
def press(o, d): return uf('edge_p', (o, d), 'R')
def flow(o, d): return uf('edge_q', (o, d), 'R')
def dpress(o, d, c): return uf('edge_dp', (o, d, c), 'R')
def dflow(o, d, c): return uf('edge_dq', (o, d, c), 'R')
def E(i): return uf('att_edge', (i,), 'O')
def D(i): return uf('att_dir', (i,), 'I')


def gasnode(it, cls, m):
    nd = it.make(cls, 'node')
    f = dict(nd.f)
    f['directed_attached_gas_edges'] = Vec(m, Fn(lambda i: Tup([D(i), Sym('Gasedge', E(i), nonnull=True)]), 1, 'att'))
    return Struct(cls, f)


def attached(m, n=None):
    """what setup establishes: directions are +-1, edges are distinct, edge ends own distinct rows"""
    i = fresh('i', 'I')
    rng = and_(le(I_(0), i), lt(i, m))
    rr = row(E(i), D(i))
    pre = [le(I_(0), m),
           forall(i, implies(rng, or_(eq(D(i), START), eq(D(i), END)))),
           forall(i, implies(rng, eq(uf('slot', (E(i),), 'I'), i))),
           forall(i, implies(rng, eq(uf('rowslot', (rr,), 'I'), i)))]
    if n is not None: pre.append(forall(i, implies(rng, and_(le(I_(0), rr), lt(rr, n)))))
    return pre


def run(S):
    prog = model()
    m, n = var('m', 'I'), var('n', 'I')
    t, r, c = var('t', 'I'), var('row', 'I'), var('col', 'I')
    x, xl = state_vec('new_state', n), state_vec('last_state', n)
    root = Vec(n, Fn(lambda i: uf('root0', (i,), 'R'), 1, 'root'))
    J0 = Fn(lambda a, b: uf('J0', (a, b), 'R'), 2, 'J')
    t0, t1 = var('last_time', 'R'), var('new_time', 'R')
    k = fresh('k', 'I')
    inner = [le(I_(0), t), lt(t, sub(m, I_(1)))]
    last = sub(m, I_(1))
    rw = lambda i: row(E(i), D(i))
    i = fresh('i', 'I')
    foreign = forall(i, implies(and_(le(I_(0), i), lt(i, m)), not_(eq(rw(i), r))))
    dirR = lambda i: lift(D(i), 'R')
    bal = lambda pres: sub(sum_(k, I_(0), m, mul(dirR(k), flow(E(k), D(k)))), pres)
    dbal = sum_(k, I_(0), m, mul(dirR(k), dflow(E(k), D(k), c)))
    pre = attached(m, n)

    def bv(I, b, a, nd):
        tt = I.rv(a[0])
        return Vec(I_(1), Fn(lambda j: uf('boundary', (tt, j), 'R'), 1, 'boundary'))
    b0 = uf('boundary', (t1, I_(0)), 'R')

    def mk(G, cls):
        it = G.interp(prog)
        interface(it)
        it.contracts['InterpolatingVector_Base::operator()'] = bv
        return it, gasnode(it, cls, m)

    def flownode_checks(G, it, p, pres):
        it.state = p.state
        out = it.rv(p.value[2][0])
        G.post(it, 'neighbouring edges have equal pressure at the node', p, inner, lambda: eq(out.at(rw(t)), sub(press(E(add(t, I_(1))), D(add(t, I_(1)))), press(E(t), D(t)))))
        G.post(it, 'outgoing minus incoming flow equals the prescribed inflow', p, [lt(I_(0), m)], lambda: eq(out.at(rw(last)), bal(pres)))
        G.post(it, 'rows of other components are untouched', p, [foreign, le(I_(0), r), lt(r, n)], lambda: eq(out.at(r), root.at(r)))

    def jac_checks(G, it, p, hi):
        it.state = p.state
        J = it.rv(p.value[2][hi]).f['J']
        t1_ = add(t, I_(1))
        G.post(it, 'derivative of the pressure rows', p, inner, lambda: eq(J.get(rw(t), c), add(J0.get(rw(t), c), sub(dpress(E(t1_), D(t1_), c), dpress(E(t), D(t), c)))))
        G.post(it, 'derivative of the flow row', p, [lt(I_(0), m)], lambda: eq(J.get(rw(last), c), add(J0.get(rw(last), c), dbal)))
        G.post(it, 'matrix rows of other components are untouched', p, [foreign], lambda: eq(J.get(r, c), J0.get(r, c)))

    def bal_fn(G):
        it, nd = mk(G, 'Innode')
        pres = var('prescribed', 'R')
        for p in G.call(it, prog.find('Gasnode::evaluate_flow_node_balance'), nd, [root, x, pres], pre):
            if p.kind != 'ok': G.prove('does not throw', p.pc, FALSE)
            else: flownode_checks(G, it, p, pres)
        G.collect(it)
    S.group('Gasnode::evaluate_flow_node_balance', bal_fn)

    def der_fn(G):
        it, nd = mk(G, 'Innode')
        for p in G.call(it, prog.find('Gasnode::evaluate_flow_node_derivative'), nd, [handler(J0), x], pre):
            if p.kind != 'ok': G.prove('does not throw', p.pc, FALSE)
            else: jac_checks(G, it, p, 0)
        G.collect(it)
    S.group('Gasnode::evaluate_flow_node_derivative', der_fn)

    # ---- node types: checked against the contracts of the two functions above
    def at_row(rr, inner_v, last_v, other):
        j = uf('rowslot', (rr,), 'I')
        return ite(and_(le(I_(0), j), lt(j, m), eq(rw(j), rr)), ite(eq(j, last), last_v, inner_v(j)), other)

    def mine(I, b):
        at = I.read(b).f['directed_attached_gas_edges']
        j = fresh('j', 'I')
        e = at.at(j)
        I.oblige('called on this node', and_(eq(at.n, m), eq(I.rv(e.d[0]), D(j)), eq(I.rv(e.d[1]).t, E(j))), '', 'pre')

    def bal_contract(I, b, a, nd):
        mine(I, b)
        v = I.rv(a[2])
        st, old = I.rv(a[1]), I.rv(a[0])
        j = fresh('j', 'I')
        I.oblige('called with the new state', eq(st.at(j), x.at(j)), '', 'pre')
        I.write(a[0], Vec(old.n, Fn(lambda rr: at_row(rr, lambda j: sub(press(E(add(j, I_(1))), D(add(j, I_(1)))), press(E(j), D(j))), bal(v), old.at(rr)), 1)))

    def der_contract(I, b, a, nd):
        mine(I, b)
        st = I.rv(a[1])
        j = fresh('j', 'I')
        I.oblige('called with the new state', eq(st.at(j), x.at(j)), '', 'pre')
        h = I.read(a[0])
        old = h.f['J']
        kk = fresh('k', 'I')
        I.write(a[0].sub(('f', 'J')), Fn(lambda rr, cc: add(old.get(rr, cc), at_row(rr, lambda j: sub(dpress(E(add(j, I_(1))), D(add(j, I_(1))), cc), dpress(E(j), D(j), cc)),
                                                            sum_(kk, I_(0), m, mul(dirR(kk), dflow(E(kk), D(kk), cc))), R(0))), 2, 'J'))

    def ntype(G, cls, pres):
        it, nd = mk(G, cls)
        it.contracts['Gasnode::evaluate_flow_node_balance'] = bal_contract
        it.contracts['Gasnode::evaluate_flow_node_derivative'] = der_contract
        for p in G.call(it, method(prog, cls, 'evaluate'), nd, [root, t0, t1, xl, x], pre):
            if p.kind != 'ok': G.prove('evaluate does not throw', p.pc, FALSE)
            else: flownode_checks(G, it, p, pres)
        for p in G.call(it, method(prog, cls, 'd_evaluate_d_new_state'), nd, [handler(J0), t0, t1, xl, x], pre):
            if p.kind != 'ok': G.prove('d_evaluate_d_new_state does not throw', p.pc, FALSE)
            else: jac_checks(G, it, p, 0)
        for p in G.call(it, method(prog, cls, 'd_evaluate_d_last_state'), nd, [handler(J0), t0, t1, xl, x], pre):
            if p.kind != 'ok': G.prove('d_evaluate_d_last_state does not throw', p.pc, FALSE)
            else:
                it.state = p.state
                G.post(it, 'no dependence on the old state', p, [], lambda: eq(it.rv(p.value[2][0]).f['J'].get(r, c), J0.get(r, c)))
        G.collect(it)
    for cls, pres in (('Innode', R(0)), ('Source', b0), ('Sink', b0)):
        S.group(cls, lambda G, cls=cls, pres=pres: ntype(G, cls, pres))

    def pressure(G):
        cls = 'Pressureboundarynode'
        it, nd = mk(G, cls)
        rng = [le(I_(0), t), lt(t, m)]
        for p in G.call(it, method(prog, cls, 'evaluate'), nd, [root, t0, t1, xl, x], pre):
            if p.kind != 'ok':
                G.prove('evaluate does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[2][0])
            G.post(it, 'every attached edge has the prescribed pressure', p, rng, lambda: eq(out.at(rw(t)), sub(press(E(t), D(t)), b0)))
            G.post(it, 'rows of other components are untouched', p, [foreign, le(I_(0), r), lt(r, n)], lambda: eq(out.at(r), root.at(r)))
        for p in G.call(it, method(prog, cls, 'd_evaluate_d_new_state'), nd, [handler(J0), t0, t1, xl, x], pre):
            if p.kind != 'ok':
                G.prove('d_evaluate_d_new_state does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            J = it.rv(p.value[2][0]).f['J']
            G.post(it, 'derivative of the pressure rows', p, rng, lambda: eq(J.get(rw(t), c), add(J0.get(rw(t), c), dpress(E(t), D(t), c))))
            G.post(it, 'matrix rows of other components are untouched', p, [foreign], lambda: eq(J.get(r, c), J0.get(r, c)))
        for p in G.call(it, method(prog, cls, 'd_evaluate_d_last_state'), nd, [handler(J0), t0, t1, xl, x], pre):
            if p.kind != 'ok': G.prove('d_evaluate_d_last_state does not throw', p.pc, FALSE)
            else:
                it.state = p.state
                G.post(it, 'no dependence on the old state', p, [], lambda: eq(it.rv(p.value[2][0]).f['J'].get(r, c), J0.get(r, c)))
        G.collect(it)
    S.group('Pressureboundarynode', pressure)

    # ---- collecting the attached edges
    def helper(G, cls):
        it = G.interp(prog)
        ns, ne = var('n_start', 'I'), var('n_end', 'I')
        edges(it, ns, ne)
        nd = it.make(cls, 'node')
        for p in G.call(it, method(prog, cls, 'setup'), nd, [], [le(I_(0), ns), le(I_(0), ne)]):
            if p.kind != 'ok':
                G.prove('does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[1]).f['directed_attached_gas_edges']
            kk, j = fresh('t', 'I'), fresh('j', 'I')
            fun = lambda d, o: uf('anyfun', (d, o), 'R')

            def val(v):
                v = it.rv(v) if isinstance(v, LV) else v
                return v.t if isinstance(v, Sym) else v

            def spec(nm, N, d):
                e = uf(nm, (j,), 'O')
                return sum_(j, I_(0), N, ite(uf('isa_Gasedge', (e,), 'B'), fun(d, e), R(0)))

            def goal():
                e = out.at(kk)
                got = sum_(kk, I_(0), out.n, fun(e.d[0], val(e.d[1])))
                return eq(got, add(spec('start_edge', ns, START), spec('end_edge', ne, END)))
            G.post(it, 'every attached gas edge is collected once with its direction', p, [], goal)
        G.collect(it)
    for cls in ('Innode', 'Source', 'Sink', 'Pressureboundarynode'):
        S.group(cls + '::setup', lambda G, cls=cls: helper(G, cls))

    # ---- the edge side of the interface
    s, a = var('state_startindex', 'I'), var('state_afterindex', 'I')

    def edge(it, cls):
        o = it.make(cls, 'edge')
        f = dict(o.f)
        f['state_startindex'], f['state_afterindex'] = s, a
        return Struct(cls, f)

    def rows(G, cls):
        it = G.interp(prog)
        pre = [le(I_(0), s), lt(add(s, I_(2)), a)]
        for d, want, ws in ((START, s, s), (END, sub(a, I_(1)), sub(a, I_(2)))):
            for fn, w in (('boundary_equation_index', want), ('get_boundary_state_index', ws)):
                for p in G.call(it, prog.find('Gasedge::' + fn), edge(it, cls), [d], pre):
                    G.prove('%s(%s)' % (fn, 'start' if d is START else 'end'), p.pc, eq(p.value[0], w) if p.kind == 'ok' else FALSE)
        for fn, w in (('get_equation_start_index', add(s, I_(1))), ('get_equation_after_index', sub(a, I_(1)))):
            for p in G.call(it, prog.find('Gasedge::' + fn), edge(it, cls), [], pre):
                G.prove(fn, p.pc, eq(p.value[0], w) if p.kind == 'ok' else FALSE)
        G.collect(it)

    def pq(G, cls, spec, ends=(0, 1)):
        it = G.interp(prog)
        pre = [le(I_(0), s), lt(add(s, I_(2)), a) if 1 in ends else eq(a, add(s, I_(2))), le(a, n)]
        f0, f1, rr = var('f0', 'R'), var('f1', 'R'), var('rootvalues_index', 'I')
        it.handler_frame = lambda r_, c_: and_(eq(r_, rr), le(s, c_), lt(c_, a))
        for d, b in [((START, s), (END, sub(a, I_(2))))[e] for e in ends]:
            st = [x.at(b), x.at(add(b, I_(1)))]
            w, dom = spec(st)
            for p in G.call(it, method(prog, cls, 'get_boundary_p_qvol_bar'), edge(it, cls), [d, x], pre + dom):
                if p.kind != 'ok': G.prove('does not throw', p.pc, FALSE)
                else: cmp(G, 'pressure in bar and flow at the edge end', p.pc, p.value[0], Mat(2, 1, w))
            g = add(mul(f0, w[0]), mul(f1, w[1]))
            for p in G.call(it, method(prog, cls, 'dboundary_p_qvol_dstate'), edge(it, cls), [d, handler(J0), Mat(1, 2, [f0, f1]), rr, x], pre + dom):
                if p.kind != 'ok':
                    G.prove('does not throw', p.pc, FALSE)
                    continue
                it.state = p.state
                J = it.rv(p.value[2][1]).f['J']
                G.post(it, 'chain rule through the edge map', p, [], lambda: eq(J.get(rr, c), add(J0.get(rr, c), diff(g, wrt_uf('new_state', c)))))
                G.post(it, 'other rows untouched', p, [not_(eq(r, rr))], lambda: eq(J.get(r, c), J0.get(r, c)))
        G.collect(it)

    def pipemap(st):
        return [div(P(st[0]), bar), st[1]], [not_(eq(sub(R(1), mul(alpha, c2, st[0])), R(0)))]
    S.group('Gasedge rows', lambda G: rows(G, 'Pipe'))
    S.group('Pipe edge map', lambda G: pq(G, 'Pipe', pipemap))
    for cls in ('Shortpipe', 'Controlvalve', 'Compressorstation'):
        S.group(cls + ' edge map', lambda G, cls=cls: pq(G, cls, lambda st: (st, [])))
    # a gas-power connection has a gas end only at its start
    S.group('Gaspowerconnection edge map', lambda G: pq(G, 'Gaspowerconnection', lambda st: (st, []), (0,)))
NATIVE = ('c06', ('model',), 60, 3000)
