"""C04: pipes discretise the balance law with the implicit box scheme; exact Jacobians."""
from ..session import *
from ..units import model
from .common import *
from .c03 import cmp

CLS = 'Pipe'


def bl_contracts(it):
    """the balance law through its contract (C03): value functions of the state, with exact derivatives"""
    def vec(nm):
        def f(I, b, a, n):
            x = I.rv(a[0])
            return Mat(2, 1, [uf(nm + str(i), (x.d[0], x.d[1]), 'R') for i in (0, 1)])
        return f
    def mat(nm):
        def f(I, b, a, n):
            x = I.rv(a[0])
            return Mat(2, 2, [uf('D%d_%s%d' % (j, nm, i), (x.d[0], x.d[1]), 'R') for i in (0, 1) for j in (0, 1)])
        return f
    for c in ('Isothermaleulerequation', 'Balancelaw'):
        it.contracts[c + '::flux'] = vec('flux')
        it.contracts[c + '::source'] = vec('source')
        it.contracts[c + '::dflux_dstate'] = mat('flux')
        it.contracts[c + '::dsource_dstate'] = mat('source')


def box(dt, dx, ll, lr, nl, nr):
    F = lambda x, i: uf('flux%d' % i, tuple(x), 'R')
    S = lambda x, i: uf('source%d' % i, tuple(x), 'R')
    h = R(Fraction(1, 2))
    return [sub(sub(mul(h, add(nl[i], nr[i])), mul(h, add(ll[i], lr[i]))),
                add(mul(div(dt, dx), sub(F(nl, i), F(nr, i))), mul(h, dt, add(S(nr, i), S(nl, i))))) for i in (0, 1)]


def run(S):
    prog = model()
    V = lambda n: Mat(2, 1, [var(n + '0', 'R'), var(n + '1', 'R')])
    t0, t1, dx = var('last_time', 'R'), var('new_time', 'R'), var('Delta_x', 'R')

    # ---- the scheme at one point
    def scheme(G):
        it = G.interp(prog)
        bl_contracts(it)
        ll, lr, nl, nr = V('ll'), V('lr'), V('nl'), V('nr')
        bl = Struct('Isothermaleulerequation', {})
        want = box(sub(t1, t0), dx, ll.d, lr.d, nl.d, nr.d)
        pts = [ll, lr, nl, nr]
        for fn, args, w in (
                ('evaluate_point', [V('out'), t0, t1, dx] + pts + [bl], None),
                ('devaluate_point_d_last_left', [t0, t1, dx] + pts + [bl], ll),
                ('devaluate_point_d_last_right', [t0, t1, dx] + pts + [bl], lr),
                ('devaluate_point_d_new_left', [t0, t1, dx] + pts + [bl], nl),
                ('devaluate_point_d_new_right', [t0, t1, dx] + pts + [bl], nr)):
            fd = prog.find('Implicitboxscheme<2>::' + fn)
            for p in G.call(it, fd, Struct('Implicitboxscheme<2>', {}), args, [not_(eq(dx, R(0)))]):
                if p.kind != 'ok':
                    G.prove(fn + ' does not throw', p.pc, FALSE)
                    continue
                r, this, al = p.value
                it.state = p.state
                if w is None:
                    cmp(G, fn + ' is the box scheme', p.pc, it.rv(al[0]), Mat(2, 1, want))
                else:
                    cmp(G, fn + ' is the exact derivative', p.pc, r, Mat(2, 2, [diff(x, v) for x in want for v in w.d]))
        G.collect(it)
    S.group('Implicitboxscheme<2>', scheme)

    # ---- the pipe
    n = var('n', 'I')
    np_ = var('number_of_points', 'I')
    s = var('state_startindex', 'I')
    last = Vec(n, Fn(lambda i: uf('last_state', (i,), 'R'), 1, 'last_state'))
    new = Vec(n, Fn(lambda i: uf('new_state', (i,), 'R'), 1, 'new_state'))
    root = Vec(n, Fn(lambda i: uf('root0', (i,), 'R'), 1, 'root'))
    J0 = Fn(lambda r, c: uf('J0', (r, c), 'R'), 2, 'J')
    a = add(s, mul(I_(2), np_))
    k, r_, c_ = var('k', 'I'), var('row', 'I'), var('col', 'I')

    def pipe(it):
        p = it.make(CLS, 'pipe')
        f = dict(p.f)
        f['number_of_points'], f['Delta_x'] = np_, dx
        f['state_startindex'], f['state_afterindex'] = s, a
        sch = it.alloc(Struct('Implicitboxscheme<2>', {}))
        f['scheme'] = Ptr(sch)
        return Struct(CLS, f)
    pre = [le(I_(2), np_), le(I_(0), s), le(a, n), not_(eq(dx, R(0)))]
    row = lambda kk, c: add(s, I_(1 + c), mul(I_(2), kk))
    left = lambda v, kk: [v.at(add(s, mul(I_(2), kk), I_(i))) for i in (0, 1)]
    right = lambda v, kk: [v.at(add(s, mul(I_(2), kk), I_(2 + i))) for i in (0, 1)]
    spec = lambda kk: box(sub(t1, t0), dx, left(last, kk), right(last, kk), left(new, kk), right(new, kk))
    incell = [le(I_(0), k), lt(k, sub(np_, I_(1)))]
    outside = or_(lt(r_, add(s, I_(1))), le(sub(a, I_(1)), r_))

    def ev(G):
        it = G.interp(prog)
        bl_contracts(it)
        for p in G.call(it, prog.find(CLS + '::evaluate'), pipe(it), [root, t0, t1, last, new], pre):
            if p.kind != 'ok':
                G.prove('evaluate does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            out = it.rv(p.value[2][0])
            for c in (0, 1):
                G.post(it, 'row %d of every cell is the box scheme residual' % c, p, incell, lambda: eq(out.at(row(k, c)), spec(k)[c]))
            G.post(it, 'rows outside the pipe equations are untouched', p, [outside, le(I_(0), r_), lt(r_, n)], lambda: eq(out.at(r_), root.at(r_)))
        G.collect(it)
    S.group(CLS + '::evaluate', ev)

    def jac(G, fn, wname):
        it = G.interp(prog)
        bl_contracts(it)
        it.handler_frame = lambda r, c: and_(le(add(s, I_(1)), r), lt(r, sub(a, I_(1))), le(s, c), lt(c, a))
        for p in G.call(it, prog.find(CLS + '::' + fn), pipe(it), [handler(J0), t0, t1, last, new], pre):
            if p.kind != 'ok':
                G.prove(fn + ' does not throw', p.pc, FALSE)
                continue
            it.state = p.state
            J = it.rv(p.value[2][0]).f['J']
            for c in (0, 1):
                rr = row(k, c)
                d = diff(spec(k)[c], wrt_uf(wname, c_))
                G.post(it, 'entries of row %d are exact derivatives' % c, p, incell, lambda: eq(J.get(rr, c_), add(J0.get(rr, c_), d)))
            G.post(it, 'entries of other rows are untouched', p, [outside], lambda: eq(J.get(r_, c_), J0.get(r_, c_)))
        G.collect(it)
    S.group(CLS + '::d_evaluate_d_new_state', lambda G: jac(G, 'd_evaluate_d_new_state', 'new_state'))
    S.group(CLS + '::d_evaluate_d_last_state', lambda G: jac(G, 'd_evaluate_d_last_state', 'last_state'))

    # ---- construction: spacing and number of states
    def ctor(G):
        it = G.interp(prog)
        it.contracts['Measure::parse_to_si'] = si_contract
        it.contracts['Edge::Edge'] = lambda I, b, ar, nd: None
        js = var('topology', 'J')
        L = uf('si_length', (uf('json_at', (js, strc('length')), 'J'),), 'R')
        des = uf('json_real', (uf('json_at', (js, strc('desired_delta_x')), 'J'),), 'R')
        nodes = it.symbolic('std::vector<std::unique_ptr<Network::Node>>', 'nodes')

        def go():
            nl = it.alloc(nodes)
            return it.read(it.lib.construct_class(CLS, [it.alloc(js), nl], None))
        ok = 0
        for p in it.explore(go, State(pc=[lt(R(0), L), lt(R(0), des)])):
            if p.kind != 'ok': continue
            ok += 1
            o = p.value
            N, D = o.f['number_of_points'], o.f['Delta_x']
            G.prove('at least two grid points', p.pc, le(I_(2), N))
            G.prove('spacing times number of cells is the length', p.pc, eq(mul(D, lift(sub(N, I_(1)), 'R')), L))
            G.prove('spacing does not exceed the desired one', p.pc, le(D, des))
            it.state = p.state
            sc = o.f['scheme']
            cls = it.rv(sc.lv).cls if isinstance(sc, Ptr) and sc.lv is not None else None
            G.prove('the scheme is the implicit box scheme', p.pc, TRUE if cls == 'Implicitboxscheme<2>' else FALSE)
        if not ok: G.prove('construction can succeed', [], FALSE)
        for p in G.call(it, prog.find(CLS + '::needed_number_of_states'), pipe(it), [], pre):
            G.prove('two states per grid point', p.pc, eq(p.value[0], mul(I_(2), np_)) if p.kind == 'ok' else FALSE)
        G.collect(it)
    S.group(CLS + ' construction', ctor)
NATIVE = ('c04', ('model',), 60, 2000)
