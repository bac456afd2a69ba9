"""C10: interpolating vectors are piecewise linear functions of time; index and weight reproduce the time."""
from ..session import *
from ..units import model, opt
from ..interp import ThrowEx
from .common import *
from .. import cxx
from ..cxx import short, params

BASE = 'InterpolatingVector_Base'
KINDS = ('InterpolatingVector', 'MappedInterpolatingVector', 'ConstMappedInterpolatingVector')
STORE = {'InterpolatingVector': 'values', 'MappedInterpolatingVector': 'mapped_values', 'ConstMappedInterpolatingVector': 'mapped_values'}


def eps(it):
    """the tolerance Aux::EPSILON, read from the code"""
    d = next(x for x in it.prog.decls.values() if x['kind'] == 'VarDecl' and x.get('name') == 'EPSILON')
    return it.rv(it.global_var(d['id'], d))


def sorted_(v, strict=False):
    i, j = fresh('i', 'I'), fresh('j', 'I')
    if strict: return forall((i, j), implies(and_(le(I_(0), i), lt(i, j), lt(j, v.n)), lt(v.at(i), v.at(j))))
    return forall((i, j), implies(and_(le(I_(0), i), le(i, j), lt(j, v.n)), le(v.at(i), v.at(j))))


def grid(name='points'):
    return Vec(var(name + '.n', 'I'), Fn(lambda i: uf(name, (i,), 'R'), 1, name), 'std')


def ivec(it, cls, pts=None, L=None, name='iv'):
    """an interpolating vector that satisfies the class invariant"""
    pts = pts or grid(name + '.points')
    L = L or var(name + '.inner', 'I')
    vals = Vec(mul(L, pts.n), Fn(lambda i: uf(name + '.values', (i,), 'R'), 1), 'vec')
    return Struct(cls, {'interpolation_points': pts, 'inner_length': L, STORE[cls]: vals}), pts, L, vals


def inv(pts, L, nonempty=True):
    return [le(I_(1 if nonempty else 0), pts.n), le(I_(0), L), le(I_(0), mul(L, pts.n)), sorted_(pts, True)]


def member(it, v, name):
    x = v.f[name]
    return it.read(x.lv) if isinstance(x, View) else x


def run(S):
    prog = model()
    i, j, t = var('i', 'I'), var('j', 'I'), var('t', 'R')

    def evaluate(G, cls):
        it = G.interp(prog)
        ob, p, L, v = ivec(it, cls)
        E = eps(it)
        last = sub(p.n, I_(1))
        pre = inv(p, L) + [le(I_(0), i), lt(i, p.n), le(I_(0), j), lt(j, L)]
        hint = [le(I_(0), mul(L, sub(sub(p.n, I_(1)), i)))]
        val = lambda k: v.at(add(mul(k, L), j))
        for q in G.call(it, method(prog, cls, 'operator()'), ob, [t], pre):
            outside = or_(lt(add(p.at(last), E), t), lt(t, sub(p.at(I_(0)), E)))
            if q.kind != 'ok':
                G.prove('refuses only times outside the covered interval', q.pc, outside)
                continue
            r = q.value[0]
            G.prove('accepts only times inside the covered interval', q.pc, not_(outside))
            G.prove('result has the inner length', q.pc, eq(r.n, L))
            G.prove('stored value at every time point', q.pc + [eq(t, p.at(i))], eq(r.at(j), val(i)))
            nx = add(i, I_(1))
            G.prove('linear in between', q.pc + [lt(nx, p.n), le(p.at(i), t), le(t, p.at(nx))],
                    eq(mul(r.at(j), sub(p.at(nx), p.at(i))), add(mul(sub(p.at(nx), t), val(i)), mul(sub(t, p.at(i)), val(nx)))))
            G.prove('constant past the last point', q.pc + [le(p.at(last), t)], eq(r.at(j), val(last)))
            G.prove('constant before the first point', q.pc + [le(t, p.at(I_(0)))], eq(r.at(j), val(I_(0))))
        G.collect(it)
    for cls in KINDS: S.group(cls + '::operator()', lambda G, cls=cls: evaluate(G, cls))

    # ---- construction: the class invariant is established or the arguments are refused
    def ctor(G, cls, how):
        it = G.interp(prog)
        L, m = var('inner', 'I'), var('buffer.n', 'I')
        pts = grid()
        buf = Vec(m, Fn(lambda k: uf('buffer', (k,), 'R'), 1), 'vec')
        first, delta, number = var('first', 'R'), var('delta', 'R'), var('number', 'I')
        pre = [le(I_(0), L), le(I_(0), m), le(I_(0), pts.n)]

        def go():
            if how == 'data':
                a = Struct('Interpolation_data', {'first_point': first, 'delta': delta, 'number_of_entries': number})
            else: a = Vec(pts.n, pts.f, 'std' if how == 'vector' else 'vec')
            args = [it.alloc(a), it.alloc(L)]
            if cls != 'InterpolatingVector': args += [it.alloc(Iter(it.alloc(buf), I_(0))), it.alloc(var('elements', 'I'))]
            ty = {'data': 'Interpolation_data', 'vector': 'std::vector', 'ref': 'Eigen::Ref'}[how]
            fds = [f for f in prog.funcs['%s::%s' % (cls, cls)] if len(params(f)) == len(args) and ty.split('::')[-1] in params(f)[0]['type']['qualType']]
            if len(fds) != 1: raise ExtractError('constructors of ' + cls)
            lv = it.alloc(Struct(cls, {}))
            it.lib.run_ctor(cls, fds[0], lv, args)
            return lv
        if how == 'data': pre += [le(I_(1), number), lt(R(0), delta)]
        if cls != 'InterpolatingVector': pre += [eq(var('elements', 'I'), m)]
        for q in it.explore(go, State(pc=pre)):
            n = number if how == 'data' else pts.n
            at = (lambda k: add(first, mul(to_real(k), delta))) if how == 'data' else pts.at
            want = Vec(n, Fn(at, 1))
            k = fresh('k', 'I')
            srt = forall(k, implies(and_(le(I_(0), k), lt(add(k, I_(1)), n)), le(at(k), at(add(k, I_(1))))))
            fits = eq(mul(L, n), m) if cls != 'InterpolatingVector' else TRUE
            if q.kind != 'ok':
                G.prove('refuses only unsorted points or a wrong amount of storage', q.pc, not_(and_(srt, fits)))
                continue
            it.state = q.state
            o = it.rv(q.value)
            p, vals = o.f['interpolation_points'], member(it, o, STORE[cls])
            G.prove('unsorted points are refused', q.pc, srt)
            G.prove('keeps every time point', q.pc + [le(I_(0), i), lt(i, n)], and_(eq(p.n, n), eq(p.at(i), at(i))))
            G.prove('storage has the right size', q.pc, and_(eq(vals.n, mul(L, n)), eq(o.f['inner_length'], L)))
            if cls != 'InterpolatingVector': G.prove('values are the caller\'s storage', q.pc + [le(I_(0), i), lt(i, vals.n)], eq(vals.at(i), buf.at(i)))
        G.collect(it)
    for cls in KINDS:
        for how in ('data', 'vector', 'ref'): S.group('%s(%s)' % (cls, how), lambda G, a=(cls, how): ctor(G, *a))

    # ---- equidistant grids
    def grids(G):
        it = G.interp(prog)
        a, b, d, m = var('first', 'R'), var('last', 'R'), var('delta', 'R'), var('number', 'I')
        for name, args, bad, good in (
                ('make_from_start_delta_number', [a, d, m], or_(le(m, I_(0)), le(d, R(0))), lambda s, l: and_(eq(s['number_of_entries'], m), eq(s['delta'], d))),
                ('make_from_start_number_end', [a, b, m], or_(le(m, I_(1)), le(b, a)), lambda s, l: and_(eq(s['number_of_entries'], m), eq(l, b))),
                ('make_from_start_delta_end', [a, d, b], or_(le(d, R(0)), le(b, a)), lambda s, l: and_(eq(l, b), le(s['delta'], d), le(I_(2), s['number_of_entries'])))):
            for q in G.call(it, prog.find(name), None, args, []):
                if q.kind != 'ok':
                    G.prove(name + ' refuses only impossible grids', q.pc, bad)
                    continue
                s = q.value[0].f
                G.prove(name + ' refuses impossible grids', q.pc, not_(bad))
                G.prove(name + ' yields the requested grid', q.pc, and_(eq(s['first_point'], a), lt(R(0), s['delta']), good(s, add(a, mul(sub(to_real(s['number_of_entries']), R(1)), s['delta'])))))
        G.collect(it)
    S.group('equidistant grids', grids)

    # ---- access
    def access(G, cls):
        it = G.interp(prog)
        ob, p, L, v = ivec(it, cls)
        k, idx, w = var('k', 'I'), var('index', 'I'), Vec(var('w.n', 'I'), Fn(lambda q: uf('w', (q,), 'R'), 1), 'vec')
        pre = inv(p, L, False) + [le(I_(0), w.n)]
        rng = [le(I_(0), k), lt(k, v.n)]
        ok = and_(le(I_(0), idx), le(mul(L, add(idx, I_(1))), v.n))
        block = lambda q: and_(le(mul(L, idx), q), lt(q, mul(L, add(idx, I_(1)))))

        def fn(name): return method(prog, cls, name)
        for q in G.call(it, fn('vector_at_index'), ob, [idx], pre):
            if q.kind != 'ok':
                G.prove('vector_at_index refuses only a wrong index', q.pc, not_(ok))
                continue
            G.prove('vector_at_index is the block of that time point', q.pc + [le(I_(0), j), lt(j, L)], and_(ok, eq(q.value[0].n, L), eq(q.value[0].at(j), v.at(add(mul(L, idx), j)))))
        if cls == 'ConstMappedInterpolatingVector':
            for q in G.call(it, fn('mut_timestep'), ob, [idx], pre): G.prove('a constant map hands out nothing mutable', q.pc, boolc(q.kind != 'ok'))
            for q in G.call(it, fn('set_values_in_bulk'), ob, [w], pre): G.prove('a constant map is not written', q.pc, boolc(q.kind != 'ok'))
            G.collect(it)
            return
        base = it.state

        def write(val):
            def go():
                lv = it.alloc(ob)
                r = it.call_def(fn('mut_timestep'), lv, [it.alloc(idx)])
                it.write(r, it.lib.check_shape(it.read(r), val))
                return lv
            return go
        val = Vec(L, w.f, 'vec')
        for q in it.explore(write(val), State(pc=pre)):
            if q.kind != 'ok':
                G.prove('mut_timestep refuses only a wrong index', q.pc, not_(ok))
                continue
            it.state = q.state
            n = member(it, it.rv(q.value), STORE[cls])
            G.prove('mut_timestep changes exactly the block of that time point', q.pc + rng, and_(ok, eq(n.n, v.n), eq(n.at(k), ite(block(k), w.at(sub(k, mul(L, idx))), v.at(k)))))
        for q in G.call(it, fn('push_to_index'), ob, [idx, t, val], pre + [lt(idx, p.n)]):
            if q.kind != 'ok':
                G.prove('push_to_index refuses only a wrong index', q.pc, not_(ok))
                continue
            it.state = q.state
            o = it.rv(q.value[1])
            n, np_ = member(it, o, STORE[cls]), o.f['interpolation_points']
            G.prove('push_to_index changes exactly that time point and its values', q.pc + rng + [le(I_(0), i), lt(i, p.n)],
                    and_(eq(n.at(k), ite(block(k), w.at(sub(k, mul(L, idx))), v.at(k))), eq(np_.at(i), ite(eq(i, idx), t, p.at(i)))))
        for q in G.call(it, fn('set_values_in_bulk'), ob, [w], pre):
            if q.kind != 'ok':
                G.prove('set_values_in_bulk refuses only a wrong number of values', q.pc, not_(eq(w.n, v.n)))
                continue
            it.state = q.state
            n = member(it, it.rv(q.value[1]), STORE[cls])
            G.prove('set_values_in_bulk stores the values', q.pc + rng, and_(eq(w.n, v.n), eq(n.n, v.n), eq(n.at(k), w.at(k))))
        for q in G.call(it, fn('setZero'), ob, [], pre):
            it.state = q.state
            n = member(it, it.rv(q.value[1]), STORE[cls])
            G.prove('setZero', q.pc + rng, and_(boolc(q.kind == 'ok'), eq(n.n, v.n), eq(n.at(k), R(0))))
        for name, want in (('size', p.n), ('get_inner_length', L), ('get_total_number_of_values', v.n)):
            for q in G.call(it, fn(name), ob, [], pre): G.prove(name, q.pc, eq(q.value[0], want) if q.kind == 'ok' else FALSE)
        for q in G.call(it, fn('interpolation_point_at_index'), ob, [idx], pre + [le(I_(0), idx), lt(idx, p.n)]): G.prove('interpolation_point_at_index', q.pc, eq(q.value[0], p.at(idx)) if q.kind == 'ok' else FALSE)
        for q in G.call(it, fn('get_interpolation_points'), ob, [], pre):
            it.state = q.state
            r = it.rv(q.value[0])
            G.prove('get_interpolation_points', q.pc + [le(I_(0), i), lt(i, p.n)], and_(eq(r.n, p.n), eq(r.at(i), p.at(i))) if q.kind == 'ok' else FALSE)
        G.collect(it)
    for cls in KINDS: S.group(cls + ' access', lambda G, cls=cls: access(G, cls))

    # ---- assignment and interpolation from another vector
    def assign(G, cls, src):
        it = G.interp(prog)
        a, p, L, v = ivec(it, cls)
        b, p2, L2, v2 = ivec(it, src, name='other')
        k = var('k', 'I')
        pre = inv(p, L, False) + inv(p2, L2, False)
        x = fresh('x', 'I')
        same = and_(eq(L, L2), eq(p.n, p2.n), forall(x, implies(and_(le(I_(0), x), lt(x, p.n)), eq(p.at(x), p2.at(x)))))
        for f in ([BASE] if cls == src else []) + [src]:
            fds = [d for d in prog.funcs.get(cls + '::operator=', []) + (prog.funcs.get(BASE + '::operator=', []) if f == BASE else []) if short(params(d)[0]['type']['qualType']) == BASE or short(params(d)[0]['type']['qualType']) == f]
            fds = [d for d in fds if '&&' not in params(d)[0]['type']['qualType'] and cxx.Program.body(d) is not None]
            for d in fds:
                for q in G.call(it, d, a, [b], pre):
                    if q.kind != 'ok':
                        G.prove('assignment refuses only another structure', q.pc, and_(not_(same), boolc(cls != 'InterpolatingVector' or d['_q'].startswith(BASE))))
                        continue
                    it.state = q.state
                    o = it.rv(q.value[1])
                    n, np_ = member(it, o, STORE[cls]), o.f['interpolation_points']
                    G.prove('assignment copies structure and values', q.pc + [le(I_(0), k), lt(k, v2.n), le(I_(0), i), lt(i, p2.n)],
                            and_(eq(n.n, v2.n), eq(n.at(k), v2.at(k)), eq(np_.n, p2.n), eq(np_.at(i), p2.at(i)), eq(o.f['inner_length'], L2)))
        for q in G.call(it, prog.find('have_same_structure'), None, [a, b], pre): G.prove('have_same_structure', q.pc, eq(q.value[0], same) if q.kind == 'ok' else FALSE)
        for q in G.call(it, prog.find('operator=='), None, [a, b], pre):
            G.prove('== means same structure and same values', q.pc, eq(q.value[0], and_(same, forall(x, implies(and_(le(I_(0), x), lt(x, v.n)), eq(v.at(x), v2.at(x)))))) if q.kind == 'ok' else FALSE)
        G.collect(it)
    for cls in KINDS[:2]: S.group(cls + ' assignment', lambda G, cls=cls: assign(G, cls, cls))

    # ---- interpolation index and weight
    po = opt()
    tp = Vec(var('timepoints.n', 'I'), Fn(lambda q: uf('timepoints', (q,), 'R'), 1), 'vec')

    def weight_ok(it, i_, l_, tt):
        lo, hi = tp.at(sub(i_, I_(1))), tp.at(i_)
        last = tp.at(sub(tp.n, I_(1)))
        clamp = ite(le(tt, last), tt, last)
        return [('index is a valid time point', and_(le(I_(0), i_), lt(i_, tp.n))), ('weight lies in [0,1]', and_(le(R(0), l_), le(l_, R(1)))),
                ('the first point has weight one', implies(eq(i_, I_(0)), and_(eq(tt, tp.at(I_(0))), eq(l_, R(1))) if True else TRUE)),
                ('index and weight reproduce the time', implies(lt(I_(0), i_), eq(add(mul(l_, hi), mul(sub(R(1), l_), lo)), clamp))),
                ('the neighbours enclose the time', implies(lt(I_(0), i_), and_(lt(lo, tt), le(clamp, hi))))]

    def lam(G):
        it = G.interp(po)
        E = eps(it)
        last = tp.at(sub(tp.n, I_(1)))
        inside = and_(le(tp.at(I_(0)), t), le(t, add(last, E)))
        for q in G.call(it, po.find('compute_index_lambda'), None, [tp, t], [le(I_(1), tp.n), sorted_(tp, True)]):
            if q.kind != 'ok':
                G.prove('refuses only times outside the grid', q.pc, not_(inside))
                continue
            i_, l_ = q.value[0].d
            G.prove('accepts only times inside the grid', q.pc, inside)
            first = eq(tp.n, I_(1))
            for nm, g in weight_ok(it, i_, l_, t):
                # a grid with one point only: the time may exceed it by EPSILON
                if 'first' in nm: g = implies(eq(i_, I_(0)), and_(eq(l_, R(1)), or_(eq(t, tp.at(I_(0))), and_(first, lt(tp.at(I_(0)), t)))))
                G.prove(nm, q.pc, g)
        G.collect(it)
    S.group('compute_index_lambda', lam)

    def lamvec(G):
        it = G.interp(po)
        fine = Vec(var('fine.n', 'I'), Fn(lambda q: uf('fine', (q,), 'R'), 1), 'vec')

        def one(I, b, a, nd):
            c, x = I.rv(a[0]), I.rv(a[1])
            k = fresh('k', 'I')
            I.oblige('the coarse grid is handed on', and_(eq(c.n, tp.n), eq(c.at(k), tp.at(k))), '', 'pre')
            return Tup([uf('index_of', (x,), 'I'), uf('weight_of', (x,), 'R')])
        it.contracts['compute_index_lambda'] = one
        for q in G.call(it, po.find('compute_index_lambda_vector'), None, [tp, fine], [le(I_(0), fine.n), le(I_(0), i), lt(i, fine.n)]):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            it.state = q.state
            r = it.rv(q.value[0])
            G.post(it, 'index and weight of every fine time point', q, [], lambda: and_(eq(r.n, fine.n), eq(r.at(i).d[0], uf('index_of', (fine.at(i),), 'I')), eq(r.at(i).d[1], uf('weight_of', (fine.at(i),), 'R'))))
        G.collect(it)
    S.group('compute_index_lambda_vector', lamvec)

    # ---- interpolation from another vector
    def interp(G, cls):
        it = G.interp(prog)
        a, p, L, v = ivec(it, cls)
        b, p2, L2, v2 = ivec(it, 'InterpolatingVector', name='other')
        it.contracts[BASE + '::operator()'] = lambda I, bb, aa, nd: Vec(L2, Fn(lambda q, x=I.rv(aa[0]): uf('interpolated', (x, q), 'R'), 1), 'vec')
        k = var('k', 'I')
        pre = inv(p, L) + inv(p2, L2) + [eq(L, L2), le(p2.at(I_(0)), p.at(I_(0))), le(p.at(sub(p.n, I_(1))), p2.at(sub(p2.n, I_(1)))), le(I_(0), i), lt(i, p.n), le(I_(0), k), lt(k, L)]
        for q in G.call(it, method(prog, cls, 'interpolate_from'), a, [b], pre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            it.state = q.state
            o = it.rv(q.value[1])
            n = member(it, o, STORE[cls])
            G.post(it, 'every time point holds the interpolated value', q, [], lambda: eq(n.at(add(mul(L, i), k)), uf('interpolated', (p.at(i), k), 'R')))
            G.post(it, 'the time points stay', q, [], lambda: and_(eq(o.f['interpolation_points'].n, p.n), eq(o.f['interpolation_points'].at(i), p.at(i))))
        G.collect(it)
    for cls in KINDS[:2]: S.group(cls + '::interpolate_from', lambda G, cls=cls: interp(G, cls))
NATIVE = ('c10', ('model', 'opt'), 60, 3000)
