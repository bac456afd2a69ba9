"""C11: the sparse layout of the constraint Jacobian."""
from ..session import *
from ..units import opt
from ..interp import ThrowEx
from ..loops import Inv
from .common import *
from .. import cxx

ct = lambda k: uf('constrainttimes', (k,), 'R')     # constraint times, m of them
ut = lambda k: uf('controltimes', (k,), 'R')        # control times, n of them
cnt = lambda k: uf('constraints_up_to', (k,), 'I')  # number of constraint times <= ut(k)
M, N = var('m', 'I'), var('n', 'I')
BH, BW = var('block_height', 'I'), var('block_width', 'I')


def height(j): return ite(eq(j, I_(0)), M, sub(M, cnt(sub(j, I_(1)))))


def count_def():
    """cnt is what its name says (such a function exists because the times are sorted)"""
    j, c = fresh('j', 'I'), fresh('c', 'I')
    rng = and_(le(I_(0), j), lt(j, N))
    return [forall(j, implies(rng, and_(le(I_(0), cnt(j)), le(cnt(j), M), or_(eq(cnt(j), M), lt(ut(j), ct(cnt(j))))))),
            forall((j, c), implies(and_(rng, le(I_(0), c), lt(c, M)), eq(lt(c, cnt(j)), le(ct(c), ut(j)))))]


def times():
    i, j = fresh('i', 'I'), fresh('j', 'I')
    return [le(I_(0), M), le(I_(1), N), le(I_(0), BH), le(I_(0), BW),
            forall((i, j), implies(and_(le(I_(0), i), le(i, j), lt(j, M)), le(ct(i), ct(j)))),
            forall((i, j), implies(and_(le(I_(0), i), le(i, j), lt(j, N)), le(ut(i), ut(j))))]


def run(S):
    prog = opt()
    j0 = var('column', 'I')
    cv, uv = Vec(M, Fn(ct), 'vec'), Vec(N, Fn(ut), 'vec')

    def make(G):
        it = G.interp(prog)

        def inv(I, v):
            k, c, h, o = v('control_index'), v('constraint_index'), v('last_height'), v('_block_column_offsets')
            q = fresh('q', 'I')
            return [('ranges', and_(le(I_(1), k), le(k, N), le(I_(0), c), le(c, M), eq(o.n, add(N, I_(1))))),
                    ('time of the column', implies(lt(c, M), eq(v('last_controltime'), ut(sub(k, I_(1)))))),
                    ('constraints passed', forall(q, implies(and_(le(I_(0), q), lt(q, c)), le(ct(q), ut(sub(k, I_(1))))))),
                    ('height of the column', eq(h, height(sub(k, I_(1))))),
                    ('first offset', eq(o.at(I_(0)), I_(0))),
                    ('offsets', implies(and_(le(I_(0), j0), lt(add(j0, I_(1)), k)), eq(sub(o.at(add(j0, I_(1))), o.at(j0)), height(j0))))]
        it.loop_contracts['make_data'] = [Inv(inv, lambda I, v: add(sub(N, v('control_index')), sub(M, v('constraint_index'))))]
        for q in G.call(it, prog.find('make_data'), None, [BH, BW, cv, uv], times() + count_def()):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            it.state = q.state
            h, w, o = it.rv(q.value[0]).d
            G.prove('block size', q.pc, and_(eq(h, BH), eq(w, BW)))
            G.prove('one column block per control time', q.pc, and_(eq(o.n, add(N, I_(1))), eq(o.at(I_(0)), I_(0))))
            G.prove('a column holds exactly the constraints later than the preceding control', q.pc + [le(I_(0), j0), lt(j0, N)], eq(sub(o.at(add(j0, I_(1))), o.at(j0)), height(j0)))
        G.collect(it)
    S.group('make_data', make)

    # ---- objects
    off = lambda k: uf('offset', (k,), 'I')
    BS = mul(BH, BW)
    H = lambda j: sub(off(add(j, I_(1))), off(j))
    ROW = lambda j: mul(sub(off(I_(1)), H(j)), BH)     # first row of a column

    def layout():
        """what the constructor establishes (make_data): offsets start at zero, grow, and no column is longer than the first"""
        i, j = fresh('i', 'I'), fresh('j', 'I')
        return [le(I_(1), N), le(I_(0), BH), le(I_(0), BW), eq(off(I_(0)), I_(0)), le(I_(0), off(I_(1))),
                forall(j, implies(and_(le(I_(0), j), lt(j, N)), and_(le(I_(0), H(j)), le(H(j), off(I_(1)))))),
                forall((i, j), implies(and_(le(I_(0), i), le(i, j), le(j, N)), le(off(i), off(j))))]

    NNZ = mul(off(N), BS)
    vals = lambda k: uf('jacobian_values', (k,), 'R')
    KIND = ('ConstraintJacobian', 'MappedConstraintJacobian')

    def obj(it, cls, name='', buf=None):
        f = {'block_height': BH, 'block_width': BW, 'block_column_offsets': Vec(add(N, I_(1)), Fn(off), 'vec')}
        v = Vec(NNZ, Fn(vals), 'vec')
        if cls == 'ConstraintJacobian': f['storage'] = v
        else:
            buf = buf or it.alloc(v)
            f['values'] = Iter(buf, I_(0))
            f['number_of_entries'] = NNZ
        return Struct(cls, f), buf

    def values(it, cls, lv):
        o = it.rv(lv)
        return o.f['storage'] if cls == 'ConstraintJacobian' else it.read(o.f['values'].lv)
    j, a, b = var('j', 'I'), var('a', 'I'), var('b', 'I')
    incol = [le(I_(0), j), lt(j, N)]
    entry = incol + [le(I_(0), a), lt(a, mul(H(j), BH)), le(I_(0), b), lt(b, BW)]
    pos = lambda j, a, b: add(mul(off(j), BS), mul(a, BW), b)
    nonneg = [le(I_(0), BS), le(I_(0), mul(H(j), BH)), le(I_(0), mul(mul(H(j), BH), BW)), le(I_(0), mul(off(j), BS)), le(mul(off(add(j, I_(1))), BS), NNZ)]

    # consequences of layout() for one column, proved as lemmas and used as instances (no quantifiers)
    base_facts = [eq(off(I_(0)), I_(0)), le(I_(1), N), le(I_(0), BH), le(I_(0), BW), le(I_(0), BS)]

    def column_facts(x):
        nx = add(x, I_(1))
        return [le(I_(0), H(x)), le(H(x), off(I_(1))), le(I_(0), mul(off(x), BS)), le(mul(off(x), BS), mul(off(nx), BS)), le(mul(off(nx), BS), NNZ), le(I_(0), mul(H(x), BH)), le(I_(0), mul(mul(H(x), BH), BW)),
                le(mul(H(x), BH), mul(off(I_(1)), BH))]

    def later(x, y): return [le(mul(off(add(x, I_(1))), BS), mul(off(y), BS))]

    def inside(x): return [le(mul(off(x), BS), pos(x, a, b)), lt(pos(x, a, b), mul(off(add(x, I_(1))), BS))]

    def lemmas(G):
        lay = layout()
        d, i = var('d', 'I'), var('i', 'I')
        L = layout()[:-1]
        G.prove('offsets grow (induction step)', L + [le(I_(0), i), le(I_(0), d), lt(add(i, d), N), le(off(i), off(add(i, d)))], le(off(i), off(add(i, d, I_(1)))))
        j2, a2, b2 = var('j2', 'I'), var('a2', 'I'), var('b2', 'I')
        e2 = [subst(t, {j: j2, a: a2, b: b2}) for t in entry]
        G.prove('an entry lies inside its column', lay + entry, and_(le(mul(off(j), BS), pos(j, a, b)), lt(pos(j, a, b), mul(off(add(j, I_(1))), BS))))
        ins = lambda j, a, b: and_(le(mul(off(j), BS), pos(j, a, b)), lt(pos(j, a, b), mul(off(add(j, I_(1))), BS)))
        G.prove('products of ordered factors', [le(I_(0), BS), le(off(add(j, I_(1))), off(j2))], le(mul(off(add(j, I_(1))), BS), mul(off(j2), BS)))
        G.prove('different columns use different places', lay + entry + e2 + [lt(j, j2), ins(j, a, b), ins(j2, a2, b2), le(mul(off(add(j, I_(1))), BS), mul(off(j2), BS))], not_(eq(pos(j, a, b), pos(j2, a2, b2))))
        G.prove('different entries of a column use different places', entry + [le(I_(0), a2), le(I_(0), b2), lt(b2, BW), lt(a, a2), le(mul(add(a, I_(1)), BW), mul(a2, BW))], not_(eq(pos(j, a, b), pos(j, a2, b2))))
        G.prove('rows of smaller number come first', [le(I_(0), BW), lt(a, a2)], le(mul(add(a, I_(1)), BW), mul(a2, BW)))
        c = var('c', 'I')
        G.prove('present exactly where the constraint is later than the preceding control', times() + count_def() + [le(I_(0), j0), lt(j0, N), le(I_(0), c), lt(c, M)],
                eq(le(sub(M, height(j0)), c), or_(eq(j0, I_(0)), lt(ut(sub(j0, I_(1))), ct(c)))))
        y = var('y', 'I')
        for f in column_facts(j): G.prove('facts about one column', lay + incol + [le(I_(0), BS)], f)
        for f in later(j, y): G.prove('a later column starts later', lay + incol + [lt(j, y), le(y, N), le(I_(0), BS)], f)
        G.prove('block size is not negative', lay, le(I_(0), BS))
    S.group('layout lemmas', lemmas)

    def getters(G, cls):
        it = G.interp(prog)
        ob, _ = obj(it, cls)
        o1 = off(I_(1))
        for nm, args, want in (('get_block_height', [], BH), ('get_block_width', [], BW), ('get_block_size', [], BS), ('get_outer_width', [], N), ('get_inner_width', [], mul(N, BW)), ('get_outer_height', [], o1),
                               ('get_inner_height', [], mul(o1, BH)), ('nonZeros', [], NNZ), ('get_outer_column_offset', [j], off(j)), ('get_inner_column_offset', [j], mul(off(j), BS)),
                               ('get_outer_col_height', [j], H(j)), ('get_inner_col_height', [j], mul(H(j), BH)), ('get_outer_rowstart', [j], sub(o1, H(j))), ('get_inner_rowstart', [j], ROW(j)),
                               ('get_outer_colstart', [j], j), ('get_inner_colstart', [j], mul(j, BW)), ('column_values_start', [j], mul(off(j), BS)), ('column_values_end', [j], mul(off(add(j, I_(1))), BS))):
            for q in G.call(it, method(prog, cls, nm), ob, args, layout() + (incol if args else [])):
                G.prove(nm, q.pc, eq(q.value[0], want) if q.kind == 'ok' else FALSE)
        for q in G.call(it, method(prog, cls, 'get_outer_column_offset'), ob, [j], layout()):
            G.prove('a column that does not exist is refused', q.pc, and_(*incol) if q.kind == 'ok' else not_(and_(*incol)))
        G.collect(it)
    for cls in KIND: S.group(cls + ' dimensions', lambda G, cls=cls: getters(G, cls))

    # ---- block access: entry (a,b) of the block of column j is the value at pos(j,a,b), for reading and writing
    def block(G, cls):
        it = G.interp(prog)
        ob, _ = obj(it, cls)
        k, x = var('k', 'I'), var('x', 'R')
        for const in (True, False):
            fd = [f for f in prog.funcs['ConstraintJacobian_Base::get_column_block'] if f['type']['qualType'].rstrip().endswith('const') == const]
            if len(fd) != 1: raise ExtractError('get_column_block')

            def go():
                lv = it.alloc(ob)
                r = it.call_def(fd[0], lv, [it.alloc(j)])
                m = it.rv(r)
                if not const: it.write(r.sub(('c', a, b)), x)
                return m, values(it, cls, lv), it.read(r)
            for q in it.explore(go, State(pc=layout() + nonneg + entry, heap=it.state.heap)):
                if q.kind != 'ok':
                    G.prove('does not throw', q.pc, FALSE)
                    continue
                m, v, m2 = q.value
                G.prove('block has the shape of its column', q.pc, and_(eq(m.nr, mul(H(j), BH)), eq(m.nc, BW)))
                G.prove('block entry is the stored value of that entry', q.pc, eq(m.at(a, b), vals(pos(j, a, b))))
                if not const:
                    G.prove('writing an entry changes that value and no other', q.pc + [le(I_(0), k), lt(k, NNZ)], eq(v.at(k), ite(eq(k, pos(j, a, b)), x, vals(k))))
        G.collect(it)
        it.quiet = 1
        for const in (True, False):
            fd = [f for f in prog.funcs['ConstraintJacobian_Base::get_column_block'] if f['type']['qualType'].rstrip().endswith('const') == const][0]
            for q in G.call(it, fd, ob, [j], layout()):
                if q.kind != 'ok': G.prove('refuses only columns that do not exist', q.pc, not_(and_(*incol)))
                else: G.prove('refuses columns that do not exist', q.pc, and_(*incol))
    for cls in KIND: S.group(cls + '::get_column_block', lambda G, cls=cls: block(G, cls))

    # ---- the index arrays handed to the optimiser
    def indices(G):
        it = G.interp(prog)
        ob, _ = obj(it, 'ConstraintJacobian')
        rows, cols = (Vec(var(n + '.n', 'I'), Fn(lambda k, n=n: uf(n, (k,), 'I')), 'vec') for n in ('Rowindices', 'Colindices'))

        def inv(I, v):
            jj, ix, r, c = v('j'), v('index'), v('Rowindices'), v('Colindices')
            return [('!', and_(*[implies(and_(le(I_(0), jj), lt(jj, N)), f) for f in column_facts(jj)], *[implies(and_(lt(j, jj), le(jj, N)), f) for f in later(j, jj)], eq(off(I_(0)), I_(0)))),
                    ('ranges', and_(le(I_(0), jj), le(jj, N), eq(r.n, NNZ), eq(c.n, NNZ))),
                    ('entries written so far', eq(ix, mul(off(jj), BS))),
                    ('entries of this column', implies(lt(j, jj), and_(eq(r.at(pos(j, a, b)), add(ROW(j), a)), eq(c.at(pos(j, a, b)), add(mul(j, BW), b)))))]
        it.loop_contracts['ConstraintJacobian_Base::supply_indices'] = [Inv(inv, lambda I, v: sub(N, v('j'))), None, None]
        for q in G.call(it, method(prog, 'ConstraintJacobian', 'supply_indices'), ob, [rows, cols], base_facts + entry + column_facts(j) + inside(j)):
            if q.kind != 'ok':
                G.prove('refuses only index arrays of the wrong size', q.pc, not_(and_(eq(rows.n, NNZ), eq(cols.n, NNZ))))
                continue
            it.state = q.state
            r, c = it.rv(q.value[2][0]), it.rv(q.value[2][1])
            G.prove('every stored value has its row and column', q.pc, and_(eq(r.at(pos(j, a, b)), add(ROW(j), a)), eq(c.at(pos(j, a, b)), add(mul(j, BW), b))))
            G.prove('as many indices as values', q.pc, and_(eq(r.n, NNZ), eq(c.n, NNZ)))
        G.collect(it)
    S.group('supply_indices', indices)

    # ---- the dense matrix
    def whole(G, cls):
        it = G.interp(prog)
        ob, _ = obj(it, cls)
        r = var('r', 'I')
        want = ite(le(ROW(j), r), vals(pos(j, sub(r, ROW(j)), b)), R(0))
        col = add(mul(j, BW), b)
        HI = mul(off(I_(1)), BH)

        def inv(I, v):
            c, m = v('column'), v('result')
            return [('!', and_(*[implies(and_(le(I_(0), c), lt(c, N)), f) for f in column_facts(c)], implies(lt(j, c), le(mul(add(j, I_(1)), BW), mul(c, BW))), implies(lt(c, j), le(mul(add(c, I_(1)), BW), mul(j, BW))),
                               implies(lt(c, N), le(mul(add(c, I_(1)), BW), mul(N, BW))), le(I_(0), mul(c, BW)), le(I_(0), mul(N, BW)), le(I_(0), HI))),
                    ('ranges', and_(le(I_(0), c), le(c, N), eq(m.nr, HI), eq(m.nc, mul(N, BW)))), ('columns so far', eq(m.at(r, col), ite(lt(j, c), want, R(0))))]
        it.loop_contracts['ConstraintJacobian_Base::whole_matrix'] = [Inv(inv, lambda I, v: sub(N, v('column')))]
        for q in G.call(it, method(prog, cls, 'whole_matrix'), ob, [], base_facts + incol + column_facts(j) + [le(I_(0), b), lt(b, BW), le(I_(0), r), lt(r, HI), le(I_(0), HI), le(I_(0), mul(N, BW)), le(I_(0), mul(j, BW))]):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            m = q.value[0]
            G.prove('the dense matrix has the stored values in their places and zeros elsewhere', q.pc, and_(eq(m.nr, HI), eq(m.nc, mul(N, BW)), eq(m.at(r, col), want)))
        G.collect(it)
        y = var('y', 'I')
        G.prove('columns are ordered (lemma)', base_facts + [lt(j, y)], le(mul(add(j, I_(1)), BW), mul(y, BW)))
    for cls in KIND: S.group(cls + '::whole_matrix', lambda G, cls=cls: whole(G, cls))

    # ---- construction
    def ctor(G, cls):
        it = G.interp(prog)
        o = Vec(add(N, I_(1)), Fn(off), 'vec')

        def mk(I, bs, args, nd):
            h, w, c, u = [I.rv(x) for x in args]
            k = fresh('k', 'I')
            I.oblige('the sizes and time grids are handed on', and_(eq(h, BH), eq(w, BW), eq(c.n, M), eq(u.n, N), eq(c.at(k), ct(k)), eq(u.at(k), ut(k))), '', 'pre')
            return Tup([BH, BW, o])
        it.contracts['make_data'] = mk
        L = var('buffer.n', 'I')
        buf = Vec(L, Fn(lambda k: uf('buffer', (k,), 'R')), 'vec')

        def go():
            args = [it.alloc(x) for x in (BH, BW, cv, uv)]
            if cls != 'ConstraintJacobian': args = [it.alloc(Iter(it.alloc(buf), I_(0))), it.alloc(L)] + args
            fds = [f for f in prog.funcs['%s::%s' % (cls, cls)] if len(cxx.params(f)) == len(args)]
            if len(fds) != 1: raise ExtractError('constructors of ' + cls)
            lv = it.alloc(Struct(cls, {}))
            it.lib.run_ctor(cls, fds[0], lv, args)
            return lv
        for q in it.explore(go, State(pc=base_facts + [le(I_(0), NNZ)])):
            if q.kind != 'ok':
                G.prove('refuses only storage of the wrong size', q.pc, not_(eq(L, NNZ)) if cls != 'ConstraintJacobian' else FALSE)
                continue
            it.state = q.state
            ob = it.rv(q.value)
            offs = ob.f['block_column_offsets']
            v = values(it, cls, q.value)
            k = var('k', 'I')
            G.prove('layout of the time grids', q.pc, and_(eq(ob.f['block_height'], BH), eq(ob.f['block_width'], BW), eq(offs.n, add(N, I_(1))), eq(offs.at(k), off(k))))
            G.prove('one place per stored value', q.pc, eq(v.n, NNZ))
            if cls != 'ConstraintJacobian': G.prove('values live in the given storage', q.pc, and_(eq(v.at(k), buf.at(k)), eq(ob.f['number_of_entries'], NNZ)))
        G.collect(it)
    for cls in KIND: S.group(cls + ' constructor', lambda G, cls=cls: ctor(G, cls))

    # ---- assignment, comparison
    def assign(G, cls, src):
        it = G.interp(prog)
        ob, _ = obj(it, cls)
        o2 = lambda k: uf('other_offset', (k,), 'I')
        v2 = lambda k: uf('other_values', (k,), 'R')
        N2, BH2, BW2 = var('n2', 'I'), var('bh2', 'I'), var('bw2', 'I')
        NZ2 = mul(o2(N2), mul(BH2, BW2))
        f = {'block_height': BH2, 'block_width': BW2, 'block_column_offsets': Vec(add(N2, I_(1)), Fn(o2), 'vec')}
        sv = Vec(NZ2, Fn(v2), 'vec')
        if src == 'ConstraintJacobian': f['storage'] = sv
        else: f.update(values=Iter(it.alloc(sv), I_(0)), number_of_entries=NZ2)
        other = Struct(src, f)
        k, x = var('k', 'I'), fresh('x', 'I')
        same = and_(eq(BH, BH2), eq(BW, BW2), eq(N, N2), forall(x, implies(and_(le(I_(0), x), le(x, N)), eq(off(x), o2(x)))))
        pre = base_facts + [le(I_(1), N2), le(I_(0), NNZ), le(I_(0), NZ2)]
        fds = [d for d in prog.funcs.get(cls + '::operator=', []) if short(params(d)[0]['type']['qualType']) == src and cxx.Program.body(d) is not None]
        st0 = it.state
        if len(fds) != 1: raise ExtractError('assignment %s from %s' % (cls, src))
        for q in G.call(it, fds[0], ob, [other], pre):
            if q.kind != 'ok':
                G.prove('assignment refuses only another layout', q.pc, not_(same))
                continue
            it.state = q.state
            v = values(it, cls, q.value[1])
            G.prove('assignment copies every value and keeps the layout', q.pc + [le(I_(0), k), lt(k, NNZ)], and_(same, eq(v.n, NNZ), eq(v.at(k), v2(k))))
        it.state = st0
        eqs = [d for d in prog.funcs['operator=='] if short(params(d)[0]['type']['qualType']) == 'ConstraintJacobian_Base']
        for q in G.call(it, eqs[0], None, [ob, other], pre):
            G.prove('== means same layout and same values', q.pc, eq(q.value[0], and_(same, forall(x, implies(and_(le(I_(0), x), lt(x, NNZ)), eq(vals(x), v2(x)))))) if q.kind == 'ok' else FALSE)
        G.collect(it)
    for cls in KIND:
        for src in KIND: S.group('%s assigned from %s' % (cls, src), lambda G, a=(cls, src): assign(G, *a))

    # ---- other members
    def others(G, cls):
        it = G.interp(prog)
        ob, _ = obj(it, cls)
        k = var('k', 'I')
        st0 = it.state
        for nm, want in (('setZero', R(0)), ('setOnes', R(1))):
            it.state = st0
            for q in G.call(it, method(prog, cls, nm), ob, [], base_facts + [le(I_(0), NNZ), le(I_(0), k), lt(k, NNZ)]):
                it.state = q.state
                v = values(it, cls, q.value[1]) if q.kind == 'ok' else None
                G.prove(nm, q.pc, and_(eq(v.n, NNZ), eq(v.at(k), want)) if v else FALSE)
        it.state = st0
        for nm, f, n in (('get_allvalues', vals, NNZ), ('get_block_column_offsets', off, add(N, I_(1)))):
            for q in G.call(it, method(prog, cls, nm), ob, [], base_facts + [le(I_(0), NNZ)]):
                it.state = q.state
                r = it.rv(q.value[0]) if q.kind == 'ok' else None
                G.prove(nm, q.pc, and_(eq(r.n, n), eq(r.at(k), f(k))) if r else FALSE)
            it.state = st0
        if cls != 'ConstraintJacobian':
            L = var('new.n', 'I')
            new = it.alloc(Vec(L, Fn(lambda k: uf('new_storage', (k,), 'R')), 'vec'))
            for q in G.call(it, method(prog, cls, 'replace_storage'), ob, [Iter(new, I_(0)), L], base_facts):
                if q.kind != 'ok':
                    G.prove('refuses only storage of another size', q.pc, not_(eq(L, NNZ)))
                    continue
                it.state = q.state
                v = values(it, cls, q.value[1])
                G.prove('values live in the new storage', q.pc, and_(eq(L, NNZ), eq(v.at(k), uf('new_storage', (k,), 'R'))))
        G.collect(it)
    for cls in KIND: S.group(cls + ' members', lambda G, cls=cls: others(G, cls))


NATIVE = ('c11', ('model', 'opt'), 60, 3000)
