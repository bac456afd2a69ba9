"""C14: matrix handlers put every contribution at its place."""
from ..session import *
from ..units import model
from .common import *

NR, NC = var('rows', 'I'), var('cols', 'I')
A = lambda r, c: uf('entry', (r, c), 'R')
N = var('pending', 'I')
inside = lambda r, c: and_(le(I_(0), r), lt(r, NR), le(I_(0), c), lt(c, NC))
x, y = var('x', 'I'), var('y', 'I')             # an arbitrary position
r, c, v = var('row', 'I'), var('col', 'I'), var('value', 'R')
# pending contributions: any list whose positions lie inside the matrix (what add_to_coefficient accepts)
clamp = lambda t, n: ite(and_(le(I_(0), t), lt(t, n)), t, I_(0))
prow = lambda k: clamp(uf('pending_row', (k,), 'I'), NR)
pcol = lambda k: clamp(uf('pending_col', (k,), 'I'), NC)
pval = lambda k: uf('pending_value', (k,), 'R')


def run(S):
    prog = model()

    def setup(it): it.sparse_probe = [(x, y)]

    def handler_at(it, kind, T, f=A, mk='sparse'):
        m = it.alloc(Mat2(NR, NC, Fn(f, 2), mk))
        d = {'matrix': View(m)}
        if kind == 'Triplethandler': d['tripletlist'] = Vec(N, Fn(lambda k: Tup([prow(k), pcol(k), pval(k)])), 'std')
        return Struct('%s<%d>' % (kind, T), d), m
    base = [le(I_(1), NR), le(I_(1), NC), le(I_(0), N)]
    k = var('k', 'I')
    for T in (0, 1):
        at = (lambda a, b: (b, a)) if T else (lambda a, b: (a, b))       # where a contribution for (row, col) belongs

        def ctor(G, kind, mk):
            it = G.interp(prog, setup)
            m = it.alloc(Mat2(NR, NC, Fn(A, 2), mk))
            cls = '%s<%d>' % (kind, T)
            fds = [d for d in prog.funcs.get(cls + '::' + kind, []) if cxx.Program.body(d) is not None]
            if len(fds) != 1: raise ExtractError('constructors of ' + cls)

            def go():
                lv = it.alloc(Struct(cls, {}))
                it.lib.run_ctor(cls, fds[0], lv, [m])
                return lv
            st = it.state.clone()
            st.pc = list(st.pc) + base
            ok = 0
            for q in it.explore(go, st):
                if q.kind != 'ok':
                    # only a handler that needs an empty matrix may refuse one
                    G.prove('a new handler refuses a matrix only if something is stored in it', q.pc, lt(I_(0), it.lib.nnz(Fn_of(it, m, q))) if kind == 'Triplethandler' else FALSE)
                    continue
                ok += 1
                it.state = q.state
                M = it.rv(m)
                G.prove('a new handler starts from the zero matrix', q.state.pc, and_(eq(M.nr, NR), eq(M.nc, NC), eq(M.at(x, y), R(0))))
                h = it.rv(q.value)
                if kind == 'Triplethandler': G.prove('a new handler holds no contributions', q.pc, eq(h.f['tripletlist'].n, I_(0)))
            if not ok: raise ExtractError('constructor never succeeds')
            G.collect(it)

        def Fn_of(it, m, q):
            saved, it.state = it.state, q.state
            f = it.rv(m).f
            it.state = saved
            return f
        for kind in ('Triplethandler', 'Coeffrefhandler'):
            for mk in ('sparse', 'sparse-c'):
                S.group('%s<%d> constructor (%s storage)' % (kind, T, 'compressed' if mk == 'sparse-c' else 'any'), lambda G, a=(kind, mk): ctor(G, *a))

        def add_triplet(G):
            it = G.interp(prog, setup)
            h, m = handler_at(it, 'Triplethandler', T)
            ar, ac = at(r, c)
            for q in G.call(it, method(prog, h.cls, 'add_to_coefficient'), h, [r, c, v], base):
                if q.kind != 'ok':
                    G.prove('refuses only positions outside the matrix', q.pc, not_(inside(ar, ac)))
                    continue
                G.prove('accepts only positions inside the matrix', q.pc, inside(ar, ac))
                it.state = q.state
                M, l = it.rv(m), it.rv(q.value[1]).f['tripletlist']
                e, o = l.at(k), l.at(N)
                G.prove('the contribution is recorded for its place', q.pc, and_(eq(l.n, add(N, I_(1))), eq(o.d[0], ar), eq(o.d[1], ac), eq(o.d[2], v)))
                G.prove('earlier contributions are kept', q.pc + [le(I_(0), k), lt(k, N)], and_(eq(e.d[0], prow(k)), eq(e.d[1], pcol(k)), eq(e.d[2], pval(k))))
                G.prove('the matrix is not touched before set_matrix', q.pc, and_(eq(M.nr, NR), eq(M.nc, NC), eq(M.at(x, y), A(x, y))))
            G.collect(it)
        S.group('Triplethandler<%d>::add_to_coefficient' % T, add_triplet)

        def build(G):
            it = G.interp(prog, setup)
            h, m = handler_at(it, 'Triplethandler', T)
            for q in G.call(it, method(prog, h.cls, 'set_matrix'), h, [], base):
                if q.kind != 'ok':
                    G.prove('set_matrix succeeds', q.pc, FALSE)
                    continue
                it.state = q.state
                M, l = it.rv(m), it.rv(q.value[1]).f['tripletlist']
                j = fresh('j', 'I')
                total = sum_(j, I_(0), N, ite(and_(eq(prow(j), x), eq(pcol(j), y)), pval(j), R(0)))
                G.prove('every entry is the sum of the contributions for it', q.pc, and_(eq(M.nr, NR), eq(M.nc, NC), eq(M.at(x, y), total)))
                G.prove('the contributions are forgotten', q.pc, eq(l.n, I_(0)))
            G.collect(it)
        S.group('Triplethandler<%d>::set_matrix' % T, build)

        def add_inplace(G):
            it = G.interp(prog, setup)
            h, m = handler_at(it, 'Coeffrefhandler', T)
            ar, ac = at(r, c)
            for q in G.call(it, method(prog, h.cls, 'add_to_coefficient'), h, [r, c, v], base):
                if q.kind != 'ok':
                    G.prove('refuses only positions outside the matrix', q.pc, not_(inside(ar, ac)))
                    continue
                G.prove('accepts only positions inside the matrix', q.pc, inside(ar, ac))
                it.state = q.state
                M = it.rv(m)
                G.prove('the contribution is added at its place, nothing else changes', q.pc, and_(eq(M.nr, NR), eq(M.nc, NC), eq(M.at(x, y), add(A(x, y), ite(and_(eq(x, ar), eq(y, ac)), v, R(0))))))
            G.collect(it)
        S.group('Coeffrefhandler<%d>::add_to_coefficient' % T, add_inplace)

        def nothing(G):
            it = G.interp(prog, setup)
            h, m = handler_at(it, 'Coeffrefhandler', T)
            for q in G.call(it, method(prog, h.cls, 'set_matrix'), h, [], base):
                it.state = q.state
                M = it.rv(m)
                G.prove('set_matrix leaves the matrix as it is', q.pc, and_(boolc(q.kind == 'ok'), eq(M.nr, NR), eq(M.nc, NC), eq(M.at(x, y), A(x, y))))
            G.collect(it)
        S.group('Coeffrefhandler<%d>::set_matrix' % T, nothing)

    # ---- the fresh build and the in-place update agree: by induction over the list of contributions
    def agree(G):
        """lemma over the two contracts: in-place entry after k contributions == sum of the first k contributions"""
        j = fresh('j', 'I')
        term = lambda i: ite(and_(eq(prow(i), x), eq(pcol(i), y)), pval(i), R(0))
        acc = lambda n: sum_(j, I_(0), n, term(j))
        G.prove('no contributions: both leave zero', base, eq(acc(I_(0)), R(0)))
        # one more contribution in place (contract of Coeffrefhandler) keeps the equality
        G.prove('one more contribution keeps them equal', base + [le(I_(0), k), lt(k, N)], eq(acc(add(k, I_(1))), add(acc(k), term(k))))
    S.group('fresh build and in-place update agree (lemma)', agree)


NATIVE = ('c14', ('model',), 100, 2000)
