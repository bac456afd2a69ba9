"""C18: combining the input files loses nothing and mixes nothing up."""
from ..session import *
from ..units import model
from ..interp import ThrowEx
from ..loops import Inv
from ..values import jat, jhas, jidx, jsize, jput
from .common import *
from .. import cxx

NODES, CONN, ID = strc('nodes'), strc('connections'), strc('id')
NAME = var('name_of_inserted', 'S')
T0, S0 = var('topology', 'J'), var('second', 'J')
key, g, h = var('type', 'S'), var('g', 'I'), var('h', 'I')
ident = lambda e: uf('json_str', (jat(e, ID),), 'S')
rank = lambda e: uf('str_rank', (ident(e),), 'R')
keyof = lambda obj, i: uf('json_key', (obj, i), 'S')
pos = lambda obj, k: uf('json_keypos', (obj, k), 'I')
in_ = lambda x, n: and_(le(I_(0), x), lt(x, n))
CLASSES = (NODES, CONN)


def keys_exact(obj, k, i):
    """the i-th key of an object, and every key it has"""
    return and_(implies(in_(i, jsize(obj)), and_(jhas(obj, keyof(obj, i)), eq(pos(obj, keyof(obj, i)), i))),
                implies(jhas(obj, k), and_(in_(pos(obj, k), jsize(obj)), eq(keyof(obj, pos(obj, k)), k))))


def ordered(a, i, j):
    """arrays are sorted by id without duplicates: instance for two positions"""
    return implies(and_(le(I_(0), i), lt(i, j), lt(j, jsize(a))), lt(rank(jidx(a, i)), rank(jidx(a, j))))


def run(S):
    prog = model()
    FN = 'Model::insert_second_json_in_topology_json' if 'Model::insert_second_json_in_topology_json' in prog.funcs else 'insert_second_json_in_topology_json'

    def setup(it): it.json_mutable = True

    # ---- the merge
    def insert(G):
        it = G.interp(prog, setup)
        arr = lambda doc, c, k=key: jat(jat(doc, c), k)
        given = lambda c, k=key: and_(jhas(S0, c), jhas(jat(S0, c), k), jhas(jat(T0, c), k))

        def merged(a, c, top=None):
            q = fresh('q', 'I')
            src = arr(S0, c)
            old = jidx(arr(T0, c), g)
            return exists(q, and_(in_(q, jsize(src)), eq(rank(jidx(src, q)), rank(old)), eq(jidx(a, g), jput(old, NAME, jidx(src, q)))))
        st = {}

        def processed(I, v, c):
            cur = v('component')
            if cur is c: return TRUE if False else None
            return boolc(CLASSES.index(c) < CLASSES.index(cur))

        def outer(I, v):
            cur, T, p = v('component'), v('topology'), v('#key')
            out = []
            for c in CLASSES:
                def done(k): return lt(pos(jat(S0, c), k), p) if c is cur else boolc(CLASSES.index(c) < CLASSES.index(cur))
                k = fresh('k', 'S')
                out.append(('other types of %s are as before' % c.data, forall(k, implies(not_(and_(done(k), given(c, k))), eq(arr(T, c, k), arr(T0, c, k))))))
                out.append(('no type of %s appears or disappears' % c.data, forall(k, eq(jhas(jat(T, c), k), jhas(jat(T0, c), k)))))
                out.append(('merged %s keep their number' % c.data, implies(and_(done(key), given(c)), eq(jsize(arr(T, c)), jsize(arr(T0, c))))))
                out.append(('merged %s' % c.data, implies(and_(done(key), given(c), in_(g, jsize(arr(T0, c)))), merged(arr(T, c), c))))
            out.append(('!', and_(le(I_(0), p), keys_exact(jat(S0, cur), key, p))))
            return out
        def bind_outer(I, lv):
            I.state.ghost = dict(I.state.ghost, top=I.read(lv('topology')))
        def inner(I, v):
            c, k, T = v('component'), v('key'), v('topology')
            s, t = v('secjson_it').i, v('top_it').i
            src, old, a = jat(jat(S0, c), k), jat(jat(T0, c), k), jat(jat(T, c), k)
            q, r = fresh('q', 'I'), fresh('r', 'I')
            m = exists(q, and_(in_(q, s), eq(rank(jidx(src, q)), rank(jidx(old, g))), eq(jidx(a, g), jput(jidx(old, g), NAME, jidx(src, q)))))
            return [('both positions stay inside', and_(le(I_(0), s), le(s, jsize(src)), le(I_(0), t), le(t, jsize(old)))),
                    ('the number of components is unchanged', eq(jsize(a), jsize(old))),
                    ('components so far have their own entry', implies(and_(le(I_(0), g), lt(g, t)), m)),
                    ('the remaining components are as before', forall(r, implies(and_(le(t, r), lt(r, jsize(old))), eq(jidx(a, r), jidx(old, r))))),
                    ('earlier entries belong to earlier components', implies(and_(le(I_(0), h), lt(h, s), lt(t, jsize(old))), lt(rank(jidx(src, h)), rank(jidx(old, t))))),
                    ('!', and_(ordered(src, s, add(s, I_(1))), ordered(src, s, h), ordered(old, t, add(t, I_(1)))))]
        def bind_inner(I, lv):
            top = I.state.ghost['top']
            c, k = I.read(lv('component')), I.read(lv('key'))
            I.state.ghost = dict(I.state.ghost, at=(c, k, I.read(lv('secjson_it')).i, I.read(lv('top_it')).i))
            I.write(lv('topology'), jput(top, c, jput(jat(top, c), k, fresh('merging', 'J'))))
        it.loop_contracts[FN] = [None, Inv(outer, None, bind_outer), Inv(inner, lambda I, v: sub(add(jsize(jat(jat(S0, v('component')), v('key'))), jsize(jat(jat(T0, v('component')), v('key')))), add(v('secjson_it').i, v('top_it').i)), bind_inner)]
        hyps = [jhas(T0, c) for c in CLASSES] + [keys_exact(jat(S0, c), key, I_(0)) for c in CLASSES]
        top = it.alloc(T0)
        n = 0
        for q in G.call(it, prog.find(FN), None, [top, it.alloc(S0), NAME], hyps):
            if q.kind != 'ok':
                c, k, s, t = q.state.ghost['at']
                src, old = jat(jat(S0, c), k), jat(jat(T0, c), k)
                G.prove('refused only for a component without an entry', q.pc + [in_(h, jsize(src))], and_(in_(t, jsize(old)), given(c, k), not_(eq(rank(jidx(src, h)), rank(jidx(old, t))))))
                continue
            n += 1
            it.state = q.state
            T1 = it.read(top)
            for c in CLASSES:
                a, b = arr(T1, c), arr(T0, c)
                G.prove('every component of a given type has exactly its own entry (%s)' % c.data, q.pc + [given(c), in_(g, jsize(b))], merged(a, c))
                G.prove('no component is added or lost (%s)' % c.data, q.pc, eq(jsize(a), jsize(b)))
                G.prove('types without entries are unchanged (%s)' % c.data, q.pc + [not_(given(c))], eq(a, b))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('insert_second_json_in_topology_json', insert)
NATIVE = ('c18', ('model',), 80, 3000)
