"""Symbolic values.  Everything is immutable; functions (arrays) are closures over terms."""
from .terms import *


class Unsupported(Exception):
    pass


class Mat:
    """fixed-size Eigen matrix/vector"""
    __slots__ = ('r', 'c', 'd')

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, tuple(d)

    def at(self, i, j=0): return self.d[i * self.c + j]

    def map(self, f): return Mat(self.r, self.c, [f(x) for x in self.d])

    def __repr__(self): return 'Mat%dx%d%s' % (self.r, self.c, list(self.d))


class Fn:
    """total function from index terms to values"""
    __slots__ = ('get', 'arity', 'name')

    def __init__(self, get, arity=1, name=''):
        self.get, self.arity, self.name = get, arity, name

    def set(self, idx, v):
        old = self.get
        idx = tuple(idx)

        def g(*x):
            c = and_(*[eq(a, b) for a, b in zip(x, idx)])
            if c is TRUE: return v
            if c is FALSE: return old(*x)
            return merge(c, v, old(*x))
        return Fn(g, self.arity, self.name)


class Vec:
    """dynamic sequence: numeric vector, std::vector, std::list..., length n, elements get(i)"""
    __slots__ = ('n', 'f', 'kind')

    def __init__(self, n, f, kind='vec'):
        self.n = lift(n, 'I')
        self.f = f if isinstance(f, Fn) else Fn(f)
        self.kind = kind

    def at(self, i): return self.f.get(lift(i, 'I'))

    def __repr__(self): return 'Vec(n=%s)' % (self.n,)


class Mat2:
    """dynamic matrix, rows x cols"""
    __slots__ = ('nr', 'nc', 'f', 'kind')

    def __init__(self, nr, nc, f, kind='mat'):
        self.nr, self.nc = lift(nr, 'I'), lift(nc, 'I')
        self.f = f if isinstance(f, Fn) else Fn(f, 2)
        self.kind = kind

    def at(self, i, j): return self.f.get(lift(i, 'I'), lift(j, 'I'))


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, name, v):
        d = dict(self.f)
        d[name] = v
        return Struct(self.cls, d)

    def __repr__(self): return '%s{%s}' % (self.cls, ', '.join('%s=%r' % kv for kv in self.f.items()))


class Tup:
    __slots__ = ('d',)

    def __init__(self, d): self.d = tuple(d)

    def __repr__(self): return 'Tup' + repr(list(self.d))


class Opt:
    __slots__ = ('has', 'v')

    def __init__(self, has, v): self.has, self.v = has, v


class Ptr:
    """pointer / smart pointer: to an lvalue, or null"""
    __slots__ = ('lv',)

    def __init__(self, lv): self.lv = lv

    def __repr__(self): return 'Ptr(%r)' % (self.lv,)


class View:
    """a member that refers to another place (reference, Eigen::Map)"""
    __slots__ = ('lv',)

    def __init__(self, lv): self.lv = lv

    def __repr__(self): return 'View(%r)' % (self.lv,)


class Sym:
    """pointer-like handle to an object of an unbounded family: class bound + id term"""
    __slots__ = ('cls', 't', 'nonnull')

    def __init__(self, cls, t, nonnull=False): self.cls, self.t, self.nonnull = cls, t, nonnull

    def __repr__(self): return 'Sym(%s,%s)' % (self.cls, self.t)


class Iter:
    __slots__ = ('lv', 'i', 'rev')

    def __init__(self, lv, i, rev=False): self.lv, self.i, self.rev = lv, i, rev


class Lam:
    __slots__ = ('node', 'env', 'this', 'fields')

    def __init__(self, node, env, this, fields=None):
        self.node, self.env, self.this, self.fields = node, env, this, fields


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what): self.what = what

    def __repr__(self): return '<%s>' % self.what


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, *p): return LV(self.root, self.path + p)

    def __repr__(self): return 'LV(%r%s)' % (self.root, ''.join(str(p) for p in self.path))


class Comma:
    __slots__ = ('lv', 'items', 'shape')

    def __init__(self, lv, items): self.lv, self.items = lv, items


def merge(c, a, b):
    """if c then a else b"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [merge(c, x, y) for x, y in zip(a.d, b.d)])
    if isinstance(a, Mat) and a.c == 1 and isinstance(b, Vec): a = vec_of(a)
    if isinstance(b, Mat) and b.c == 1 and isinstance(a, Vec): b = vec_of(b)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return Fn(lambda *i: merge(c, a.get(*i), b.get(*i)), a.arity, a.name)
    if isinstance(a, Vec) and isinstance(b, Vec): return Vec(ite(c, a.n, b.n), merge(c, a.f, b.f), a.kind)
    if isinstance(a, Mat2) and isinstance(b, Mat2): return Mat2(ite(c, a.nr, b.nr), ite(c, a.nc, b.nc), merge(c, a.f, b.f), a.kind)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        return Struct(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, Tup) and isinstance(b, Tup): return Tup([merge(c, x, y) for x, y in zip(a.d, b.d)])
    if isinstance(a, Opt) and isinstance(b, Opt):
        if a.has is FALSE: return Opt(ite(c, a.has, b.has), b.v)
        if b.has is FALSE: return Opt(ite(c, a.has, b.has), a.v)
        return Opt(ite(c, a.has, b.has), merge(c, a.v, b.v))
    if isinstance(a, Sym) and isinstance(b, Sym): return Sym(a.cls, ite(c, a.t, b.t))
    if isinstance(a, Sym) and isinstance(b, Ptr) and b.lv is None: return Sym(a.cls, ite(c, a.t, var('null', 'O')))
    if isinstance(b, Sym) and isinstance(a, Ptr) and a.lv is None: return Sym(b.cls, ite(c, var('null', 'O'), b.t))
    if isinstance(a, Iter) and isinstance(b, Iter): return Iter(a.lv, ite(c, a.i, b.i), a.rev)
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a
    if isinstance(a, View) and isinstance(b, View) and same_lv(a.lv, b.lv): return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if same_lv(a.lv, b.lv): return a
    raise Unsupported('cannot merge %r and %r' % (a, b))


def same_lv(a, b):
    return a is b or (a is not None and b is not None and a.root == b.root and a.path == b.path)


def vec_of(m):
    def g(i):
        r = m.d[-1]
        for k in range(len(m.d) - 2, -1, -1): r = ite(eq(i, I(k)), m.d[k], r)
        return r
    if not m.d: return Vec(0, lambda i: R(0))
    return Vec(len(m.d), g)


def leaves(v, path=()):
    """[(path, leaf)] with leaves T / Fn / other"""
    if isinstance(v, Struct):
        out = []
        for k, x in v.f.items(): out += leaves(x, path + (k,))
        return out
    if isinstance(v, (Mat, Tup)):
        out = []
        for k, x in enumerate(v.d): out += leaves(x, path + (k,))
        return out
    if isinstance(v, Vec): return [(path + ('n',), v.n), (path + ('f',), v.f)]
    if isinstance(v, Mat2): return [(path + ('nr',), v.nr), (path + ('nc',), v.nc), (path + ('f',), v.f)]
    if isinstance(v, Opt): return leaves(v.has, path + ('has',)) + (leaves(v.v, path + ('v',)) if v.v is not None else [])
    if isinstance(v, Sym): return [(path + ('t',), v.t)]
    if isinstance(v, Iter): return [(path + ('i',), v.i)]
    return [(path, v)]


def put_leaf(v, path, x):
    if not path: return x
    p, rest = path[0], path[1:]
    if isinstance(v, Struct): return v.with_(p, put_leaf(v.f[p], rest, x))
    if isinstance(v, Mat):
        d = list(v.d); d[p] = put_leaf(d[p], rest, x)
        return Mat(v.r, v.c, d)
    if isinstance(v, Tup):
        d = list(v.d); d[p] = put_leaf(d[p], rest, x)
        return Tup(d)
    if isinstance(v, Vec): return Vec(x if p == 'n' else v.n, x if p == 'f' else v.f, v.kind)
    if isinstance(v, Mat2): return Mat2(x if p == 'nr' else v.nr, x if p == 'nc' else v.nc, x if p == 'f' else v.f, v.kind)
    if isinstance(v, Opt): return Opt(put_leaf(v.has, rest, x) if p == 'has' else v.has, put_leaf(v.v, rest, x) if p == 'v' else v.v)
    if isinstance(v, Sym): return Sym(v.cls, x)
    if isinstance(v, Iter): return Iter(v.lv, x, v.rev)
    raise Unsupported('put_leaf')


def map_leaves(v, f):
    for p, l in leaves(v): v = put_leaf(v, p, f(l))
    return v


def sym_like(v, name, idx):
    """value of the same shape whose leaves are uninterpreted functions of idx"""
    def one(p, l):
        nm = name + ''.join('.' + str(q) for q in p)
        if isinstance(l, T): return uf(nm, idx, l.sort) if idx else var(nm, l.sort)
        if isinstance(l, Fn):
            probe = l.get(*[fresh('probe', 'I') for _ in range(l.arity)])
            return Fn(lambda *x: sym_like(probe, nm, tuple(idx) + tuple(x)), l.arity, nm)
        return l
    out = v
    for p, l in leaves(v): out = put_leaf(out, p, one(p, l))
    return out


def vsubst(v, m):
    if not m: return v
    def one(l):
        if isinstance(l, T): return subst(l, m)
        if isinstance(l, Fn): return Fn(lambda *x: vsubst(l.get(*x), m), l.arity, l.name)
        return l
    return map_leaves(v, one)


# ------------------------------------------------------------ json documents that are written to
def jat(v, k):
    """the value of a key"""
    if v.op == 'uf' and v.data == 'json_put':
        v0, k0, x = v.args
        c = eq(k, k0)
        return x if c is TRUE else (jat(v0, k) if c is FALSE else ite(c, x, jat(v0, k)))
    if v.op == 'ite': return ite(v.args[0], jat(v.args[1], k), jat(v.args[2], k))
    return uf('json_at', (v, k), 'J')


def jhas(v, k):
    if v.op == 'uf' and v.data == 'json_put': return or_(eq(k, v.args[1]), jhas(v.args[0], k))
    if v.op == 'ite': return ite(v.args[0], jhas(v.args[1], k), jhas(v.args[2], k))
    return uf('json_has', (v, k), 'B')


def jidx(v, i):
    if v.op == 'uf' and v.data == 'json_set':
        v0, i0, x = v.args
        c = eq(i, i0)
        return x if c is TRUE else (jidx(v0, i) if c is FALSE else ite(c, x, jidx(v0, i)))
    if v.op == 'ite': return ite(v.args[0], jidx(v.args[1], i), jidx(v.args[2], i))
    return uf('json_idx', (v, i), 'J')


def jsize(v):
    if v.op == 'uf' and v.data == 'json_set': return jsize(v.args[0])
    if v.op == 'ite': return ite(v.args[0], jsize(v.args[1]), jsize(v.args[2]))
    return uf('json_size', (v,), 'I')


def jput(v, k, x): return uf('json_put', (v.args[0] if v.op == 'uf' and v.data == 'json_put' and v.args[1] is k else v, k, x), 'J')
def jset(v, i, x): return uf('json_set', (v.args[0] if v.op == 'uf' and v.data == 'json_set' and v.args[1] is i else v, i, x), 'J')
