"""Contracts of the library operations the code uses (Eigen, std).  This is the trusted base:
each operation is modelled by its documented mathematical meaning over the reals."""
import re
from fractions import Fraction
from .terms import *
from .values import *
from . import cxx
from .cxx import short, params


def I_(v): return num(v, 'I')


PI = 'pi'
NPOS = num(2 ** 64 - 1, 'I')


def targ(t):
    """template argument text of X<...>"""
    i = t.index('<')
    return t[i + 1:t.rindex('>')]


STREAMS = ('ostream', 'ostringstream', 'stringstream', 'ofstream', 'basic_ostream')


class Lib:
    def __init__(self, I): self.I = I

    def trust(self, what): self.I.trusted.add(what)

    # ------------------------------------------------------------ values
    def global_var(self, r):
        n = r.get('name')
        if n in ('cout', 'cerr', 'clog', 'cin'): return Opaque('stream')
        if n == 'npos': return NPOS
        return None

    def default_construct(self, base):
        from .interp import split_targs, is_real_type, is_int_type
        I = self.I
        m = re.search(r'Matrix<double, (-?\d+), (-?\d+)', base)
        if m:
            r, c = int(m.group(1)), int(m.group(2))
            if r > 0 and c > 0: return Mat(r, c, [fresh('uninit', 'R') for _ in range(r * c)])
            if r < 0 and c < 0: return Mat2(0, 0, lambda i, j: R(0))
            return Vec(0, lambda i: R(0))
        m = re.search(r'(Row)?Vector(\d)d\b', base)
        if m:
            k = int(m.group(2))
            return Mat(1 if m.group(1) else k, k if m.group(1) else 1, [fresh('uninit', 'R') for _ in range(k)])
        if re.search(r'VectorXd\b', base): return Vec(0, lambda i: R(0))
        if re.search(r'MatrixXd\b', base): return Mat2(0, 0, lambda i, j: R(0))
        if re.match(r'(Eigen::)?SparseMatrix', base): return self.zero_sparse(0, 0)
        if any(s in base for s in STREAMS): return Opaque('stream')
        b = base[5:] if base.startswith('std::') else base
        if re.match(r'(vector|deque|list)<', b):
            el = split_targs(targ(b))[0]
            try:
                proto = self.zero_of(el)
            except Unsupported:
                proto = None
            return Vec(0, (lambda i: proto), 'std')
        m = re.match(r'(tuple|pair)<', b)
        if m: return Tup([self.zero_of(x) for x in split_targs(targ(b))])
        if re.match(r'array<', b):
            ts = split_targs(targ(b))
            return Tup([I.default_value(ts[0]) for _ in range(int(re.sub(r'\D', '', ts[1])))])
        if re.match(r'optional<', b): return Opt(FALSE, None)
        if re.match(r'(unique_ptr|shared_ptr)<', b): return Ptr(None)
        if 'basic_string' in b or b == 'string': return strc('')
        if 'json' in b: return var('json_null', 'J')
        if re.match(r'(map|set|unordered_map|unordered_set|function)<', b): return Opaque(b[:30])
        c = short(base)
        if c in I.prog.records:
            lv = self.construct_class(c, [], None)
            return I.read(lv)
        return Opaque(base[:60])

    def zero_of(self, t):
        from .interp import is_real_type, is_int_type
        t = t.strip()
        if is_real_type(t): return R(0)
        if is_int_type(t): return I_(0)
        if t == 'bool': return FALSE
        if t.endswith('*'):
            c = short(t.rstrip('* ').replace('const ', ''))
            return Sym(c, var('null', 'O')) if c in self.I.prog.records else Ptr(None)
        return self.default_construct(t.replace('const ', '').strip())

    def as_range(self, v, lv):
        if isinstance(v, Vec): return v
        if isinstance(v, T) and v.sort == 'J' and getattr(self.I, 'json_mutable', False):
            self.I.assume(le(I_(0), jsize(v)))
            return lv, Vec(jsize(v), Fn(lambda i: jidx(v, i)), 'std')
        h = getattr(self.I, 'range_hook', None)
        if h:
            r = h(v, lv)
            if r is not None: return r
        return v

    # ------------------------------------------------------------ iterators
    def iter_op(self, op, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if not same_lv(x.lv, y.lv):
                raise Unsupported('iterators of different containers')
            a, b = x.i, y.i
            if op == '-': return sub(a, b)
            return {'==': lambda: eq(a, b), '!=': lambda: not_(eq(a, b)), '<': lambda: lt(a, b), '<=': lambda: le(a, b),
                    '>': lambda: lt(b, a), '>=': lambda: le(b, a)}[op]()
        if isinstance(x, Iter) and op == '+': return Iter(x.lv, add(x.i, lift(y, 'I')), x.rev)
        if isinstance(x, Iter) and op == '-': return Iter(x.lv, sub(x.i, lift(y, 'I')), x.rev)
        if isinstance(y, Iter) and op == '+': return Iter(y.lv, add(y.i, lift(x, 'I')), y.rev)
        if op in ('==', '!=') and any(isinstance(z, Ptr) and z.lv is None for z in (x, y)): return boolc(op == '!=')
        raise Unsupported('iterator operation ' + op)

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, x, y):
        I = self.I
        if isinstance(x, Opaque) or isinstance(y, Opaque): return Opaque('expr')
        if isinstance(x, T) and isinstance(y, T) and x.sort == 'S' and op == '+': return uf('concat', (x, y), 'S')
        if op in ('==', '!='):
            e = self.equal(x, y)
            return e if op == '==' else not_(e)
        if op in ('+', '-'):
            f = add if op == '+' else sub
            x, y = [z.f['v'] if isinstance(z, Struct) and z.cls == 'RowView' else z for z in (x, y)]
            if isinstance(x, Mat) and isinstance(y, Vec): x = vec_of(x)
            if isinstance(y, Mat) and isinstance(x, Vec): y = vec_of(y)
            if isinstance(x, Mat) and isinstance(y, Mat):
                if (x.r, x.c) != (y.r, y.c): raise Unsupported('matrix shapes')
                return Mat(x.r, x.c, [f(lift(a, 'R'), lift(b, 'R')) for a, b in zip(x.d, y.d)])
            if isinstance(x, Vec) and isinstance(y, Vec):
                if x.kind == 'std': raise Unsupported('vector +')
                I.oblige('vector sizes agree', eq(x.n, y.n), I.where(), 'bounds')
                return Vec(x.n, lambda i: f(x.at(i), y.at(i)))
            if isinstance(x, Mat2) and isinstance(y, Mat2):
                I.oblige('matrix shapes agree', and_(eq(x.nr, y.nr), eq(x.nc, y.nc)), I.where(), 'bounds')
                return Mat2(x.nr, x.nc, lambda i, j: f(x.at(i, j), y.at(i, j)))
            if isinstance(x, Vec) and isinstance(y, Mat2) or isinstance(x, Mat2) and isinstance(y, Vec):
                # a matrix with one row or column as a vector
                x, y = [self.line(z) if isinstance(z, Mat2) else z for z in (x, y)]
                return self.arith(op, x, y)
        if op == '*':
            if isinstance(x, T) and not isinstance(y, T): return self.scale(lift(x, 'R'), y)
            if isinstance(y, T) and not isinstance(x, T): return self.scale(lift(y, 'R'), x)
            return self.matmul(x, y)
        if op == '/' and isinstance(y, T):
            return self.emap(lambda a: div(lift(a, 'R'), lift(y, 'R')), x)
        raise Unsupported('operator %s on %s, %s' % (op, type(x).__name__, type(y).__name__))

    def line(self, m):
        if isnum(m.nc) and m.nc.data == 1: return Vec(m.nr, lambda i: m.at(i, I_(0)))
        if isnum(m.nr) and m.nr.data == 1: return Vec(m.nc, lambda i: m.at(I_(0), i))
        raise Unsupported('vector and matrix')

    def equal(self, x, y):
        if isinstance(x, T) and isinstance(y, T): return eq(x, y)
        if isinstance(x, Mat) and isinstance(y, Mat): return and_(*[eq(a, b) for a, b in zip(x.d, y.d)])
        if isinstance(x, Tup) and isinstance(y, Tup): return and_(*[self.equal(a, b) for a, b in zip(x.d, y.d)])
        if isinstance(x, (Ptr, Sym)) and isinstance(y, (Ptr, Sym)): return self.I.ptr_eq(x, y)
        if isinstance(x, Mat): x = vec_of(x)
        if isinstance(y, Mat): y = vec_of(y)
        if isinstance(x, Vec) and isinstance(y, Vec):
            k = fresh('i', 'I')
            return and_(eq(x.n, y.n), forall(k, implies(and_(le(I_(0), k), lt(k, x.n)), self.equal(x.at(k), y.at(k)))))
        raise Unsupported('== on %s' % type(x).__name__)

    def emap(self, f, x):
        if isinstance(x, T): return f(x)
        if isinstance(x, Mat): return x.map(f)
        if isinstance(x, Vec): return Vec(x.n, lambda i: f(x.at(i)), x.kind)
        if isinstance(x, Mat2): return Mat2(x.nr, x.nc, lambda i, j: f(x.at(i, j)), x.kind)
        raise Unsupported('map over ' + type(x).__name__)

    def scale(self, s, x): return self.emap(lambda a: mul(s, lift(a, 'R')), x)

    def matmul(self, x, y):
        I = self.I
        if isinstance(x, Mat) and isinstance(y, Mat):
            if x.c != y.r:
                raise Unsupported('matrix product shapes')
            m = Mat(x.r, y.c, [add(*[mul(x.at(i, k), y.at(k, j)) for k in range(x.c)]) for i in range(x.r) for j in range(y.c)])
            if (m.r, m.c) == (1, 1): return m.d[0]
            return m
        if isinstance(x, Mat2) and isinstance(y, Vec):
            k = fresh('k', 'I')
            I.oblige('inner dimensions agree', eq(x.nc, y.n), I.where(), 'bounds')
            return Vec(x.nr, lambda i: sum_(k, I_(0), x.nc, mul(x.at(i, k), y.at(k))))
        if isinstance(x, Mat2) and isinstance(y, Mat2):
            k = fresh('k', 'I')
            I.oblige('inner dimensions agree', eq(x.nc, y.nr), I.where(), 'bounds')
            return Mat2(x.nr, y.nc, lambda i, j: sum_(k, I_(0), x.nc, mul(x.at(i, k), y.at(k, j))))
        if isinstance(x, Struct) and x.cls == 'RowView' and isinstance(y, Mat2):
            k = fresh('k', 'I')
            v = x.f['v']
            I.oblige('inner dimensions agree', eq(v.n, y.nr), I.where(), 'bounds')
            return Struct('RowView', {'v': Vec(y.nc, lambda j: sum_(k, I_(0), y.nr, mul(v.at(k), y.at(k, j))))})
        if isinstance(x, Struct) and x.cls == 'RowView' and isinstance(y, Vec):
            return self.dot(x.f['v'], y)
        raise Unsupported('matrix product of %s and %s' % (type(x).__name__, type(y).__name__))

    def dot(self, x, y):
        if isinstance(x, Mat) and isinstance(y, Mat): return add(*[mul(a, b) for a, b in zip(x.d, y.d)])
        if isinstance(x, Mat): x = vec_of(x)
        if isinstance(y, Mat): y = vec_of(y)
        k = fresh('k', 'I')
        self.I.oblige('vector sizes agree', eq(x.n, y.n), self.I.where(), 'bounds')
        return sum_(k, I_(0), x.n, mul(x.at(k), y.at(k)))

    # ------------------------------------------------------------ construction
    def init_list(self, n):
        from .interp import tyof
        I = self.I
        t = tyof(n).replace('const ', '').strip()
        inner = [c for c in n.get('inner', []) if c]
        if n.get('array_filler'):
            pass
        b = t[5:] if t.startswith('std::') else t
        vals = None
        if re.match(r'array<', b):
            # nested braces
            v = I.rv(I.eval(inner[0])) if inner else self.default_construct(t)
            if isinstance(v, Tup): return v
            return Tup([v])
        if t.endswith(']'):
            vals = [I.rv(I.eval(c)) for c in inner]
            return Tup(vals)
        c = short(t)
        if c in I.prog.records:
            f = {}
            fields = I.prog.fields(c)
            own = [x for x in fields]
            for (cc, fd), e in zip(own, inner):
                f[fd['name']] = I.coerce(I.rv(I.eval(e)), tyof(fd))
            for cc, fd in own[len(inner):]:
                f[fd['name']] = self.zero_of(tyof(fd))
            return Struct(c, f)
        vals = [I.rv(I.eval(x)) for x in inner]
        if not vals:
            return self.zero_of(t)
        if len(vals) == 1 and isinstance(vals[0], T): return I.coerce(vals[0], t)
        return Tup(vals)

    def seq_of(self, vals, kind='std'):
        if not vals: return Vec(0, lambda i: R(0), kind)

        def g(i):
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1): r = merge(eq(i, I_(k)), vals[k], r)
            return r
        return Vec(len(vals), g, kind)

    def map_of(self, items, ts, kind):
        """a map/set with the listed entries: ordered by key, the first of equal keys counts"""
        items = [self.convert(x, ts[0]) if kind == 'set' else Tup([self.convert(y, t) for y, t in zip(x.d, ts)]) for x in items]
        key = lambda x: x if kind == 'set' else x.d[0]
        if not all(isinstance(key(x), T) and key(x).op in ('str', 'num') for x in items): raise Unsupported('map entries')
        out = {}
        for x in items: out.setdefault(key(x).data, x)
        return self.seq_of([out[k] for k in sorted(out, key=lambda k: k.encode() if isinstance(k, str) else k)], kind)

    def convert(self, x, t):
        c = short(t.replace('const ', '').strip())
        if isinstance(x, T) and c in self.I.prog.records: return self.I.read(self.construct_class(c, [x], None))
        return self.I.coerce(x, t)

    def map_key(self, v, i):
        e = v.f.get(i)
        return e if v.kind == 'set' else e.d[0]

    def map_index(self, v, x):
        """position of key x, or the size: std::map::find"""
        I = self.I
        if isinstance(v.n, T) and v.n.op == 'num':
            r = v.n
            for k in range(int(v.n.data) - 1, -1, -1): r = ite(eq(self.map_key(v, I_(k)), x), I_(k), r)
            return r
        i, j = fresh('found', 'I'), fresh('j', 'I')
        I.assume(le(I_(0), i), le(i, v.n), implies(lt(i, v.n), eq(self.map_key(v, i), x)),
                 forall(j, implies(and_(le(I_(0), j), lt(j, v.n), eq(self.map_key(v, j), x)), eq(j, i))))
        for e in getattr(I, 'map_probe', ()): I.assume(implies(and_(le(I_(0), e), lt(e, v.n), eq(self.map_key(v, e), x)), eq(e, i)))
        return i

    def need_map(self, v):
        if not (isinstance(v, Vec) and v.kind in ('map', 'set')): raise Unsupported('map operation on %r' % (v,))

    def m_find(self, b, v, a, n):
        self.need_map(v)
        return Iter(self.lvof(b, v), self.map_index(v, self.ev(a)[0]))

    def m_count(self, b, v, a, n):
        self.need_map(v)
        return ite(lt(self.map_index(v, self.ev(a)[0]), v.n), I_(1), I_(0))

    def m_contains(self, b, v, a, n):
        self.need_map(v)
        return lt(self.map_index(v, self.ev(a)[0]), v.n)

    def construct(self, n):
        from .interp import tyof, split_targs
        I = self.I
        t = tyof(n).replace('const ', '').strip()
        args = [c for c in n.get('inner', []) if c]
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        b = t[5:] if t.startswith('std::') else t
        if any(s in b.split('<')[0] for s in STREAMS): return Opaque('stream')
        c = short(t)
        if c in I.prog.records:
            rec = I.prog.records[c]
            if len(args) == 1:
                v = I.eval(args[0])
                at = short(tyof(args[0]))
                if at == c or c in I.prog.mro(at): return self.copy(v)
                return I.read(self.construct_class(c, [v], n))
            return I.read(self.construct_class(c, [I.eval(a) for a in args], n))
        if self.is_exception(b): return Opaque('exception')
        if I.is_view_type(t):
            v = I.eval(args[0])
            w = I.rv(v)
            if isinstance(w, Iter) and len(args) == 2 and re.match(r'(Eigen::)?Map<', t):
                ln = I.rv(I.eval(args[1]))
                I.oblige('mapped memory is inside its buffer', and_(le(I_(0), w.i), le(I_(0), ln), le(add(w.i, ln), I.read(w.lv).n)), I.loc(n), 'bounds')
                return w.lv.sub(('seg', w.i, ln))
            if isinstance(w, Iter) and len(args) == 3 and re.match(r'(Eigen::)?Map<', t):
                nr, nc = I.rv(I.eval(args[1])), I.rv(I.eval(args[2]))
                if not re.search(r'Matrix<double, -1, -1, 1\b', t): raise Unsupported('column-major map')
                I.oblige('mapped memory is inside its buffer', and_(le(I_(0), w.i), le(I_(0), nr), le(I_(0), nc), le(add(w.i, mul(nr, nc)), I.read(w.lv).n)), I.loc(n), 'bounds')
                return w.lv.sub(('rm', w.i, nr, nc))
            return v
        m = re.match(r'(Eigen::)?(Matrix<double, (-?\d+), (-?\d+)|VectorXd|MatrixXd|RowVectorXd|Vector\dd)', t)
        if m: return self.construct_eigen(t, args)
        m = re.match(r'(?:Eigen::)?(?:Matrix<(.*), -1, 1(?:, .*)?>|VectorX<(.*)>)$', t)
        if m and len(args) <= 1:
            proto = self.zero_of((m.group(1) or m.group(2)).strip())
            if not args: return Vec(0, lambda i: proto)
            v = I.rv(I.eval(args[0]))
            if isinstance(v, Vec): return v
            nm = fresh('uninit', 'R').data
            return Vec(v, lambda i: sym_like(proto, nm, (i,)))
        if re.match(r'(Eigen::)?SparseMatrix', t):
            if not args: return self.default_construct(t)
            vs = [I.rv(I.eval(a)) for a in args]
            if len(vs) == 1: return vs[0]
            return self.zero_sparse(vs[0], vs[1])
        if re.match(r'(Eigen::)?Triplet', t):
            vs = [I.rv(I.eval(a)) for a in args]
            return Tup(vs)
        if re.match(r'(vector|deque|list)<', b):
            if not args: return self.default_construct(t)
            es = [I.eval(a) for a in args]
            vs = [I.rv(e) for e in es]
            if len(vs) == 1 and isinstance(vs[0], Vec):
                self.moved(args[0], es[0], vs[0])
                return vs[0]
            if len(vs) == 1 and isinstance(vs[0], Tup): return self.seq_of(vs[0].d)
            if isinstance(vs[0], Iter) and len(vs) == 2:
                src = I.read(vs[0].lv)
                lo, hi = vs[0].i, vs[1].i
                return Vec(sub(hi, lo), lambda i: src.at(add(lo, i)), 'std')
            el = split_targs(targ(b))[0]
            x = vs[1] if len(vs) > 1 else self.zero_of(el)
            if len(vs) > 1: x = I.coerce(x, el)
            I.oblige('vector size is not negative', le(I_(0), vs[0]), I.loc(n), 'bounds')
            return Vec(vs[0], lambda i: x, 'std')
        if re.match(r'(tuple|pair)<', b):
            if not args: return self.default_construct(t)
            vs = [I.rv(I.eval(a)) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Tup):
                ts = split_targs(targ(b))
                return Tup([I.coerce(v, x) for v, x in zip(vs[0].d, ts)])
            ts = split_targs(targ(b))
            return Tup([self.convert(v, x) for v, x in zip(vs, ts)])
        if re.match(r'(unordered_)?(map|set)<', b) and args:
            v = I.rv(I.eval(args[0]))
            if isinstance(v, Tup): v = self.map_of(v.d, split_targs(targ(b)), 'set' if 'set' in b[:14] else 'map')
            if not isinstance(v, Vec): raise Unsupported('map construction')
            return v
        if re.match(r'\w+_distribution<.*>::param_type$', b): return Tup([I.rv(I.eval(a)) for a in args])
        if re.match(r'array<', b):
            if not args: return self.default_construct(t)
            return I.rv(I.eval(args[0]))
        if re.match(r'optional<', b):
            if not args: return Opt(FALSE, None)
            v = I.rv(I.eval(args[0]))
            if isinstance(v, Opt): return v
            if isinstance(v, Opaque) and v.what == 'nullopt': return Opt(FALSE, None)
            return Opt(TRUE, v)
        if re.match(r'(unique_ptr|shared_ptr|reference_wrapper)<', b):
            if not args: return Ptr(None)
            return I.rv(I.eval(args[0])) if not isinstance(args[0], LV) else args[0]
        if 'basic_string' in b or b == 'string':
            if not args: return strc('')
            v = I.rv(I.eval(args[0]))
            return v if isinstance(v, T) and v.sort == 'S' else Opaque('string')
        if 'json' in b:
            if not args: return var('json_null', 'J')
            v = I.rv(I.eval(args[0]))
            return v
        if 'iterator' in b or '__normal' in b:
            if args: return I.rv(I.eval(args[0]))
        if len(args) == 1:
            v = I.eval(args[0])
            if isinstance(v, LV): return I.rv(v)
            return v
        if not args: return self.default_construct(t)
        raise Unsupported('construct ' + t[:80])

    def moved(self, node, lv, v):
        """a container that is moved from is left empty"""
        from .interp import strip_casts
        e = strip_casts(node)
        if e.get('kind') == 'CallExpr' and isinstance(lv, LV) and strip_casts(e['inner'][0]).get('referencedDecl', {}).get('name') == 'move':
            self.I.write(lv, Vec(0, v.f, v.kind))

    def is_exception(self, b):
        return b.split('<')[0] in ('runtime_error', 'invalid_argument', 'logic_error', 'exception', 'out_of_range', 'domain_error')

    def copy(self, v):
        I = self.I
        if isinstance(v, LV) and isinstance(v.root, tuple) and not v.path:
            # copy of a symbolic object: snapshot of its fields
            return v
        return I.rv(v)

    def construct_eigen(self, t, args):
        I = self.I
        if not args: return self.default_construct(t)
        vs = [I.rv(I.eval(a)) for a in args]
        m = re.search(r'Matrix<double, (-?\d+), (-?\d+)', t)
        if m: r, c = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r'(Row)?Vector(\d)d', t)
            if m: r, c = (1, int(m.group(2))) if m.group(1) else (int(m.group(2)), 1)
            elif 'MatrixXd' in t: r, c = -1, -1
            else: r, c = -1, 1
        if r > 0 and c > 0:
            if len(vs) == r * c and all(isinstance(v, T) for v in vs): return Mat(r, c, [lift(v, 'R') for v in vs])
            if len(vs) == 1: return I.coerce(vs[0], t)
        if len(vs) == 1 and isinstance(vs[0], T):
            nm = fresh('uninit', 'R').data
            return Vec(vs[0], lambda i: uf(nm, (i,), 'R'))
        if len(vs) == 1: return I.coerce(vs[0], t)
        if len(vs) == 2 and r < 0 and c < 0:
            nm = fresh('uninit', 'R').data
            return Mat2(vs[0], vs[1], lambda i, j: uf(nm, (i, j), 'R'))
        raise Unsupported('construct ' + t[:80])

    # project classes ----------------------------------------------------
    def construct_class(self, cls, argvals, n):
        I = self.I
        fds = I.prog.funcs.get(cls.split('<')[0] + '::' + cls.split('<')[0], []) + (I.prog.funcs.get(cls + '::' + cls.split('<')[0], []) if '<' in cls else [])
        fds = [f for f in fds if cxx.required(f) <= len(argvals) <= len(params(f)) and not self.is_copy_ctor(f, cls)]
        h = I.contracts.get(cls + '::' + cls)
        if h:
            I.called_contracts.add(cls + '::' + cls)
            lv = I.alloc(Struct(cls, {}))
            h(I, lv, argvals, n)
            return lv
        if len(fds) > 1:
            ct = (n or {}).get('ctorType', {}).get('qualType')
            f2 = [f for f in fds if f['type']['qualType'] == ct]
            if f2: fds = f2
        if not fds:
            if argvals: raise Unsupported('no constructor of %s with %d arguments' % (cls, len(argvals)))
            lv = I.alloc(Struct(cls, {}))
            self.init_fields(cls, lv, {}, all_bases=True)
            return lv
        lv = I.alloc(Struct(cls, {}))
        self.run_ctor(cls, fds[0], lv, argvals)
        return lv

    def is_copy_ctor(self, f, cls):
        ps = params(f)
        return len(ps) == 1 and short(ps[0]['type']['qualType']) == cls

    def init_fields(self, cls, lv, given, all_bases=False):
        """default member initialisers of one class"""
        from .interp import tyof
        I = self.I
        todo = I.prog.mro(cls) if all_bases else [cls]
        for c in reversed(todo):
            r = I.prog.records.get(c)
            if not r: continue
            for x in r.get('inner', []):
                if x and x.get('kind') == 'FieldDecl' and x['name'] not in given:
                    init = [q for q in x.get('inner', []) if q and not q['kind'].endswith(('Attr', 'Comment'))]
                    try:
                        if init and x.get('hasInClassInitializer'):
                            I.frames.append({'__fn__': c + ' init', 'this': lv})
                            try:
                                v = I.coerce(I.rv(I.eval(init[0])), tyof(x))
                            finally:
                                I.frames.pop()
                        else:
                            v = I.default_value(tyof(x), x)
                    except Unsupported:
                        continue
                    st = I.read(lv)
                    I.write(lv, st.with_(x['name'], v))

    def run_ctor(self, cls, fd, lv, argvals):
        from .interp import tyof, ReturnEx
        I = self.I
        q = cls + '::' + cls
        I.used.add(q)
        fr = {'__fn__': q, 'this': lv}
        I.frames.append(fr)
        I.depth += 1
        if I.depth > 40: raise Unsupported('constructor recursion')
        try:
            I.bind_params(fd, fr, argvals)
            inits = cxx.ctor_inits(fd)
            done = set()
            deleg = False
            for it in inits:
                e = [c for c in it.get('inner', []) if c]
                e = e[0] if e else None
                if 'anyInit' in it:
                    name = it['anyInit']['name']
                    t = it['anyInit']['type'].get('desugaredQualType') or it['anyInit']['type']['qualType']
                    done.add(name)
                    if e is None: continue
                    if e['kind'] == 'CXXDefaultInitExpr':
                        fdcl = I.prog.decls.get(it['anyInit']['id'])
                        init = [q for q in (fdcl or {}).get('inner', []) if q and not q['kind'].endswith(('Attr', 'Comment'))]
                        if not init:
                            done.discard(name)
                            continue
                        e = init[-1]
                    x = I.eval(e)
                    if (t.rstrip().endswith('&') or I.is_view_type(t)) and isinstance(x, LV): v = View(x)
                    elif t.rstrip().endswith('&'): raise Unsupported('reference member ' + name)
                    else: v = I.coerce(I.rv(x), t)
                    st = I.read(lv)
                    I.write(lv, st.with_(name, v))
                elif 'baseInit' in it:
                    b = short(it['baseInit'].get('desugaredQualType') or it['baseInit']['qualType'])
                    self.sub_ctor(b, lv, e)
                elif 'delegatingInit' in it:
                    deleg = True
                    self.sub_ctor(cls, lv, e)
            if not deleg:
                self.init_fields(cls, lv, done)
            body = cxx.Program.body(fd)
            if body is not None:
                try:
                    I.exec(body)
                except ReturnEx:
                    pass
        finally:
            I.frames.pop()
            I.depth -= 1

    def sub_ctor(self, b, lv, e):
        I = self.I
        if b not in I.prog.records: return
        from .interp import strip_casts
        while e is not None and e['kind'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr') and e.get('inner'):
            e = e['inner'][-1]
        h = I.contracts.get(b + '::' + b)
        if e is not None and e['kind'] == 'CXXInheritedCtorInitExpr': raise Unsupported('inherited constructor')
        argv = [I.eval(a) for a in (e.get('inner', []) if e is not None else []) if a and a.get('kind') != 'CXXDefaultArgExpr']
        if h:
            I.called_contracts.add(b + '::' + b)
            return h(I, lv, argv, e)
        fds = [f for f in I.prog.funcs.get(b.split('<')[0] + '::' + b.split('<')[0], []) if cxx.required(f) <= len(argv) <= len(params(f)) and not self.is_copy_ctor(f, b)]
        ct = (e or {}).get('ctorType', {}).get('qualType')
        if len(fds) > 1: fds = [f for f in fds if f['type']['qualType'] == ct] or fds
        if not fds and len(argv) == 1:
            o = I.rv(argv[0])
            if isinstance(o, Struct) and b in I.prog.mro(o.cls):
                own = [f for f in I.prog.funcs.get(b + '::' + b, []) if self.is_copy_ctor(f, b)]
                own = [f for f in own if f['type']['qualType'] == (e or {}).get('ctorType', {}).get('qualType')] or own
                if own: return self.run_ctor(b, own[0], lv, argv)
                st = I.read(lv)
                for _, d in I.prog.fields(b):
                    if d['name'] in o.f: st = st.with_(d['name'], o.f[d['name']])
                I.write(lv, st)
                return
        if fds: self.run_ctor(b, fds[0], lv, argv)
        else:
            for bb in reversed(I.prog.bases(b)): self.sub_ctor(bb, lv, None)
            self.init_fields(b, lv, {})

    # ------------------------------------------------------------ operators
    def operator_call(self, n):
        from .interp import strip_casts, tyof
        I = self.I
        callee = strip_casts(n['inner'][0])
        args = n['inner'][1:]
        r = callee.get('referencedDecl', {})
        name = r.get('name', '')
        op = name[8:].strip() if name.startswith('operator') else name
        at = tyof(args[0])
        if op == '<<' and (any(s in at for s in STREAMS)):
            return Opaque('stream')
        decl = I.prog.decls.get(r.get('id'))
        fd = I.prog.definition(decl) if decl is not None else None
        if fd is None and decl is not None and decl.get('_q') in I.prog.funcs:
            c = [f for f in I.prog.funcs[decl['_q']] if f['type']['qualType'] == decl['type']['qualType']]
            if len(c) == 1: fd = c[0]
        a0 = I.eval(args[0])
        v0 = I.rv(a0) if not isinstance(a0, Comma) else a0
        if isinstance(v0, Lam) and op == '()':
            return I.call_lambda(v0, [I.eval(a) for a in args[1:]], n)
        if callable(v0) and op == '()': return v0(I, [I.eval(a) for a in args[1:]], n)
        if decl is not None and op == '=' and decl.get('isImplicit') or (decl is not None and op == '=' and decl.get('explicitlyDefaulted')):
            fd = None
        if decl is not None and decl.get('_q') in I.contracts:
            I.called_contracts.add(decl['_q'])
            if decl['kind'] == 'CXXMethodDecl':
                return I.contracts[decl['_q']](I, a0, [I.eval(a) for a in args[1:]], n)
            return I.contracts[decl['_q']](I, None, [a0] + [I.eval(a) for a in args[1:]], n)
        if fd is not None and fd['kind'] == 'CXXMethodDecl':
            cls, sym = I.dynclass(a0, decl, at)
            return I.call_def(fd, a0, [I.eval(a) for a in args[1:]])
        if fd is not None: return I.call_def(fd, None, [a0] + [I.eval(a) for a in args[1:]])
        if op == ',' and isinstance(v0, Comma): return self.comma(v0, I.rv(I.eval(args[1])))
        if op == '<<' and isinstance(v0, (Mat, Vec, Mat2)):
            c = Comma(a0, [])
            return self.comma(c, I.rv(I.eval(args[1])))
        if op == '<<': return Opaque('stream')
        if op == '=':
            e1 = I.eval(args[1])
            x = I.rv(e1)
            if isinstance(v0, Vec) and isinstance(x, Vec) and v0.kind == 'std':
                I.write(a0, x)
                self.moved(args[1], e1, x)
                return a0
            if isinstance(v0, Tup) and len(v0.d) and all(isinstance(d, LV) for d in v0.d):   # std::tie
                for d, y in zip(v0.d, x.d): I.write(d, y)
                return a0
            if isinstance(v0, Opaque) and v0.what == 'ignore': return a0
            if isinstance(v0, Opt):
                x = x if isinstance(x, Opt) else (Opt(FALSE, None) if isinstance(x, Opaque) and x.what == 'nullopt' else Opt(TRUE, x))
            if isinstance(v0, Vec) and isinstance(x, Struct) and x.cls == 'RowView': x = x.f['v']
            I.write(a0, I.coerce(x, at) if not I.is_view_type(at) else self.check_shape(v0, x))
            return a0
        if op in ('+=', '-=', '*=', '/='):
            x = I.rv(I.eval(args[1]))
            if isinstance(v0, Opaque): return a0
            I.write(a0, I.binop(op[0], v0, x, n))
            return a0
        if op in ('++', '--'):
            one = 1 if op == '++' else -1
            nv = Iter(v0.lv, add(v0.i, I_(one)), v0.rev) if isinstance(v0, Iter) else add(v0, num(one, v0.sort))
            I.write(a0, nv)
            return v0 if len(args) == 2 else a0
        if op == '*' and len(args) == 1: return I.deref(a0)
        if op == '->': return self.arrow(a0, v0)
        if op == '-' and len(args) == 1: return I.neg(v0)
        if op == '!' and len(args) == 1: return not_(I.as_bool(v0))
        if op in ('()', '[]'):
            return self.index(a0, v0, [I.rv(I.eval(a)) for a in args[1:]], n)
        if len(args) == 2:
            y = I.rv(I.eval(args[1]))
            if op in ('==', '!=') and (isinstance(v0, (Opt,)) or isinstance(y, Opt)):
                raise Unsupported('optional comparison')
            if isinstance(v0, T) and isinstance(y, T) and {v0.sort, y.sort} == {'J', 'S'} and op in ('==', '!='):
                j, st = (v0, y) if v0.sort == 'J' else (y, v0)
                e = and_(uf('json_is_string', (j,), 'B'), eq(uf('json_str', (j,), 'S'), st))
                return e if op == '==' else not_(e)
            return I.binop(op, v0, y, n)
        raise Unsupported('operator ' + op)

    def check_shape(self, v0, x):
        I = self.I
        if isinstance(v0, Vec) and isinstance(x, (Vec, Mat)):
            n = x.n if isinstance(x, Vec) else I_(len(x.d))
            I.oblige('assigned block has the right size', eq(v0.n, n), I.where(), 'bounds')
        return x

    def arrow(self, a0, v0):
        I = self.I
        if isinstance(v0, (Ptr, Sym)): return v0
        if isinstance(v0, Iter):
            lv = I.deref(v0)
            return Ptr(lv)
        if isinstance(v0, Opt):
            lv = I.deref(a0)
            return Ptr(lv) if isinstance(lv, LV) else Ptr(I.alloc(lv))
        if isinstance(a0, LV): return Ptr(a0)
        raise Unsupported('operator-> on %r' % (v0,))

    def comma(self, c, x):
        I = self.I
        v = I.read(c.lv)
        items = c.items + (list(x.d) if isinstance(x, Mat) else [x])
        c2 = Comma(c.lv, items)
        if isinstance(v, Mat):
            if isinstance(x, Vec): raise Unsupported('comma initialiser with a dynamic vector')
            if len(items) == len(v.d) and all(isinstance(y, T) for y in items):
                I.write(c.lv, Mat(v.r, v.c, [lift(y, 'R') for y in items]))
            return c2
        if isinstance(v, Vec):
            # fill positions so far
            pos = getattr(c, 'pos', None)
            off = I_(0)
            f = v.f
            for y in c.items:
                off = add(off, y.n if isinstance(y, Vec) else I_(1))
            if isinstance(x, Vec):
                I.write(c.lv.sub(('seg', off, x.n)), x)
            else:
                for k, y in enumerate(x.d if isinstance(x, Mat) else [x]):
                    I.in_bounds(v, add(off, I_(k)), 'comma initialiser')
                    I.write(c.lv.sub(('i', add(off, I_(k)))), lift(y, 'R'))
            return c2
        raise Unsupported('comma initialiser on ' + type(v).__name__)

    def index(self, a0, v0, idx, n):
        I = self.I
        if isinstance(v0, T) and v0.sort == 'J':
            return self.json_at(a0, v0, idx[0])
        if isinstance(v0, Iter):
            v = I.read(v0.lv)
            i = add(v0.i, idx[0])
            I.in_bounds(v, i, 'iterator subscript', n)
            return v0.lv.sub(('i', i))
        if isinstance(v0, Opaque): return Opaque('element')
        lv = a0 if isinstance(a0, LV) else I.alloc(v0)
        if isinstance(v0, Tup): return lv.sub(('t', int(idx[0].data))) if isnum(idx[0]) else self.tup_index(lv, v0, idx[0], n)
        if len(idx) == 1:
            I.in_bounds(v0, idx[0], 'subscript', n)
            return lv.sub(('i', idx[0]))
        i, j = idx
        if isinstance(v0, Mat):
            if not (isnum(i) and isnum(j)): I.oblige('index in bounds', and_(le(I_(0), i), lt(i, I_(v0.r)), le(I_(0), j), lt(j, I_(v0.c))), I.loc(n), 'bounds')
        elif isinstance(v0, Mat2):
            I.oblige('index in bounds', and_(le(I_(0), i), lt(i, v0.nr), le(I_(0), j), lt(j, v0.nc)), I.loc(n), 'bounds')
        return lv.sub(('c', i, j))

    def tup_index(self, lv, v, i, n):
        I = self.I
        I.oblige('array index in bounds', and_(le(I_(0), i), lt(i, I_(len(v.d)))), I.loc(n), 'bounds')
        for k in range(len(v.d) - 1):
            if I.branch(eq(i, I_(k))): return lv.sub(('t', k))
        return lv.sub(('t', len(v.d) - 1))

    def rank(self, x, y):
        """strings are totally ordered: compared by their rank"""
        self.trust('std::string: < is a strict total order consistent with ==')
        a, b = uf('str_rank', (x,), 'R'), uf('str_rank', (y,), 'R')
        if x is not y: self.I.assume(and_(implies(eq(a, b), eq(x, y)), implies(eq(x, y), eq(a, b))))
        return a, b

    def json_at(self, a0, v0, key):
        if getattr(self.I, 'json_mutable', False) and isinstance(key, T):
            lv = a0 if isinstance(a0, LV) else self.I.alloc(v0)
            if key.sort == 'S': return lv.sub(('jk', key))
            self.I.in_bounds(v0, key, 'json array')
            return lv.sub(('i', key))
        if isinstance(key, T): return self.I.alloc(uf('json_at', (v0, key), 'J')) if key.sort == 'S' else self.I.alloc(uf('json_idx', (v0, key), 'J'))
        raise Unsupported('json index')

    # ------------------------------------------------------------ methods
    def method(self, base, name, args, n, btype):
        I = self.I
        bv = I.rv(base) if isinstance(base, LV) else base
        if isinstance(bv, Comma):
            bv = I.rv(bv)
        if isinstance(bv, Ptr) and name in ('get', 'operator bool', 'release', 'reset', 'operator->'):
            if name == 'operator bool': return boolc(bv.lv is not None)
            if name == 'reset':
                I.write(base, Ptr(None) if not args else I.rv(I.eval(args[0])))
                return None
            return bv
        if isinstance(bv, Sym) and name in ('get', 'operator bool', 'operator->'):
            return bv if name != 'operator bool' else I.as_bool(bv)
        if name == 'get' and 'unique_ptr' in btype or name == 'get' and 'shared_ptr' in btype:
            return Ptr(base) if isinstance(base, LV) else Ptr(I.alloc(base))
        if name == 'get' and 'reference_wrapper' in btype: return base
        if isinstance(bv, Opaque):
            if bv.what == 'stream' or 'stream' in btype:
                return Opaque('string' if name == 'str' else 'stream')
            if name in ('what', 'c_str', 'str', 'string', 'type_name', 'append', 'flush', 'precision'): return Opaque('string')
            return NotImplemented
        h = getattr(self, 'm_' + re.sub(r'\W', '_', name), None)
        if isinstance(bv, Opt):
            if name == 'has_value' or name == 'operator bool': return bv.has
            if name == 'value':
                if not I.branch(bv.has): raise __import__('gv.interp', fromlist=['x']).ThrowEx('bad_optional_access')
                return base.sub(('o',)) if isinstance(base, LV) else bv.v
            if name == 'reset':
                I.write(base, Opt(FALSE, None))
                return None
        if isinstance(bv, T) and bv.sort == 'J': return self.json_method(base, bv, name, args, n)
        if isinstance(bv, T) and bv.sort == 'S': return self.string_method(base, bv, name, args, n)
        if isinstance(bv, Tup) and name in ('size', 'begin', 'end', 'at', 'front', 'back', 'fill'):
            if name == 'size': return I_(len(bv.d))
            if name == 'front': return base.sub(('t', 0))
            if name == 'back': return base.sub(('t', len(bv.d) - 1))
            if name == 'at':
                i = I.rv(I.eval(args[0]))
                if isnum(i): return base.sub(('t', int(i.data)))
                return self.tup_index(base, bv, i, n)
        if isinstance(bv, Struct) and bv.cls == 'SparseLU' and name in ('analyzePattern', 'factorize', 'compute', 'info', 'solve', 'lastErrorMessage'):
            return self.sparse_lu(base, bv, name, args, n)
        if isinstance(bv, Struct) and bv.cls == 'LU' and name == 'solve':
            return self.lusolve(bv.f['m'], I.rv(I.eval(args[0])))
        if isinstance(bv, Struct) and bv.cls == 'RowView' and name in ('transpose', 'eval', 'size', 'dot', 'norm'):
            v = bv.f['v']
            if name == 'transpose': return v
            base, bv = v, v
        if isinstance(bv, (Mat, Vec, Mat2)) and h is not None:
            return h(base, bv, args, n)
        if name in ('operator()', 'operator[]', 'coeff', 'coeffRef') and isinstance(bv, (Mat, Vec, Mat2, Tup)):
            return self.index(base, bv, [I.rv(I.eval(a)) for a in args], n)
        if name == 'operator=': 
            I.write(base, I.rv(I.eval(args[0])))
            return base
        return NotImplemented

    def sparse_lu(self, base, v, name, args, n):
        """Eigen::SparseLU: after a successful factorize(A), solve(b) is the x with A x = b"""
        I = self.I
        self.trust('Eigen::SparseLU: A x = b after a successful factorisation of A')
        if name == 'info': return ite(v.f['ok'], I_(0), I_(1))
        if name == 'lastErrorMessage': return Opaque('string')
        a = I.rv(I.eval(args[0]))
        if name == 'solve':
            I.oblige('a successful factorisation is present', v.f['ok'], I.loc(n), 'pre')
            hook = getattr(I, 'lu_solve', None)
            if hook: return hook(I, v.f['A'], a)
            nm = fresh('solution', 'R').data
            if isinstance(a, Vec): return Vec(a.n, lambda i: uf(nm, (i,), 'R'))
            return Mat2(a.nr, a.nc, lambda i, j: uf(nm, (i, j), 'R'))
        if name == 'analyzePattern': I.write(base, v.with_('analyzed', TRUE))
        else: I.write(base, v.with_('A', a).with_('ok', fresh('factorised', 'B')))
        return None

    def lusolve(self, m, b):
        I = self.I
        self.trust('Eigen lu().solve / inverse: M x = b for an invertible M')
        if not (isinstance(m, Mat) and m.r == m.c and isinstance(b, Mat) and b.r == m.r and m.r <= 4): raise Unsupported('lu solve')
        n = m.r
        if all(isnum(x) for x in m.d):
            # exact Gauss-Jordan
            A = [[x.data for x in m.d[i * n:(i + 1) * n]] + [1 if i == j else 0 for j in range(n)] for i in range(n)]
            for c in range(n):
                pv = next((r for r in range(c, n) if A[r][c] != 0), None)
                if pv is None:
                    I.oblige('matrix is invertible', FALSE, I.where(), 'bounds')
                    raise Unsupported('singular matrix')
                A[c], A[pv] = A[pv], A[c]
                d = A[c][c]
                A[c] = [Fraction(x) / d for x in A[c]]
                for r in range(n):
                    if r != c and A[r][c] != 0:
                        f = A[r][c]
                        A[r] = [x - f * y for x, y in zip(A[r], A[c])]
            inv = Mat(n, n, [R(A[i][n + j]) for i in range(n) for j in range(n)])
            return self.mm(inv, b)

        def det(rows, cols):
            if not rows: return R(1)
            out = R(0)
            r = rows[0]
            for k, c in enumerate(cols):
                t = mul(m.at(r, c), det(rows[1:], cols[:k] + cols[k + 1:]))
                out = add(out, t) if k % 2 == 0 else sub(out, t)
            return out
        idx = list(range(n))
        D = det(idx, idx)
        I.oblige('matrix is invertible', not_(eq(D, R(0))), I.where(), 'bounds')
        adj = []
        for i in idx:
            for j in idx:
                c = det([r for r in idx if r != j], [q for q in idx if q != i])
                adj.append(div(c if (i + j) % 2 == 0 else -c, D))
        return self.mm(Mat(n, n, adj), b)

    def mm(self, x, y):
        return Mat(x.r, y.c, [add(*[mul(x.at(i, k), y.at(k, j)) for k in range(x.c)]) for i in range(x.r) for j in range(y.c)])

    def ev(self, args): return [self.I.rv(self.I.eval(a)) for a in args if a.get('kind') != 'CXXDefaultArgExpr']

    def lvof(self, base, bv): return base if isinstance(base, LV) else self.I.alloc(bv)

    def size_of(self, v):
        if isinstance(v, Vec): return v.n
        if isinstance(v, Mat): return I_(len(v.d))
        if isinstance(v, Mat2): return mul(v.nr, v.nc)

    def m_size(self, b, v, a, n): return self.size_of(v)

    def m_rows(self, b, v, a, n): return v.n if isinstance(v, Vec) else (I_(v.r) if isinstance(v, Mat) else v.nr)

    def m_cols(self, b, v, a, n): return I_(1) if isinstance(v, Vec) else (I_(v.c) if isinstance(v, Mat) else v.nc)

    def m_empty(self, b, v, a, n): return eq(self.size_of(v), I_(0))

    def m_begin(self, b, v, a, n): return Iter(self.lvof(b, v), I_(0))

    m_cbegin = m_begin

    def m_end(self, b, v, a, n): return Iter(self.lvof(b, v), self.size_of(v))

    m_cend = m_end

    def m_rbegin(self, b, v, a, n): return Iter(self.lvof(b, v), I_(0), True)

    # Eigen::SparseMatrix: coefficients as a function of the position; kind 'sparse-c': compressed storage,
    # 'sparse': storage may have gaps, then the value array does not list the stored coefficients contiguously
    def nnz(self, f):
        I = self.I
        if not hasattr(I, 'nnz_of'): I.nnz_of = {}
        if id(f) not in I.nnz_of: I.nnz_of[id(f)] = (f, fresh('nnz', 'I'))
        t = I.nnz_of[id(f)][1]
        I.assume(le(I_(0), t))
        for r, c in getattr(I, 'sparse_probe', ()):
            I.assume(or_(lt(I_(0), t), eq(f.get(r, c), R(0))))       # what is not stored is zero
        return t

    def zero_sparse(self, nr, nc):
        """a sparse matrix in which nothing is stored"""
        v = Mat2(nr, nc, lambda i, j: R(0), 'sparse-c')
        if not hasattr(self.I, 'nnz_of'): self.I.nnz_of = {}
        self.I.nnz_of[id(v.f)] = (v.f, I_(0))
        return v

    def sparse(self, v):
        if not (isinstance(v, Mat2) and v.kind.startswith('sparse')): raise Unsupported('sparse matrix operation on %r' % (v,))

    def m_nonZeros(self, b, v, a, n):
        if isinstance(v, Vec): return v.n
        self.sparse(v)
        return self.nnz(v.f)

    def m_makeCompressed(self, b, v, a, n):
        self.sparse(v)
        self.I.write(b, Mat2(v.nr, v.nc, v.f, 'sparse-c'))

    def m_isCompressed(self, b, v, a, n):
        self.sparse(v)
        return TRUE if v.kind == 'sparse-c' else fresh('compressed', 'B')

    def m_valuePtr(self, b, v, a, n):
        self.sparse(v)
        return Iter(self.lvof(b, v).sub(('vals',)), I_(0))

    def m_coeffs(self, b, v, a, n):
        self.sparse(v)
        self.I.oblige('coeffs() of a compressed matrix', boolc(v.kind == 'sparse-c'), self.I.loc(n), 'pre')
        return self.lvof(b, v).sub(('vals',))

    def m_coeffRef(self, b, v, a, n):
        I = self.I
        x = self.ev(a)
        if not (isinstance(v, Mat2) and v.kind.startswith('sparse')):
            return self.index(b, v, x, n)
        I.oblige('coefficient lies inside the matrix', and_(le(I_(0), x[0]), lt(x[0], v.nr), le(I_(0), x[1]), lt(x[1], v.nc)), I.loc(n), 'bounds')
        I.write(b, Mat2(v.nr, v.nc, v.f, 'sparse'))
        return self.lvof(b, v).sub(('c', x[0], x[1]))

    def m_setFromTriplets(self, b, v, a, n):
        I = self.I
        self.sparse(v)
        x = self.ev(a)
        if not all(isinstance(y, Iter) for y in x) or len(x) != 2: raise Unsupported('setFromTriplets')
        src = I.read(x[0].lv)
        lo, hi = x[0].i, x[1].i
        k = fresh('k', 'I')
        e = src.at(k)
        I.oblige('triplets lie inside the matrix', implies(and_(le(lo, k), lt(k, hi)), and_(le(I_(0), e.d[0]), lt(e.d[0], v.nr), le(I_(0), e.d[1]), lt(e.d[1], v.nc))), I.loc(n), 'bounds')

        def at(r, c):
            k = fresh('k', 'I')
            e = src.at(k)
            return sum_(k, lo, hi, ite(and_(eq(e.d[0], r), eq(e.d[1], c)), lift(e.d[2], 'R'), R(0)))
        I.write(b, Mat2(v.nr, v.nc, Fn(at, 2), 'sparse-c'))

    def m_front(self, b, v, a, n):
        self.I.in_bounds(v, I_(0), 'front()', n)
        return self.lvof(b, v).sub(('i', I_(0)))

    def m_back(self, b, v, a, n):
        self.I.in_bounds(v, sub(v.n, I_(1)), 'back()', n)
        return self.lvof(b, v).sub(('i', sub(self.size_of(v), I_(1))))

    def m_at(self, b, v, a, n):
        i = self.ev(a)[0]
        I = self.I
        if isinstance(v, Vec) and v.kind == 'map':
            i = self.map_index(v, i)
            if not I.branch(lt(i, v.n)):
                from .interp import ThrowEx
                raise ThrowEx('out_of_range')
            return self.lvof(b, v).sub(('i', i)).sub(('t', 1))
        if not I.branch(and_(le(I_(0), i), lt(i, self.size_of(v)))):
            from .interp import ThrowEx
            raise ThrowEx('out_of_range')
        return self.lvof(b, v).sub(('i', i))

    def m_push_back(self, b, v, a, n): return self.append(b, v, self.ev(a)[0])

    def append(self, b, v, x):
        I = self.I
        m = v.n
        old = v.f
        I.on_write(b)
        if isinstance(v.n, T) and v.n.op == 'num' and v.n.data == 0:
            I.write(b, Vec(1, Fn(lambda i: x), v.kind))
        else:
            I.write(b, Vec(add(m, I_(1)), Fn(lambda i: merge(eq(i, m), x, old.get(i))), v.kind))
        return None

    def m_emplace_back(self, b, v, a, n):
        if len(a) > 1:
            from .interp import tyof
            el = tyof(n['inner'][0]['inner'][0]) if n.get('inner') and n['inner'][0].get('inner') else ''
            if any(w in el for w in ('pair<', 'tuple<', 'Triplet<')): return self.append(b, v, Tup(self.ev(a)))
            raise Unsupported('emplace_back with several arguments on ' + el)
        return self.m_push_back(b, v, a, n)

    def m_pop_back(self, b, v, a, n):
        self.I.oblige('pop_back on a non-empty vector', lt(I_(0), v.n), self.I.loc(n), 'bounds')
        self.I.write(b, Vec(sub(v.n, I_(1)), v.f, v.kind))

    def m_clear(self, b, v, a, n): self.I.write(b, Vec(0, v.f, v.kind))

    def m_reserve(self, b, v, a, n): return None

    def m_shrink_to_fit(self, b, v, a, n): return None

    def m_segment(self, b, v, a, n):
        from .interp import tyof
        I = self.I
        x = self.ev(a)
        off = x[0]
        if len(x) > 1: ln = x[1]
        else:
            ln = self.static_len(n)
        size = self.size_of(v)
        I.oblige('segment in bounds', and_(le(I_(0), off), le(I_(0), ln), le(add(off, ln), size)), I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('seg', off, ln))

    def static_len(self, n):
        from .interp import tyof
        t = tyof(n)
        m = re.search(r',\s*(\d+)(, (?:true|false))?>\s*$', t.strip().rstrip('&').replace('const', '').strip()) or re.search(r'VectorBlock<.*, (\d+)>', t)
        if not m: raise Unsupported('static block length in ' + t)
        return I_(int(m.group(1)))

    def m_head(self, b, v, a, n):
        x = self.ev(a)
        ln = x[0] if x else self.static_len(n)
        self.I.oblige('head in bounds', and_(le(I_(0), ln), le(ln, self.size_of(v))), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('seg', I_(0), ln))

    def m_tail(self, b, v, a, n):
        x = self.ev(a)
        ln = x[0] if x else self.static_len(n)
        s = self.size_of(v)
        self.I.oblige('tail in bounds', and_(le(I_(0), ln), le(ln, s)), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('seg', sub(s, ln), ln))

    def m_block(self, b, v, a, n):
        x = self.ev(a)
        if len(x) != 4: raise Unsupported('static block')
        I = self.I
        nr, nc = self.m_rows(b, v, a, n), self.m_cols(b, v, a, n)
        I.oblige('block in bounds', and_(*[le(I_(0), y) for y in x], le(add(x[0], x[2]), nr), le(add(x[1], x[3]), nc)), I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('blk', *x))

    def m_middleCols(self, b, v, a, n):
        x = self.ev(a)
        self.I.oblige('columns in bounds', and_(le(I_(0), x[0]), le(I_(0), x[1]), le(add(x[0], x[1]), v.nc)), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('blk', I_(0), x[0], v.nr, x[1]))

    def m_middleRows(self, b, v, a, n):
        x = self.ev(a)
        self.I.oblige('rows in bounds', and_(le(I_(0), x[0]), le(I_(0), x[1]), le(add(x[0], x[1]), v.nr)), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('blk', x[0], I_(0), x[1], v.nc))

    def m_rightCols(self, b, v, a, n):
        x = self.ev(a)[0]
        self.I.oblige('columns in bounds', and_(le(I_(0), x), le(x, v.nc)), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('blk', I_(0), sub(v.nc, x), v.nr, x))

    def m_leftCols(self, b, v, a, n):
        x = self.ev(a)[0]
        self.I.oblige('columns in bounds', and_(le(I_(0), x), le(x, v.nc)), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('blk', I_(0), I_(0), v.nr, x))

    def m_bottomRows(self, b, v, a, n):
        x = self.ev(a)[0]
        self.I.oblige('rows in bounds', and_(le(I_(0), x), le(x, v.nr)), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('blk', sub(v.nr, x), I_(0), x, v.nc))

    def m_topRows(self, b, v, a, n):
        x = self.ev(a)[0]
        self.I.oblige('rows in bounds', and_(le(I_(0), x), le(x, v.nr)), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('blk', I_(0), I_(0), x, v.nc))

    def m_col(self, b, v, a, n):
        x = self.ev(a)[0]
        self.I.oblige('column in bounds', and_(le(I_(0), x), lt(x, self.m_cols(b, v, a, n))), self.I.loc(n), 'bounds')
        return self.lvof(b, v).sub(('col', x))

    def m_row(self, b, v, a, n):
        x = self.ev(a)[0]
        self.I.oblige('row in bounds', and_(le(I_(0), x), lt(x, self.m_rows(b, v, a, n))), self.I.loc(n), 'bounds')
        if isinstance(v, Mat):
            i = int(x.data)
            return Mat(1, v.c, [v.at(i, j) for j in range(v.c)])
        return self.lvof(b, v).sub(('row', x))

    def m_norm(self, b, v, a, n):
        return sqrt_(self.dot(v, v)) if not isinstance(v, Mat2) else uf('matnorm', (), 'R')

    def m_squaredNorm(self, b, v, a, n): return self.dot(v, v)

    def m_dot(self, b, v, a, n): return self.dot(v, self.ev(a)[0])

    def m_sum(self, b, v, a, n):
        if isinstance(v, Mat): return add(*v.d)
        k = fresh('k', 'I')
        return sum_(k, I_(0), v.n, v.at(k))

    def fill(self, b, v, x):
        I = self.I
        if isinstance(v, Mat): I.write(b, Mat(v.r, v.c, [x] * len(v.d)))
        elif isinstance(v, Vec): I.write(b, Vec(v.n, lambda i: x, v.kind))
        else: I.write(b, Mat2(v.nr, v.nc, lambda i, j: x, v.kind))
        return b

    def m_isZero(self, b, v, a, n):
        i, j = fresh('i', 'I'), fresh('j', 'I')
        if isinstance(v, Vec): return forall(i, implies(and_(le(I_(0), i), lt(i, v.n)), eq(v.at(i), R(0))))
        if isinstance(v, Mat2): return forall((i, j), implies(and_(le(I_(0), i), lt(i, v.nr), le(I_(0), j), lt(j, v.nc)), eq(v.at(i, j), R(0))))
        raise Unsupported('isZero on ' + type(v).__name__)

    def m_setZero(self, b, v, a, n):
        x = self.ev(a)
        if x and isinstance(v, Vec):
            self.I.write(b, Vec(x[0], lambda i: R(0), v.kind))
            return b
        if x and isinstance(v, Mat2):
            self.I.write(b, Mat2(x[0], x[1], lambda i, j: R(0), v.kind))
            return b
        return self.fill(b, v, R(0))

    def m_setOnes(self, b, v, a, n): return self.fill(b, v, R(1))

    def m_setConstant(self, b, v, a, n): return self.fill(b, v, lift(self.ev(a)[0], 'R'))

    m_fill = m_setConstant

    def m_setIdentity(self, b, v, a, n):
        if isinstance(v, Mat): self.I.write(b, Mat(v.r, v.c, [R(1 if i == j else 0) for i in range(v.r) for j in range(v.c)]))
        else: self.I.write(b, Mat2(v.nr, v.nc, lambda i, j: ite(eq(i, j), R(1), R(0)), v.kind))
        return b

    def m_resize(self, b, v, a, n):
        x = self.ev(a)
        I = self.I
        nm = fresh('uninit', 'R').data
        if isinstance(v, Vec) and v.kind == 'std':
            old, m = v.f, v.n
            try:
                z = map_leaves(v.at(I_(0)), lambda l: num(0, l.sort) if isinstance(l, T) and l.sort in 'RI' else (FALSE if isinstance(l, T) and l.sort == 'B' else l))
            except Exception:
                raise Unsupported('resize of object vector')
            if isinstance(z, Vec): z = Vec(0, z.f, z.kind)
            if len(x) > 1: z = x[1]
            I.write(b, Vec(x[0], Fn(lambda i: merge(lt(i, m), old.get(i), z)), v.kind))
        elif isinstance(v, Vec):
            # Eigen keeps the coefficients only when the size does not change
            same = eq(x[0], v.n)
            old = v.f
            I.write(b, Vec(x[0], Fn(lambda i: merge(same, old.get(i), uf(nm, (i,), 'R'))), v.kind))
        elif isinstance(v, Mat2): I.write(b, self.zero_sparse(x[0], x[1]) if v.kind.startswith('sparse') else Mat2(x[0], x[1], (lambda i, j: uf(nm, (i, j), 'R')), v.kind))
        elif isinstance(v, Mat): pass
        return None

    def m_conservativeResize(self, b, v, a, n):
        x = self.ev(a)
        nm = fresh('uninit', 'R').data
        old, m = v.f, v.n
        self.I.write(b, Vec(x[0], Fn(lambda i: ite(lt(i, m), old.get(i), uf(nm, (i,), 'R'))), v.kind))

    def m_transpose(self, b, v, a, n):
        if isinstance(v, Vec): return Struct('RowView', {'v': v})
        return self.I.step(v, ('tr',))

    def m_lu(self, b, v, a, n): return Struct('LU', {'m': v})
    m_partialPivLu = m_fullPivLu = m_lu

    def m_determinant(self, b, v, a, n):
        if (v.r, v.c) == (2, 2): return sub(mul(v.d[0], v.d[3]), mul(v.d[1], v.d[2]))
        raise Unsupported('determinant')

    def m_inverse(self, b, v, a, n):
        if isinstance(v, Mat): return self.lusolve(v, Mat(2, 2, [R(1), R(0), R(0), R(1)]))
        raise Unsupported('inverse')

    def m_noalias(self, b, v, a, n): return b

    m_eval = m_array = m_matrix = m_derived = m_noalias

    def m_data(self, b, v, a, n): return Iter(self.lvof(b, v), I_(0))

    def m_maxCoeff(self, b, v, a, n):
        # contract: an upper bound that is attained
        I = self.I
        m = fresh('maxc', 'R')
        if isinstance(v, Mat): v = vec_of(v)
        k, w = fresh('k', 'I'), fresh('argmax', 'I')
        I.oblige('maxCoeff of a non-empty vector', lt(I_(0), v.n), I.loc(n), 'bounds')
        I.assume(forall(k, implies(and_(le(I_(0), k), lt(k, v.n)), le(v.at(k), m))), le(I_(0), w), lt(w, v.n), eq(v.at(w), m))
        return m

    def m_get(self, b, v, a, n): return b

    def m_erase(self, b, v, a, n):
        x = self.ev(a)
        if len(x) == 1 and isinstance(x[0], Iter):
            i = x[0].i
            self.I.in_bounds(v, i, 'erase', n)
            old = v.f
            self.I.write(b, Vec(sub(v.n, I_(1)), Fn(lambda j: merge(lt(j, i), old.get(j), old.get(add(j, I_(1))))), v.kind))
            return Iter(b, i)
        if len(x) == 2:
            lo, hi = x[0].i, x[1].i
            old = v.f
            d = sub(hi, lo)
            self.I.write(b, Vec(sub(v.n, d), Fn(lambda j: merge(lt(j, lo), old.get(j), old.get(add(j, d)))), v.kind))
            return Iter(b, lo)
        return NotImplemented

    # strings / json ------------------------------------------------------
    def string_method(self, base, v, name, args, n):
        I = self.I
        if name in ('c_str', 'data', 'str', 'string'): return v
        if name in ('size', 'length'):
            return self.strlen(v)
        if name == 'empty': return eq(v, strc(''))
        x = self.ev(args)
        if name == 'compare':
            if len(x) == 1: l, r = v, x[0]
            elif len(x) == 3:
                I.oblige('compare inside the string', and_(le(I_(0), x[0]), le(x[0], self.strlen(v))), I.loc(n), 'bounds')
                l, r = self.substr(v, x[0], x[1]), x[2]
            else: return NotImplemented
            return ite(eq(l, r), I_(0), ite(uf('str_less', (l, r), 'B'), I_(-1), I_(1)))
        if name == 'substr':
            pos = x[0] if x else I_(0)
            if not I.branch(le(pos, self.strlen(v))):
                from .interp import ThrowEx
                raise ThrowEx('out_of_range')
            return self.substr(v, pos, x[1] if len(x) > 1 else sub(self.strlen(v), pos))
        if name in ('find', 'rfind', 'find_first_of', 'find_last_of') and len(x) == 1:
            self.trust('std::string::%s: some position of the string or npos' % name)
            if x[0].op == 'str' and len(x[0].data) == 1: name = {'find_last_of': 'rfind', 'find_first_of': 'find'}.get(name, name)
            r = uf('str_' + name, (v, x[0]), 'I')
            I.assume(or_(eq(r, NPOS), and_(le(I_(0), r), lt(r, self.strlen(v)))))
            return r
        return NotImplemented

    def strlen(self, s):
        r = uf('strlen', (s,), 'I') if s.op != 'str' else I_(len(s.data.encode()))
        if r.op != 'num': self.I.assume(le(I_(0), r))
        return r

    def substr(self, s, pos, n):
        if s.op == 'str' and isnum(pos) and isnum(n): return strc(s.data.encode()[int(pos.data):int(pos.data) + int(n.data)].decode())
        return uf('substr', (s, pos, n), 'S')

    def f_stod(self, a, n):
        I = self.I
        s = I.rv(I.eval(a[0]))
        self.trust('std::stod: the leading number of the string and where it ends, or an exception')
        if not I.branch(uf('stod_ok', (s,), 'B')):
            from .interp import ThrowEx
            raise ThrowEx('invalid_argument')
        if len(a) > 1 and a[1].get('kind') != 'CXXDefaultArgExpr':
            p = I.rv(I.eval(a[1]))
            e = uf('stod_end', (s,), 'I')
            I.assume(le(I_(0), e), le(e, self.strlen(s)))
            if not isinstance(p, Ptr) or p.lv is None: raise Unsupported('stod position')
            I.write(p.lv, e)
        return uf('stod', (s,), 'R')

    def json_method(self, base, v, name, args, n):
        from .interp import tyof, is_real_type, is_int_type
        I = self.I
        if name == 'contains': return jhas(v, self.ev(args)[0])
        if name in ('size',): return jsize(v)
        if getattr(I, 'json_mutable', False):
            lv = base if isinstance(base, LV) else I.alloc(v)
            if name in ('begin', 'cbegin', 'end', 'cend'): I.assume(le(I_(0), jsize(v)))
            if name in ('begin', 'cbegin'): return Iter(lv, I_(0))
            if name in ('end', 'cend'):
                return Iter(lv, jsize(v))
            if name == 'items': return self.json_items(v, lv)
        if name in ('get', 'operator int', 'operator double', 'operator basic_string') or name.startswith('operator '):
            t = tyof(n)
            return self.json_as(v, t)
        if name in ('operator[]', 'at'):
            return self.json_at(base, v, self.ev(args)[0])
        if name in ('is_string', 'is_number', 'is_object', 'is_array', 'is_number_integer', 'is_boolean', 'is_null', 'empty'): return uf('json_' + name, (v,), 'B')
        if name == 'dump': return uf('json_dump', (v,), 'S')
        return NotImplemented

    def json_items(self, v, lv):
        self.trust('nlohmann::json: the keys of an object are distinct')
        n = jsize(v)
        self.I.assume(le(I_(0), n))
        key = lambda i: uf('json_key', (v, i), 'S')
        hook = getattr(self.I, 'items_hook', None)
        if hook: hook(v, n, key)
        return Vec(n, Fn(lambda i: Tup([key(i), View(lv.sub(('jk', key(i))))])), 'std')

    def json_as(self, v, t):
        from .interp import is_real_type, is_int_type
        t = t.replace('const ', '').strip()
        if is_real_type(t): return uf('json_real', (v,), 'R')
        if is_int_type(t): return uf('json_int', (v,), 'I')
        if t == 'bool': return uf('json_bool', (v,), 'B')
        if 'basic_string' in t or t.endswith('string'): return uf('json_str', (v,), 'S')
        if 'json' in t: return v
        b = t[5:] if t.startswith('std::') else t
        from .interp import split_targs
        if b.startswith('array<'):
            el, n = split_targs(targ(b))
            n = int(re.sub(r'\D', '', n))
            if not self.I.branch(eq(uf('json_size', (v,), 'I'), I_(n))):
                from .interp import ThrowEx
                raise ThrowEx('json_size')
            return Tup([self.json_as(uf('json_idx', (v, I_(i)), 'J'), el) for i in range(n)])
        if b.startswith('vector<'):
            el = split_targs(targ(b))[0]
            n = uf('json_size', (v,), 'I')
            self.I.assume(le(I_(0), n))
            return Vec(n, Fn(lambda i: self.json_as(uf('json_idx', (v, i), 'J'), el)), 'std')
        raise Unsupported('json as ' + t)

    # ------------------------------------------------------------ free functions
    def free(self, r, args, n):
        name = r.get('name', '')
        m = getattr(self, 'f_' + name, None)
        if m is None: raise Unsupported('library function ' + name)
        return m(args, n)

    def num1(self, args):
        v = self.ev(args)[0]
        if isinstance(v, T): return v
        raise Unsupported('scalar argument')

    def f_sin(self, a, n): return uf('sin', (lift(self.num1(a), 'R'),), 'R')
    def f_cos(self, a, n): return uf('cos', (lift(self.num1(a), 'R'),), 'R')
    def f_tan(self, a, n):
        x = lift(self.num1(a), 'R')
        return div(uf('sin', (x,), 'R'), uf('cos', (x,), 'R'))

    def f_exp(self, a, n): return exp_(lift(self.num1(a), 'R'))
    def f_log(self, a, n): return log_(lift(self.num1(a), 'R'))
    def f_log10(self, a, n): return div(log_(lift(self.num1(a), 'R')), log_(R(10)))
    def f_sqrt(self, a, n): return sqrt_(lift(self.num1(a), 'R'))
    def f_fabs(self, a, n): return abs_(lift(self.num1(a), 'R'))

    def f_abs(self, a, n): return abs_(self.num1(a))

    def f_pow(self, a, n):
        x, y = self.ev(a)
        return pow_(lift(x, 'R'), lift(y, 'R'))

    def f_floor(self, a, n): return to_real(floor_(lift(self.num1(a), 'R')))
    def f_ceil(self, a, n): return to_real(ceil_(lift(self.num1(a), 'R')))

    def f_isnan(self, a, n):
        x = self.num1(a)
        h = getattr(self.I, 'isnan_hook', None)
        if h: return h(x)
        return FALSE

    def f_isfinite(self, a, n): return not_(self.f_isnan(a, n))

    def f_max(self, a, n):
        if not a:
            from .interp import tyof
            lim = {'int': 2 ** 31 - 1, 'long': 2 ** 63 - 1, 'unsigned int': 2 ** 32 - 1, 'unsigned long': 2 ** 64 - 1}.get(tyof(n))
            if lim is None: raise Unsupported('numeric_limits::max of ' + tyof(n))
            return num(lim, 'I')
        x, y = self.ev(a)[:2]
        return ite(lt(x, y), y, x)

    def f_min(self, a, n):
        x, y = self.ev(a)[:2]
        return ite(lt(y, x), y, x)

    def f_move(self, a, n): return self.I.eval(a[0])
    f_forward = f_ref = f_cref = f_as_const = f_addressof_ = f_move

    def f_to_string(self, a, n):
        x = self.ev(a)[0]
        return uf('to_string', (x,), 'S') if isinstance(x, T) else Opaque('string')

    def f_make_unique(self, a, n):
        from .interp import tyof, split_targs
        I = self.I
        t = tyof(n)
        t = t[5:] if t.startswith('std::') else t
        inner = split_targs(targ(t))[0]
        return Ptr(self.make_obj(inner, a, n))
    f_make_shared = f_make_unique

    def make_obj(self, t, a, n):
        I = self.I
        c = short(t)
        vals = [I.eval(x) for x in a if x.get('kind') != 'CXXDefaultArgExpr']
        if c in I.prog.records: return self.construct_class(c, vals, None)
        if len(vals) == 1: return I.alloc(I.coerce(I.rv(vals[0]), t.replace('const ', '').strip()))
        raise Unsupported('make_unique of ' + t)

    def f_make_pair(self, a, n): return Tup(self.ev(a))
    f_make_tuple = f_make_pair

    def f_tie(self, a, n): return Tup([self.I.eval(x) for x in a])

    def f_get(self, a, n):
        I = self.I
        v = I.eval(a[0])
        m = None
        # the index is in the callee's template arguments
        callee = n['inner'][0]
        from .interp import strip_casts, tyof
        d = strip_casts(callee)
        t = d.get('referencedDecl', {}).get('type', {}).get('qualType', '')
        m = re.search(r'__tuple_element_t<(\d+)|tuple_element<(\d+)', t)
        if not m: raise Unsupported('std::get: ' + t)
        k = int(m.group(1) or m.group(2))
        if isinstance(v, LV): return I.tuple_elem(v, k)
        return v.d[k]

    def f_begin(self, a, n):
        v = self.I.eval(a[0])
        return self.m_begin(v, self.I.rv(v), [], n)

    def f_end(self, a, n):
        v = self.I.eval(a[0])
        return self.m_end(v, self.I.rv(v), [], n)

    f_cbegin, f_cend = f_begin, f_end

    def f_size(self, a, n): return self.size_of(self.I.rv(self.I.eval(a[0])))

    def f_next(self, a, n):
        x = self.ev(a)
        return Iter(x[0].lv, add(x[0].i, x[1] if len(x) > 1 else I_(1)), x[0].rev)

    def f_prev(self, a, n):
        x = self.ev(a)
        return Iter(x[0].lv, sub(x[0].i, x[1] if len(x) > 1 else I_(1)), x[0].rev)

    def f_advance(self, a, n):
        lv = self.I.eval(a[0])
        it = self.I.rv(lv)
        self.I.write(lv, Iter(it.lv, add(it.i, self.I.rv(self.I.eval(a[1]))), it.rev))

    def f_distance(self, a, n):
        x = self.ev(a)
        return sub(x[1].i, x[0].i)

    def f_is_sorted(self, a, n):
        I = self.I
        x = self.ev(a)
        if len(x) > 2: raise Unsupported('is_sorted with comparison')
        v = I.read(x[0].lv)
        k = fresh('k', 'I')
        b = forall(k, implies(and_(le(x[0].i, k), lt(add(k, I_(1)), x[1].i)), le(v.at(k), v.at(add(k, I_(1))))))
        self.trust('std::is_sorted')
        # expose the transitive form, which follows by induction
        i, j = fresh('i', 'I'), fresh('j', 'I')
        t = forall((i, j), implies(and_(le(x[0].i, i), le(i, j), lt(j, x[1].i)), le(v.at(i), v.at(j))))
        I.assume(or_(not_(b), t))
        return b

    def first_iter(self, v, it, hi, pred, what):
        """the first position in [it.i, hi) with pred, or hi"""
        I = self.I
        m, j = fresh(what, 'I'), fresh('j', 'I')
        I.assume(le(it.i, m), le(m, hi), forall(j, implies(and_(le(it.i, j), lt(j, m)), not_(pred(v.at(j))))),
                 or_(eq(m, hi), pred(v.at(m))))
        self.trust('std::' + what)
        return Iter(it.lv, m)

    def f_lower_bound(self, a, n):
        I = self.I
        x = self.ev(a)
        v = I.read(x[0].lv)
        if len(x) > 3: raise Unsupported('lower_bound with comparison')
        k = fresh('k', 'I')
        I.oblige('lower_bound on a sorted range', forall(k, implies(and_(le(x[0].i, k), lt(add(k, I_(1)), x[1].i)), le(v.at(k), v.at(add(k, I_(1)))))), I.loc(n))
        it = self.first_iter(v, x[0], x[1].i, lambda e: le(x[2], e), 'lower_bound')
        j = fresh('j', 'I')
        I.assume(forall(j, implies(and_(le(it.i, j), lt(j, x[1].i)), le(x[2], v.at(j)))))
        return it

    def f_upper_bound(self, a, n):
        I = self.I
        x = self.ev(a)
        v = I.read(x[0].lv)
        it = self.first_iter(v, x[0], x[1].i, lambda e: lt(x[2], e), 'upper_bound')
        j = fresh('j', 'I')
        I.assume(forall(j, implies(and_(le(it.i, j), lt(j, x[1].i)), lt(x[2], v.at(j)))))
        return it

    def f_find(self, a, n):
        x = self.ev(a)
        v = self.I.read(x[0].lv)
        return self.first_iter(v, x[0], x[1].i, lambda e: self.equal(e, x[2]), 'find')

    def pred_of(self, lam, n):
        """a side-effect free predicate as a formula"""
        I = self.I

        def p(e):
            base = I.state
            nb = len(base.pc)
            I.quiet += 1
            try:
                ps = I.explore(lambda: I.as_bool(I.rv(I.call_lambda(lam, [e if isinstance(e, LV) else I.alloc(e)], n))), base)
            finally:
                I.quiet -= 1
            if any(q.kind not in ('ok', 'return') for q in ps): raise Unsupported('predicate throws')
            return or_(*[and_(*(q.pc[nb:] + [q.value])) for q in ps])
        return p

    def less_of(self, x, k, n):
        """the order a sorting algorithm is called with, as a formula"""
        I = self.I
        if len(x) <= k: return lambda a, b: I.as_bool(I.binop('<', a, b, n))
        lam = x[k]

        def p(a, b):
            base = I.state
            nb = len(base.pc)
            I.quiet += 1
            try:
                ps = I.explore(lambda: I.as_bool(I.rv(I.call_lambda(lam, [I.alloc(a), I.alloc(b)], n))), base)
            finally:
                I.quiet -= 1
            if any(q.kind not in ('ok', 'return') for q in ps): raise Unsupported('comparison throws')
            return or_(*[and_(*(q.pc[nb:] + [q.value])) for q in ps])
        return p

    def f_sort(self, a, n):
        I = self.I
        x = self.ev(a)
        lv = x[0].lv
        v = I.read(lv)
        isj = isinstance(v, T) and v.sort == 'J'
        size = jsize(v) if isj else v.n
        if not (same_lv(lv, x[1].lv) and x[0].i == I_(0) and x[1].i is size): raise Unsupported('sort of a part')
        self.trust('std::sort: a permutation of the range in which no element is less than an earlier one')
        less = self.less_of(x, 2, n)
        if isj:
            w = fresh('sorted', 'J')
            old, new = (lambda i: jidx(v, i)), (lambda i: jidx(w, i))
            I.assume(eq(jsize(w), size))
        else:
            proto = v.at(I_(0))
            if not isinstance(proto, T): raise Unsupported('sort of %r' % (proto,))
            nm = fresh('sorted', 'I').data
            w = Vec(size, Fn(lambda i: uf(nm, (i,), proto.sort)), v.kind)
            old, new = v.at, w.at
        nm = fresh('perm', 'I').data
        pi, inv = (lambda i: uf(nm, (i,), 'I')), (lambda i: uf(nm + "'", (i,), 'I'))
        i, j, k = fresh('i', 'I'), fresh('j', 'I'), fresh('k', 'I')
        inside = lambda t: and_(le(I_(0), t), lt(t, size))
        I.sorted_by = (pi, inv, less, new)
        I.assume(forall(i, implies(inside(i), and_(inside(pi(i)), eq(inv(pi(i)), i), eq(new(i), old(pi(i)))))))
        I.assume(forall(k, implies(inside(k), and_(inside(inv(k)), eq(pi(inv(k)), k)))))
        I.assume(forall(i, forall(j, implies(and_(le(I_(0), i), lt(i, j), lt(j, size)), not_(less(new(j), new(i)))))))
        I.write(lv, w)

    def f_adjacent_find(self, a, n):
        I = self.I
        x = self.ev(a)
        v = I.read(x[0].lv)
        if len(x) > 2: raise Unsupported('adjacent_find with a predicate')
        p = fresh('pos', 'I')
        k = fresh('k', 'I')
        last = sub(x[1].i, I_(1))
        I.assume(le(x[0].i, p), le(p, x[1].i))
        I.assume(forall(k, implies(and_(le(x[0].i, k), lt(k, p), lt(k, last)), not_(self.equal(v.at(k), v.at(add(k, I_(1))))))))
        I.assume(or_(eq(p, x[1].i), and_(lt(p, last), self.equal(v.at(p), v.at(add(p, I_(1)))))))
        return Iter(x[0].lv, p)

    def f_find_if(self, a, n):
        x = self.ev(a)
        v = self.I.read(x[0].lv)
        return self.first_iter(v, x[0], x[1].i, self.pred_of(x[2], n), 'find_if')

    def f_accumulate(self, a, n):
        x = self.ev(a)
        if len(x) > 3: raise Unsupported('accumulate with an operation')
        v = self.I.read(x[0].lv)
        k = fresh('k', 'I')
        return add(x[2], sum_(k, x[0].i, x[1].i, v.at(k)))

    def f_all_of(self, a, n):
        x = self.ev(a)
        v = self.I.read(x[0].lv)
        k = fresh('k', 'I')
        return forall(k, implies(and_(le(x[0].i, k), lt(k, x[1].i)), self.pred_of(x[2], n)(v.at(k))))

    def f_any_of(self, a, n):
        x = self.ev(a)
        v = self.I.read(x[0].lv)
        k = fresh('k', 'I')
        return exists(k, and_(le(x[0].i, k), lt(k, x[1].i), self.pred_of(x[2], n)(v.at(k))))

    def f_fill(self, a, n):
        x = self.ev(a)
        v = self.I.read(x[0].lv)
        old = v.f
        lo, hi = x[0].i, x[1].i
        self.I.write(x[0].lv, Vec(v.n, Fn(lambda i: merge(and_(le(lo, i), lt(i, hi)), lift(x[2], 'R'), old.get(i))), v.kind))

    def f_copy(self, a, n):
        I = self.I
        x = self.ev(a)
        src = I.read(x[0].lv)
        dst = I.read(x[2].lv)
        lo, hi, o = x[0].i, x[1].i, x[2].i
        old = dst.f
        I.oblige('copy stays in bounds', and_(le(I_(0), o), le(add(o, sub(hi, lo)), dst.n)), I.loc(n), 'bounds')
        I.write(x[2].lv, Vec(dst.n, Fn(lambda i: merge(and_(le(o, i), lt(i, add(o, sub(hi, lo)))), src.at(add(lo, sub(i, o))), old.get(i))), dst.kind))
        return Iter(x[2].lv, add(o, sub(hi, lo)))

    def f_swap(self, a, n):
        x, y = self.I.eval(a[0]), self.I.eval(a[1])
        u, w = self.I.rv(x), self.I.rv(y)
        self.I.write(x, w)
        self.I.write(y, u)

    def f_Zero(self, a, n):
        from .interp import tyof
        t = tyof(n)
        x = self.ev(a)
        if len(x) == 1: return Vec(x[0], lambda i: R(0))
        if len(x) == 2: return Mat2(x[0], x[1], lambda i, j: R(0))
        m = re.search(r'Matrix<double, (\d+), (\d+)', t)
        if m: return Mat(int(m.group(1)), int(m.group(2)), [R(0)] * (int(m.group(1)) * int(m.group(2))))
        raise Unsupported('Zero')

    def f_Identity(self, a, n):
        from .interp import tyof
        x = self.ev(a)
        if len(x) == 2: return Mat2(x[0], x[1], lambda i, j: ite(eq(i, j), R(1), R(0)))
        m = re.search(r'Matrix<double, (\d+), (\d+)', tyof(n))
        if m and not x:
            r, c = int(m.group(1)), int(m.group(2))
            return Mat(r, c, [R(1 if i == j else 0) for i in range(r) for j in range(c)])
        raise Unsupported('Identity')

    def f_Constant(self, a, n):
        x = self.ev(a)
        if len(x) == 2: return Vec(x[0], lambda i: lift(x[1], 'R'))
        raise Unsupported('Constant')

    def f_endl(self, a, n): return Opaque('stream')

    def f_infinity(self, a, n):
        self.trust('infinity is an uninterpreted large constant')
        return var('infinity', 'R')

    def f_signaling_NaN(self, a, n): return fresh('nan', 'R')
    f_quiet_NaN = f_signaling_NaN

    def f_max_(self, a, n): raise Unsupported('numeric max')

    def f_epsilon(self, a, n):
        from fractions import Fraction
        return R(Fraction(1, 2 ** 52))

    def f___assert_fail(self, a, n):
        from .interp import ThrowEx
        raise ThrowEx('assert')

    def f_exit(self, a, n):
        from .interp import ThrowEx
        raise ThrowEx('exit')
