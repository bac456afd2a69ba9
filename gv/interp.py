"""Symbolic execution of clang-AST functions against contracts.

Paths are explored by re-execution with a decision script; loops are summarised by
solving the recurrences of one generic iteration (see loop()), never unrolled beyond
loops whose trip count is a literal.
"""
import re, time
from .terms import *
from .values import *
from .solve import Ctx, Prover, match_hole, affine_in
from . import cxx
from .cxx import short, params, ExtractError


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass


class ContinueEx(Exception): pass


class ThrowEx(Exception):
    def __init__(self, what, val=None): self.what, self.val = what, val


class Infeasible(Exception): pass


class State:
    __slots__ = ('heap', 'sym', 'pc', 'ghost', 'explored')

    def __init__(self, heap=None, sym=None, pc=None, ghost=None):
        self.heap, self.sym, self.pc, self.ghost = heap or {}, sym or {}, pc or [], ghost or {}
        self.explored = False      # the end of a path

    def clone(self): return State(dict(self.heap), dict(self.sym), list(self.pc), dict(self.ghost))


class Path:
    def __init__(self, kind, value, state): self.kind, self.value, self.state = kind, value, state

    @property
    def pc(self): return self.state.pc


class Oblig:
    def __init__(self, name, hyps, goal, where='', kind='post'):
        self.name, self.hyps, self.goal, self.where, self.kind = name, list(hyps), goal, where, kind


TRANSPARENT = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
               'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr',
               'CXXConstCastExpr', 'FullExpr'}


def tyof(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def qt(n): return n.get('type', {}).get('qualType', '')


def rettype(ftype):
    """return type text of a function type"""
    d = 0
    for i, ch in enumerate(ftype):
        if ch in '<[': d += 1
        elif ch in '>]': d -= 1
        elif ch == '(' and d == 0:
            return ftype[:i].strip()
    return ftype


def strip_casts(e):
    while e['kind'] in TRANSPARENT and e.get('inner'):
        e = e['inner'][-1] if e['kind'] != 'SubstNonTypeTemplateParmExpr' else e['inner'][-1]
    return e


def is_int_type(t):
    t = t.replace('const ', '').strip()
    return t in ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'short', 'char', 'unsigned char', 'size_t', 'Eigen::Index', 'signed char', 'std::size_t', 'difference_type')


def is_real_type(t):
    t = t.replace('const ', '').strip()
    return t in ('double', 'float', 'long double')


def assume_zero(z, k, n):
    """z is zero whenever 0 <= k < n"""
    from .solve import assume_in
    for c in (le(I(0), k), lt(k, n)): z = assume_in(z, c, True)
    return z is R(0) or (isnum(z) and z.data == 0)


class Interp:
    MAX_PATHS = 400
    UNROLL = 40

    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}
        self.symfields = {}     # (cls, field) -> fn(idterm) -> value
        self.obligs = []
        self.trusted = set()
        self.used = set()       # functions of /repo whose body was executed
        self.called_contracts = set()
        self.state = State()
        self.frames = []
        self.dec = []
        self.pos = 0
        self.todo = None
        self.depth = 0
        self.next_addr = 1
        self.bounds = True
        self.quiet = 0
        self.ctx_cache = None
        self.opaque_calls = set()
        self.loop_contracts = {}   # function -> [Inv or None per loop, in source order]
        self.tainted = []
        self.names = {}
        self.initial_sym = {}
        self.checks_unsigned = False
        self.numbers = set()
        self.assume_isa = set()
        from .lib import Lib
        self.lib = Lib(self)

    # ---------------------------------------------------------------- state
    def alloc(self, v):
        a = self.next_addr
        self.next_addr += 1
        self.state.heap[a] = v
        return LV(a)

    def ctx(self):
        key = tuple(p.id for p in self.state.pc)
        if self.ctx_cache is None or self.ctx_cache[0] != key:
            if self.ctx_cache is not None and key[:len(self.ctx_cache[0])] == self.ctx_cache[0]:
                c = self.ctx_cache[1]
                for p in self.state.pc[len(self.ctx_cache[0]):]: c.add(p)
            else:
                c = Ctx(self.state.pc)
            self.ctx_cache = (key, c)
        return self.ctx_cache[1]

    def assume(self, *ts):
        for t in ts:
            if t is TRUE: continue
            if t.op == 'and':
                self.assume(*t.args)
                continue
            if t is FALSE: raise Infeasible()
            self.state.pc.append(t)

    def oblige(self, name, goal, where='', kind='pre'):
        if goal is TRUE or self.quiet:
            if goal is TRUE and not self.quiet: self.trivial = getattr(self, 'trivial', 0) + 1
            return
        if self.pos < len(self.dec): return     # a replayed prefix: already obliged on the path it was first run on
        self.obligs.append(Oblig(name, self.state.pc, goal, where, kind))

    def entails(self, g):
        if g is TRUE: return True
        if g is FALSE: return False
        return self.ctx().entails(g)

    def branch(self, cond):
        if cond is TRUE: return True
        if cond is FALSE: return False
        for p in self.state.pc[-60:]:
            if p is cond: return True
            if p is not_(cond): return False
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
            self.pos += 1
        else:
            c = self.ctx()
            can_t = c.check(cond) != 'unsat'
            can_f = (c.check(not_(cond)) != 'unsat') if can_t else True
            if can_t and can_f:
                self.todo.append(self.dec[:self.pos] + [False])
                v = True
            else:
                v = can_t
            self.dec = self.dec[:self.pos] + [v]
            self.pos += 1
        self.assume(cond if v else not_(cond))
        return v

    def choose(self, n):
        """demonic choice of an alternative 0..n-1"""
        for i in range(n - 1):
            if self.branch(fresh('choice', 'B')): return i
        return n - 1

    def explore(self, fn, base, nested=False):
        """all paths of fn() from state base"""
        saved = (self.state, self.dec, self.pos, self.todo, self.frames)
        results = []
        todo = [[]]
        n = 0
        try:
            while todo:
                n += 1
                if n > self.MAX_PATHS: raise Unsupported('too many paths')
                self.dec = todo.pop()
                self.pos = 0
                self.todo = todo
                self.state = base.clone()
                self.frames = [dict(f) for f in saved[4]]
                try:
                    r = fn()
                    results.append(Path('ok', r, self.state))
                except ReturnEx as e:
                    results.append(Path('return', e.v, self.state))
                except BreakEx:
                    results.append(Path('break', None, self.state))
                except ContinueEx:
                    results.append(Path('continue', None, self.state))
                except ThrowEx as e:
                    results.append(Path('throw', e, self.state))
                except Infeasible:
                    pass
        finally:
            self.state, self.dec, self.pos, self.todo, self.frames = saved
        if not nested:
            for p in results: p.state.explored = True
        return results

    # ---------------------------------------------------------------- lvalues
    def read(self, lv):
        if not isinstance(lv, LV): return lv
        r = lv.root
        if isinstance(r, tuple):  # ('sym', cls, t)
            if not lv.path: return Sym(r[1], r[2])
            p = lv.path[0]
            v = self.symfield(r[1], p[1]).get(r[2])
            path = lv.path[1:]
        else:
            if r not in self.state.heap: raise Unsupported('dangling read')
            v = self.state.heap[r]
            path = lv.path
        for p in path: v = self.step(v, p)
        return v

    def symfield(self, cls, name):
        if name not in self.state.sym:
            f = self.symfields.get((cls, name)) or self.symfields.get(name)
            if f is None:
                f = self.default_symfield(cls, name)
            if name not in self.initial_sym:
                self.initial_sym[name] = f if isinstance(f, Fn) else Fn(f, 1, name)
            self.state.sym[name] = self.initial_sym[name]
        return self.state.sym[name]

    def default_symfield(self, cls, name):
        for c, fd in self.prog.fields(cls):
            if fd['name'] == name:
                proto = self.symbolic(tyof(fd), 'obj.' + name)
                return Fn(lambda t: sym_like(proto, 'fld.' + name, (t,)), 1, name)
        raise Unsupported('no field %s in %s' % (name, cls))

    def symfields_initial(self, name, st):
        f = self.initial_sym.get(name)
        return f

    def describe_addr(self, addr):
        return repr(self.state.heap.get(addr))[:120]

    def step(self, v, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, Sym): return self.symfield(v.cls, p[1]).get(v.t)
            if isinstance(v, Tup) and p[1] in ('first', 'second'): return v.d[0 if p[1] == 'first' else 1]
            if not isinstance(v, Struct): raise Unsupported('field %s of %r' % (p[1], v))
            if p[1] not in v.f:
                raise Unsupported('field %s of %s not modelled' % (p[1], v.cls))
            return v.f[p[1]]
        if k == 'i':
            if isinstance(v, Vec): return v.at(p[1])
            if isinstance(v, Mat): return vec_of(v).at(p[1]) if not isnum(p[1]) else v.d[int(p[1].data)]
            if isinstance(v, Tup): return v.d[int(p[1].data)]
            if isinstance(v, Mat2): return v.at(p[1], I(0)) if False else v.at(I(0), p[1])
            if isinstance(v, T) and v.sort == 'J': return jidx(v, p[1])
            raise Unsupported('index into %r' % (v,))
        if k == 'jk':
            if isinstance(v, T) and v.sort == 'J': return jat(v, p[1])
            raise Unsupported('key of %r' % (v,))
        if k == 'c':
            i, j = p[1], p[2]
            if isinstance(v, Mat):
                if isnum(i) and isnum(j): return v.at(int(i.data), int(j.data))
                r = None
                for a in range(v.r):
                    for b in range(v.c):
                        r = v.at(a, b) if r is None else merge(and_(eq(i, I(a)), eq(j, I(b))), v.at(a, b), r)
                return r
            if isinstance(v, Mat2): return v.at(i, j)
            if isinstance(v, Vec): return v.at(i)
            raise Unsupported('coeff of %r' % (v,))
        if k == 'seg':
            off, n = p[1], p[2]
            if isinstance(v, Mat): v = vec_of(v)
            if isinstance(v, Mat2): v = Vec(v.nc, lambda i: v.at(I(0), i))
            if isnum(n) and n.data <= 16: return Mat(int(n.data), 1, [v.at(add(off, I(i))) for i in range(int(n.data))])
            return Vec(n, lambda i: v.at(add(off, i)), 'vec' if v.kind == 'std' else v.kind)
        if k == 'rm':      # row-major matrix stored in a vector
            off, nr, nc = p[1:]
            return Mat2(nr, nc, lambda i, j: v.at(add(off, mul(i, nc), j)))
        if k == 'blk':
            r0, c0, nr, nc = p[1:]
            if isinstance(v, Vec): v2 = Mat2(v.n, 1, lambda i, j: v.at(i))
            elif isinstance(v, Mat):
                vv = v
                v2 = Mat2(v.r, v.c, lambda i, j: self.step(vv, ('c', i, j)))
            else: v2 = v
            return Mat2(nr, nc, lambda i, j: v2.at(add(r0, i), add(c0, j)))
        if k == 'col':
            if isinstance(v, Vec): return v
            return Vec(v.nr, lambda i: v.at(i, p[1]))
        if k == 'row': return Vec(v.nc, lambda j: v.at(p[1], j))
        if k == 't':
            if isinstance(v, Tup): return v.d[p[1]]
            if isinstance(v, Struct): return list(v.f.values())[p[1]]
            raise Unsupported('tuple get of %r' % (v,))
        if k == 'vals':     # the stored coefficients of a sparse matrix in storage order
            nm = fresh('stored', 'R').data
            return Vec(self.lib.nnz(v.f), lambda i: uf(nm, (i,), 'R'))
        if k == 'o':
            return v.v
        if k == 'tr':
            if isinstance(v, Vec): return v
            if isinstance(v, Mat): return Mat(v.c, v.r, [v.at(i, j) for j in range(v.c) for i in range(v.r)])
            return Mat2(v.nc, v.nr, lambda i, j: v.at(j, i))
        raise Unsupported('step ' + str(k))

    def put(self, v, path, x):
        if not path: return self.conform(v, x)
        p, rest = path[0], path[1:]
        k = p[0]
        if k == 'f':
            if isinstance(v, Tup):
                d = list(v.d)
                i = 0 if p[1] == 'first' else 1
                d[i] = self.put(d[i], rest, x)
                return Tup(d)
            return v.with_(p[1], self.put(v.f.get(p[1]), rest, x))
        if k == 't':
            d = list(v.d)
            d[p[1]] = self.put(d[p[1]], rest, x)
            return Tup(d)
        if k == 'o':
            return Opt(v.has, self.put(v.v, rest, x))
        if k == 'i':
            if isinstance(v, Mat) or isinstance(v, Tup):
                if not isnum(p[1]): raise Unsupported('symbolic write into fixed vector')
                d = list(v.d)
                i = int(p[1].data)
                d[i] = self.put(d[i], rest, x)
                return Mat(v.r, v.c, d) if isinstance(v, Mat) else Tup(d)
            if isinstance(v, Mat2): return Mat2(v.nr, v.nc, v.f.set((I(0), p[1]), x), v.kind)
            if isinstance(v, T) and v.sort == 'J': return jset(v, p[1], self.put(jidx(v, p[1]) if rest else None, rest, x))
            new = self.put(v.at(p[1]) if rest else None, rest, x)
            return Vec(v.n, v.f.set((p[1],), new), v.kind)
        if k == 'jk': return jput(v, p[1], self.put(jat(v, p[1]) if rest else None, rest, x))
        if k == 'c':
            i, j = p[1], p[2]
            if isinstance(v, Mat):
                if not (isnum(i) and isnum(j)): raise Unsupported('symbolic write into fixed matrix')
                d = list(v.d)
                d[int(i.data) * v.c + int(j.data)] = x
                return Mat(v.r, v.c, d)
            if isinstance(v, Mat2): return Mat2(v.nr, v.nc, v.f.set((i, j), x), v.kind)
            return Vec(v.n, v.f.set((i,), x), v.kind)
        if k == 'seg':
            off, n = p[1], p[2]
            cur = self.step(v, p)
            new = self.put(cur, rest, x)
            if isinstance(v, Mat):
                d = list(v.d)
                o = int(off.data)
                src = new.d if isinstance(new, Mat) else [new.at(I(i)) for i in range(int(n.data))]
                for i, y in enumerate(src): d[o + i] = y
                return Mat(v.r, v.c, d)
            if isinstance(new, Mat):
                f = v.f
                for i, y in enumerate(new.d): f = f.set((add(off, I(i)),), y)
                return Vec(v.n, f, v.kind)
            old = v.f
            return Vec(v.n, Fn(lambda i: merge(and_(le(off, i), lt(i, add(off, n))), new.at(sub(i, off)), old.get(i))), v.kind)
        if k == 'vals':
            new = self.put(self.step(v, p), rest, x)
            probe = fresh('k', 'I')
            z = new.at(probe)
            n = rest[0][2] if rest and rest[0][0] == 'seg' and eq(rest[0][1], I(0)) is TRUE else (new.n if not rest else None)
            zero = len(rest) <= 1 and n is not None and eq(n, self.lib.nnz(v.f)) is TRUE and isinstance(z, T) and assume_zero(z, probe, n)
            if zero and v.kind == 'sparse-c': return Mat2(v.nr, v.nc, lambda i, j: R(0), v.kind)
            nm, old = fresh('touched', 'B').data, v.f
            return Mat2(v.nr, v.nc, Fn(lambda i, j: ite(uf(nm, (i, j), 'B'), uf(nm + '.v', (i, j), 'R'), old.get(i, j)), 2), v.kind)
        if k == 'col' and isinstance(v, Mat2):
            new = self.put(self.step(v, p), rest, x)
            if isinstance(new, Mat): new = vec_of(new)
            old = v.f
            return Mat2(v.nr, v.nc, Fn(lambda i, j: merge(eq(j, p[1]), new.at(i), old.get(i, j)), 2), v.kind)
        if k == 'row' and isinstance(v, Mat2):
            new = self.put(self.step(v, p), rest, x)
            if isinstance(new, Mat): new = vec_of(new)
            old = v.f
            return Mat2(v.nr, v.nc, Fn(lambda i, j: merge(eq(i, p[1]), new.at(j), old.get(i, j)), 2), v.kind)
        if k == 'rm':
            off, nr, nc = p[1:]
            if rest and rest[0][0] == 'c':
                return self.put(v, (('i', add(off, mul(rest[0][1], nc), rest[0][2])),) + rest[1:], x)
            new = self.put(self.step(v, p), rest, x)
            old = v.f
            e = lambda i: sub(i, off)
            return Vec(v.n, Fn(lambda i: merge(and_(le(off, i), lt(e(i), mul(nr, nc))), new.at(idiv(e(i), nc), imod(e(i), nc)), old.get(i))), v.kind)
        if k == 'blk':
            r0, c0, nr, nc = p[1:]
            new = self.put(self.step(v, p), rest, x)
            inb = lambda i, j: and_(le(r0, i), lt(i, add(r0, nr)), le(c0, j), lt(j, add(c0, nc)))
            if isinstance(v, Vec):
                old = v.f
                return Vec(v.n, Fn(lambda i: merge(inb(i, I(0)), new.at(sub(i, r0), I(0)), old.get(i))), v.kind)
            if isinstance(v, Mat2):
                old = v.f
                return Mat2(v.nr, v.nc, Fn(lambda i, j: merge(inb(i, j), new.at(sub(i, r0), sub(j, c0)), old.get(i, j)), 2), v.kind)
        raise Unsupported('write through ' + str(k))

    def conform(self, old, x):
        """shape x like the place it is stored in"""
        if isinstance(old, Mat) and isinstance(x, Vec):
            return Mat(old.r, old.c, [x.at(I(i)) for i in range(len(old.d))])
        if isinstance(old, Mat) and isinstance(x, Mat):
            if len(old.d) != len(x.d): raise Unsupported('shape mismatch')
            return Mat(old.r, old.c, x.d)
        if isinstance(old, Vec) and isinstance(x, Mat):
            v = vec_of(x)
            return Vec(v.n, v.f, old.kind)
        if isinstance(old, Vec) and isinstance(x, Vec): return Vec(x.n, x.f, old.kind)
        if isinstance(old, Mat2) and isinstance(x, Vec):
            return Mat2(x.n, 1, lambda i, j: x.at(i), old.kind)
        if isinstance(old, Mat2) and isinstance(x, Mat):
            y = x
            return Mat2(x.r, x.c, lambda i, j: self.step(y, ('c', i, j)), old.kind)
        if isinstance(old, Vec) and isinstance(x, Mat2):
            return Vec(x.nr, lambda i: x.at(i, I(0)), old.kind)
        if isinstance(old, T) and isinstance(x, T) and old.sort in ('R', 'I', 'B') and x.sort != old.sort:
            return lift(x, old.sort)
        return x

    def write(self, lv, x):
        if not isinstance(lv, LV): raise Unsupported('write to non-lvalue %r' % (lv,))
        self.on_write(lv)
        r = lv.root
        if isinstance(r, tuple):
            p = lv.path[0]
            f = self.symfield(r[1], p[1])
            cur = f.get(r[2]) if lv.path[1:] else None
            self.state.sym[p[1]] = f.set((r[2],), self.put(cur, lv.path[1:], x))
            return
        self.state.heap[r] = self.put(self.state.heap.get(r), lv.path, x)

    def on_write(self, lv): pass

    def in_bounds(self, v, i, what, node=None):
        if not self.bounds or self.quiet: return
        if isinstance(v, Vec): n = v.n
        elif isinstance(v, Mat): n = I(len(v.d))
        elif isinstance(v, Mat2): n = v.nc
        elif isinstance(v, T) and v.sort == 'J' and i.sort == 'I': n = jsize(v)
        else: return
        self.oblige('index in bounds: ' + what, and_(le(I(0), i), lt(i, n)), self.loc(node), 'bounds')

    def loc(self, node):
        if not node: return self.where()
        b = node.get('range', {}).get('begin', {})
        l = b.get('line') or b.get('expansionLoc', {}).get('line') or ''
        return '%s:%s' % (self.where(), l)

    def where(self):
        return self.frames[-1].get('__fn__', '?') if self.frames else '?'

    # ---------------------------------------------------------------- symbolic inputs
    def symbolic(self, t, name):
        """fresh symbolic value of a C++ type"""
        t = t.strip()
        base = t.replace('const ', '').replace(' const', '').strip()
        ref = base.endswith('&')
        base = base.rstrip('&').strip()
        if base.endswith('*'):
            return Sym(short(base[:-1]), var(name, 'O'))
        if is_real_type(base): return var(name, 'R')
        if base == 'bool': return var(name, 'B')
        if is_int_type(base): return var(name, 'I')
        m = re.search(r'Matrix<double, (-?\d+), (-?\d+)', base)
        if m:
            r, c = int(m.group(1)), int(m.group(2))
            if r > 0 and c > 0: return Mat(r, c, [var('%s_%d_%d' % (name, i, j) if c > 1 else '%s_%d' % (name, i)) for i in range(r) for j in range(c)])
            if r == -1 and c == -1:
                return Mat2(var(name + '.rows', 'I'), var(name + '.cols', 'I'), lambda i, j: uf(name, (i, j), 'R'))
            return Vec(var(name + '.n', 'I'), lambda i: uf(name, (i,), 'R'))
        m = re.search(r'(?:Eigen::)?(Row)?Vector(\d)d\b', base)
        if m: return Mat(1 if m.group(1) else int(m.group(2)), int(m.group(2)) if m.group(1) else 1, [var('%s_%d' % (name, i)) for i in range(int(m.group(2)))])
        m = re.search(r'Eigen::Vector<double, (\d+)>', base)
        if m: return Mat(int(m.group(1)), 1, [var('%s_%d' % (name, i)) for i in range(int(m.group(1)))])
        if re.search(r'VectorXd\b', base): return Vec(var(name + '.n', 'I'), lambda i: uf(name, (i,), 'R'))
        if re.search(r'\bMatrixXd\b', base): return Mat2(var(name + '.rows', 'I'), var(name + '.cols', 'I'), lambda i, j: uf(name, (i, j), 'R'))
        m = re.match(r'(?:std::)?(?:vector|deque|list)<(.*)>$', base)
        if m:
            el = self.symbolic(split_targs(m.group(1))[0], name + '[]')
            return Vec(var(name + '.size', 'I'), lambda i: sym_like(el, name, (i,)), 'std')
        m = re.match(r'(?:std::)?(tuple|pair|array)<(.*)>$', base)
        if m:
            ts = split_targs(m.group(2))
            if m.group(1) == 'array': ts = [ts[0]] * int(re.sub(r'\D', '', ts[1]))
            return Tup([self.symbolic(x, '%s.%d' % (name, i)) for i, x in enumerate(ts)])
        m = re.match(r'(?:std::)?(unique_ptr|shared_ptr)<(.*)>$', base)
        if m: return Sym(short(split_targs(m.group(2))[0]), var(name, 'O'))
        m = re.match(r'(?:std::)?optional<(.*)>$', base)
        if m: return Opt(var(name + '.has', 'B'), self.symbolic(m.group(1), name + '.val'))
        if 'basic_string' in base or base == 'std::string' or base == 'string': return var(name, 'S')
        if 'json' in base: return var(name, 'J')
        c = short(base)
        if c in self.prog.records:
            if self.prog.records[c].get('tagUsed') == 'enum': return var(name, 'I')
            return self.make(c, name)
        d = [x for x in self.prog.decls.values() if x['kind'] == 'EnumDecl' and x.get('name') == c]
        if d: return var(name, 'I')
        raise Unsupported('symbolic value of type ' + t)

    def make(self, cls, name, fields=None, only=None):
        """symbolic object of a project class"""
        f = {}
        for c, fd in self.prog.fields(cls):
            n = fd['name']
            if fields and n in fields:
                f[n] = fields[n]
                continue
            if only is not None and n not in only: continue
            try:
                f[n] = self.symbolic(tyof(fd), name + '.' + n)
            except Unsupported:
                pass
        return Struct(cls, f)

    # ---------------------------------------------------------------- statements
    def exec(self, n):
        k = n.get('kind')
        if k is None: return
        m = getattr(self, 'x_' + k, None)
        if m: return m(n)
        self.eval(n)

    def x_CompoundStmt(self, n):
        for c in n.get('inner', []): self.exec(c)

    def x_NullStmt(self, n): pass

    def x_DeclStmt(self, n):
        for c in n['inner']: self.decl(c)

    def x_StaticAssertDecl(self, n): pass

    def decl(self, d):
        k = d['kind']
        if k in ('VarDecl', 'DecompositionDecl'):
            self.vardecl(d)
        elif k in ('UsingDirectiveDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'NamespaceAliasDecl', 'CXXRecordDecl', 'UsingShadowDecl', 'EnumDecl'):
            pass
        else: raise Unsupported('decl ' + k)

    def vardecl(self, d):
        init = [c for c in d.get('inner', []) if c and c['kind'] not in ('BindingDecl',) and not c['kind'].endswith('Attr')]
        t = tyof(d)
        self.frames[-1][('nm', d.get('name', ''))] = d['id']
        if d.get('storageClass') == 'static' and not (d.get('constexpr') or 'const ' in t):
            raise Unsupported('static local')
        if not init:
            v = self.default_value(t, d)
            lv = self.alloc(v)
        else:
            e = init[0]
            x = self.eval(e)
            isref = t.rstrip().endswith('&')
            if isref or self.is_view_type(t):
                lv = x if isinstance(x, LV) else self.alloc(x)
            else:
                v = self.rv(x)
                v = self.coerce(v, t)
                lv = self.alloc(v)
        if d['kind'] == 'DecompositionDecl':
            bs = [c for c in d['inner'] if c and c['kind'] == 'BindingDecl']
            for i, b in enumerate(bs):
                self.frames[-1][b['id']] = self.tuple_elem(lv, i)
            self.frames[-1][d['id']] = lv
            return
        self.frames[-1][d['id']] = lv

    def tuple_elem(self, lv, i):
        v = self.read(lv)
        if isinstance(v, Struct):
            return lv.sub(('f', list(v.f)[i]))
        if isinstance(v, Tup) and isinstance(v.d[i], View): return v.d[i].lv
        return lv.sub(('t', i))

    def is_view_type(self, t):
        return bool(re.search(r'(VectorBlock|Block|Ref|Transpose|Map)<', t)) and not re.match(r'(const )?(Eigen::)?(Matrix|Sparse)', t)

    def default_value(self, t, d=None):
        base = t.replace('const ', '').strip()
        if is_real_type(base): return fresh('uninit', 'R')
        if is_int_type(base): return fresh('uninit', 'I')
        if base == 'bool': return fresh('uninit', 'B')
        if base.endswith('*'): return Ptr(None)
        return self.lib.default_construct(base)

    def coerce(self, v, t):
        base = t.replace('const ', '').strip()
        if isinstance(v, T):
            if is_real_type(base): return lift(v, 'R') if v.sort != 'R' else v
            if is_int_type(base) and v.sort == 'R': return trunc_(v)
            if is_int_type(base) and v.sort == 'B': return lift(v, 'I')
            return v
        if isinstance(v, Vec) and v.kind != 'std':
            m = re.search(r'Matrix<double, (\d+), (\d+)', base) or re.search(r'Vector(\d)d', base)
            if m: return Mat(int(m.group(1)), int(m.group(2)) if m.lastindex > 1 else 1, [v.at(I(i)) for i in range(int(m.group(1)))])
        if isinstance(v, Mat) and re.search(r'Matrix<double, -1, 1|VectorXd', base): return vec_of(v)
        if isinstance(v, Mat) and re.search(r'Matrix<double, -1, -1', base):
            return Mat2(v.r, v.c, lambda i, j: self.step(v, ('c', i, j)))
        if isinstance(v, Vec) and v.kind != 'std' and re.search(r'Matrix<double, -1, -1', base):
            return Mat2(v.n, 1, lambda i, j: v.at(i))
        return v

    def x_IfStmt(self, n):
        inner = [c for c in n['inner'] if c]
        i = 0
        if n.get('hasInit'):
            self.exec(inner[0])
            i = 1
        if n.get('hasVar'):
            self.exec(inner[i])
            i += 1
        if n.get('isConstexpr'):
            c = inner[i]
            v = c.get('value')
            if v is None and c['kind'] == 'ConstantExpr': v = c.get('value')
            cond = TRUE if v in ('true', '1', True) else (FALSE if v in ('false', '0', False) else self.bool(c))
        else:
            cond = self.bool(inner[i])
        if self.branch(cond): self.exec(inner[i + 1])
        elif len(inner) > i + 2: self.exec(inner[i + 2])

    def x_ReturnStmt(self, n):
        inner = [c for c in n.get('inner', []) if c]
        if not inner: raise ReturnEx(None)
        v = self.eval(inner[0])
        raise ReturnEx(v)

    def x_BreakStmt(self, n): raise BreakEx()

    def x_ContinueStmt(self, n): raise ContinueEx()

    def x_ForStmt(self, n):
        inner = n['inner']
        init, condvar, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init and init.get('kind'): self.exec(init)
        self.loop(n, (lambda: self.bool(cond)) if cond and cond.get('kind') else (lambda: TRUE),
                  lambda: self.exec(body), (lambda: self.eval(inc)) if inc and inc.get('kind') else (lambda: None))

    def x_WhileStmt(self, n):
        inner = [c for c in n['inner'] if c]
        cond, body = inner[-2], inner[-1]
        self.loop(n, lambda: self.bool(cond), lambda: self.exec(body), lambda: None)

    def x_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        try:
            self.exec(body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        self.loop(n, lambda: self.bool(cond), lambda: self.exec(body), lambda: None)

    def x_CXXForRangeStmt(self, n):
        inner = n['inner']
        ds = [c for c in inner if c and c.get('kind') == 'DeclStmt']
        rng_decl = ds[0]['inner'][0]
        loopvar = ds[-1]['inner'][0]
        body = inner[-1]
        rinit = [c for c in rng_decl['inner'] if c][0]
        rv = self.eval(rinit)
        lv = rv if isinstance(rv, LV) else self.alloc(rv)
        v = self.read(lv)
        if isinstance(v, (Mat, Tup)):
            items = [lv.sub(('i', I(i))) if isinstance(v, Mat) else lv.sub(('t', i)) for i in range(len(v.d))]
            for x in items:
                try:
                    self.bindloopvar(loopvar, x)
                    self.exec(body)
                except ContinueEx:
                    continue
                except BreakEx:
                    break
            return
        v = self.lib.as_range(v, lv)
        if isinstance(v, tuple): lv, v = v
        if not isinstance(v, Vec): raise Unsupported('range-for over %r' % (v,))
        cnt = self.alloc(I(0))
        nn = v.n
        nm = '#' + (loopvar.get('name') or next((b.get('name') for b in loopvar.get('inner', []) if b and b.get('kind') == 'BindingDecl'), ''))
        self.frames[-1][nm] = cnt
        self.frames[-1][('nm', nm)] = nm
        cond = lambda: lt(self.read(cnt), nn)

        def b():
            self.bindloopvar(loopvar, lv.sub(('i', self.read(cnt))))
            self.exec(body)

        def inc(): self.write(cnt, add(self.read(cnt), I(1)))
        self.loop(n, cond, b, inc)

    def bindloopvar(self, d, lv):
        t = tyof(d)
        if d['kind'] == 'DecompositionDecl':
            if not t.rstrip().endswith('&'): lv = self.alloc(self.read(lv))
            bs = [c for c in d['inner'] if c and c['kind'] == 'BindingDecl']
            for i, b in enumerate(bs):
                self.frames[-1][b['id']] = self.tuple_elem(lv, i)
                self.frames[-1][('nm', b.get('name', ''))] = b['id']
            return
        if t.rstrip().endswith('&'): self.frames[-1][d['id']] = lv
        else: self.frames[-1][d['id']] = self.alloc(self.coerce(self.read(lv), t))
        self.frames[-1][('nm', d.get('name', ''))] = d['id']

    def x_CXXTryStmt(self, n):
        body = n['inner'][0]
        handlers = n['inner'][1:]
        try:
            self.exec(body)
        except ThrowEx as e:
            for h in handlers:
                hi = [c for c in h.get('inner', []) if c]
                if hi and hi[0].get('kind') == 'VarDecl':
                    ht = short(tyof(hi[0]))
                    if self.catches(ht, e.what):
                        self.frames[-1][hi[0]['id']] = self.alloc(e.val if e.val is not None else Opaque('exception'))
                        self.cur_exc = e
                        return self.exec(hi[-1])
                else:
                    self.cur_exc = e
                    return self.exec(hi[-1])
            raise

    def catches(self, ht, what):
        if ht in ('exception', what): return True
        if ht == 'runtime_error' and what == 'gthrow': return True
        return ht in self.prog.mro(what)

    def x_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if c]
        cond = self.rv(self.eval(inner[0]))
        body = inner[-1]
        items = body.get('inner', [])
        # flatten nested case labels
        seq = []
        for c in items:
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    seq.append(('case', c['inner'][0]))
                    c = c['inner'][-1]
                else:
                    seq.append(('default', None))
                    c = c['inner'][-1]
            seq.append(('stmt', c))
        start = None
        for i, (k, e) in enumerate(seq):
            if k == 'case':
                if self.branch(eq(cond, self.rv(self.eval(e)))):
                    start = i
                    break
        if start is None:
            ds = [i for i, s in enumerate(seq) if s[0] == 'default']
            if not ds: return
            start = ds[0]
        try:
            for k, e in seq[start:]:
                if k == 'stmt': self.exec(e)
        except BreakEx:
            pass

    # ---------------------------------------------------------------- loops
    def loop(self, node, cond, body, inc):
        from .loops import run_loop
        return run_loop(self, node, cond, body, inc)

    # ---------------------------------------------------------------- expressions
    def rv(self, x):
        if isinstance(x, LV): return self.read(x)
        if isinstance(x, Comma): return self.finish_comma(x)
        return x

    def finish_comma(self, c): return self.read(c.lv)

    def bool(self, e):
        v = self.rv(self.eval(e))
        return self.as_bool(v)

    def as_bool(self, v):
        if isinstance(v, T):
            if v.sort == 'B': return v
            if v.op == 'str': return TRUE     # a string literal is a non-null pointer
            if v.sort in ('I', 'R'): return not_(eq(v, num(0, v.sort)))
            if v.sort == 'O': return not_(eq(v, var('null', 'O')))
        if isinstance(v, Ptr): return boolc(v.lv is not None)
        if isinstance(v, Sym) and v.nonnull: return TRUE
        if isinstance(v, Sym): return not_(eq(v.t, var('null', 'O'))) if v.t.sort == 'O' else TRUE
        if isinstance(v, Opt): return v.has
        raise Unsupported('as bool %r' % (v,))

    def eval(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n)

    def e_ParenExpr(self, n): return self.eval(n['inner'][0])
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ParenExpr

    def e_MaterializeTemporaryExpr(self, n): return self.eval(n['inner'][0])

    def e_ConstantExpr(self, n):
        return self.eval(n['inner'][0])

    def e_SubstNonTypeTemplateParmExpr(self, n): return self.eval(n['inner'][-1])

    def e_CXXDefaultArgExpr(self, n):
        inner = [c for c in n.get('inner', []) if c]
        if inner: return self.eval(inner[0])
        return Opaque('defaultarg')

    def e_CXXDefaultInitExpr(self, n):
        inner = [c for c in n.get('inner', []) if c]
        if inner: return self.eval(inner[0])
        raise Unsupported('default member init')

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        v = self.eval(e)
        return self.cast(ck, v, n)

    def cast(self, ck, v, n):
        if ck in ('NoOp', 'LValueBitCast', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'UserDefinedConversion', 'ConstructorConversion',
                  'BuiltinFnToFnPtr', 'BitCast', 'ToVoid', 'Dependent'): return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'): return v
        if ck == 'LValueToRValue': return self.rv(v)
        if ck == 'IntegralToFloating': return lift(self.rv(v), 'R') if isinstance(self.rv(v), T) else v
        if ck == 'FloatingCast': return self.rv(v)
        if ck == 'FloatingToIntegral': return trunc_(self.rv(v))
        if ck in ('IntegralCast',):
            v = self.rv(v)
            if isinstance(v, T) and v.sort == 'B': return lift(v, 'I')
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.as_bool(self.rv(v))
        if ck == 'NullToPointer': return Ptr(None)
        if ck == 'Dynamic': return self.dyncast(v, n)
        raise Unsupported('cast ' + str(ck))

    def e_CXXStaticCastExpr(self, n):
        return self.cast(n.get('castKind'), self.eval(n['inner'][0]), n)
    e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXStaticCastExpr

    def e_CXXFunctionalCastExpr(self, n):
        return self.cast(n.get('castKind'), self.eval(n['inner'][0]), n)

    def e_CXXDynamicCastExpr(self, n):
        return self.dyncast(self.eval(n['inner'][0]), n)

    def dyncast(self, v, n):
        target = short(qt(n))
        v = self.rv(v) if isinstance(v, LV) and '*' in qt(n) else v
        if isinstance(v, Sym):
            c = self.isa(v, target)
            isref = not qt(n).rstrip(' const').endswith('*')
            if self.branch(c): return Sym(target, v.t, True)
            if isref: raise ThrowEx('bad_cast')
            return Ptr(None)
        if isinstance(v, Ptr):
            if v.lv is None: return v
            o = self.read(v.lv)
            if isinstance(o, Struct): return v if target in self.prog.mro(o.cls) else Ptr(None)
            return v
        if isinstance(v, LV):
            o = self.read(v)
            if isinstance(o, Struct):
                if target in self.prog.mro(o.cls): return v
                raise ThrowEx('bad_cast')
            if isinstance(o, Sym):
                if self.branch(self.isa(o, target)): return LV(('sym', target, o.t))
                raise ThrowEx('bad_cast')
        raise Unsupported('dynamic_cast of %r' % (v,))

    def isa(self, sym, target):
        if target in self.assume_isa: return TRUE
        if target in self.prog.mro(sym.cls): return not_(eq(sym.t, var('null', 'O'))) if sym.t.sort == 'O' and False else TRUE
        return uf('isa_' + target, (sym.t,), 'B')

    def e_IntegerLiteral(self, n): return I(int(n['value']))

    def e_CharacterLiteral(self, n): return I(int(n['value']))

    def e_FloatingLiteral(self, n):
        from fractions import Fraction
        f = float(n['value'])
        if f != f or f in (float('inf'), float('-inf')): raise Unsupported('non-finite literal')
        return R(Fraction(repr(f)))

    def e_StringLiteral(self, n):
        s = n.get('value', '""')
        try:
            import json as _j
            s = _j.loads(s)
        except Exception:
            s = s.strip('"')
        return strc(s)

    def e_CXXBoolLiteralExpr(self, n): return boolc(n['value'])

    def e_CXXNullPtrLiteralExpr(self, n): return Ptr(None)

    def e_CXXThisExpr(self, n): return Ptr(self.frames[-1]['this'])

    def e_PredefinedExpr(self, n): return strc('__func__')

    def e_CXXScalarValueInitExpr(self, n):
        return num(0, 'R' if is_real_type(tyof(n)) else 'I') if not tyof(n) == 'bool' else FALSE

    def e_ImplicitValueInitExpr(self, n): return self.e_CXXScalarValueInitExpr(n)

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        i = r['id']
        for f in (self.frames[-1],):
            if i in f:
                x = f[i]
                return x
        k = r['kind']
        if k == 'EnumConstantDecl': return self.enum_value(i, r)
        if k in ('FunctionDecl', 'CXXMethodDecl'): return ('fn', r)
        if k in ('VarDecl',):
            return self.global_var(i, r)
        # captured variables of lambdas
        c = self.frames[-1].get('__caps__')
        if c and i in c: return c[i]
        raise Unsupported('reference to %s %s' % (k, r.get('name')))

    def enum_value(self, i, r):
        d = self.prog.decls.get(i)
        if d is None and 'ComputationInfo' in r.get('type', {}).get('qualType', ''):
            return I(['Success', 'NumericalIssue', 'NoConvergence', 'InvalidInput'].index(r['name']))
        if d is None and r.get('name') in getattr(self, 'enum_values', {}): return I(self.enum_values[r['name']])
        if d is None: raise Unsupported('enum constant ' + r.get('name', ''))
        inner = [c for c in d.get('inner', []) if c]
        if inner: return self.rv(self.eval(inner[0]))
        # implicit value: position in the enum
        for e in self.prog.decls.values():
            if e['kind'] == 'EnumDecl':
                v = -1
                for c in e.get('inner', []):
                    if c.get('kind') != 'EnumConstantDecl': continue
                    ci = [q for q in c.get('inner', []) if q]
                    v = int(self.rv(self.eval(ci[0])).data) if ci else v + 1
                    if c['id'] == i: return I(v)
        raise Unsupported('enum constant ' + r.get('name', ''))

    def global_var(self, i, r):
        key = 'global:' + r.get('name', '')
        g = self.lib.global_var(r)
        if g is not None: return g
        if key in self.state.ghost: return self.state.ghost[key]
        d = self.prog.decls.get(i)
        cands = [d] if d else []
        name = r.get('name')
        for x in self.prog.decls.values():
            if x['kind'] == 'VarDecl' and x.get('name') == name and x.get('inner') and x.get('type') and x['type']['qualType'] == r['type']['qualType']:
                cands.append(x)
        for x in cands:
            init = [c for c in x.get('inner', []) if c and not c['kind'].endswith(('Attr', 'Comment'))]
            if init and ('const' in x['type']['qualType'] or x.get('constexpr')):
                fr = {'__fn__': 'init of ' + name, 'this': None}
                self.frames.append(fr)
                try:
                    v = self.rv(self.eval(init[0]))
                finally:
                    self.frames.pop()
                v = self.coerce(v, tyof(x))
                lv = self.alloc(v)
                self.state.ghost[key] = lv
                return lv
        raise Unsupported('global variable ' + str(name))

    def e_MemberExpr(self, n):
        base = self.eval(n['inner'][0]) if n.get('inner') else None
        name = n['name']
        mid = n.get('referencedMemberDecl')
        d = self.prog.decls.get(mid)
        if d is not None and d['kind'] == 'VarDecl':  # static member
            return self.global_var(mid, d)
        if n.get('isArrow'):
            base = self.deref(base)
        return self.member(base, name, n)

    def member(self, base, name, n=None):
        if isinstance(base, LV):
            v = self.read(base)
            if isinstance(v, Sym): return LV(('sym', v.cls, v.t), (('f', name),))
            if isinstance(v, Struct) and name not in v.f:
                raise Unsupported('member %s of %s not modelled' % (name, v.cls))
            if isinstance(v, Struct) and isinstance(v.f[name], View): return v.f[name].lv
            return base.sub(('f', name))
        if isinstance(base, Struct): return base.f[name].lv if isinstance(base.f[name], View) else base.f[name]
        if isinstance(base, Tup): return base.d[0 if name == 'first' else 1]
        if isinstance(base, Sym): return LV(('sym', base.cls, base.t), (('f', name),))
        raise Unsupported('member %s of %r' % (name, base))

    def deref(self, p):
        p0 = p
        p = self.rv(p)
        if isinstance(p, Ptr):
            if p.lv is None:
                self.oblige('no null dereference', FALSE, self.where(), 'bounds')
                raise Infeasible()
            return p.lv
        if isinstance(p, Sym):
            return LV(('sym', p.cls, p.t))
        if isinstance(p, Iter):
            v = self.read(p.lv)
            i = p.i if not p.rev else sub(sub(v.n, I(1)), p.i)
            self.in_bounds(v, i, 'dereferenced iterator')
            return p.lv.sub(('i', i))
        if isinstance(p, Opt):
            self.oblige('optional has a value', p.has, self.where(), 'bounds')
            return p0.sub(('o',)) if isinstance(p0, LV) else p.v
        if isinstance(p, (Struct, Vec, Mat, Mat2)):
            # owning pointers are modelled by their pointee
            return p0
        raise Unsupported('dereference of %r' % (p,))

    def e_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '*': return self.deref(self.eval(e))
        if op == '&':
            x = self.eval(e)
            if isinstance(x, LV):
                v = None
                if isinstance(x.root, tuple) and not x.path: return Sym(x.root[1], x.root[2])
                return Ptr(x)
            return Ptr(self.alloc(x))
        if op in ('++', '--'):
            lv = self.eval(e)
            v = self.read(lv)
            one = 1 if op == '++' else -1
            if isinstance(v, Iter): nv = Iter(v.lv, v.i + one, v.rev)
            else: nv = v + one
            self.write(lv, nv)
            return v if n.get('isPostfix') else lv
        v = self.rv(self.eval(e))
        if op == '-': return self.neg(v)
        if op == '+': return lift(v, 'I') if isinstance(v, T) and v.sort == 'B' else v
        if op == '!': return not_(self.as_bool(v))
        raise Unsupported('unary ' + op)

    def neg(self, v):
        if isinstance(v, T): return -lift(v, 'I') if v.sort == 'B' else -v
        if isinstance(v, Mat): return v.map(lambda x: -x)
        if isinstance(v, Vec): return Vec(v.n, lambda i: -v.at(i), v.kind)
        if isinstance(v, Mat2): return Mat2(v.nr, v.nc, lambda i, j: -v.at(i, j))
        raise Unsupported('negation of %r' % (v,))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            rhs = self.rv(self.eval(b))
            lv = self.eval(a)
            self.write(lv, rhs)
            return lv
        if op == ',':
            self.eval(a)
            return self.eval(b)
        if op in ('&&', '||'):
            x = self.bool(a)
            if x is TRUE: return TRUE if op == '||' else self.bool(b)
            if x is FALSE: return FALSE if op == '&&' else self.bool(b)
            if self.pure(b):
                # no side effects: build the formula, obligations under the guard
                if op == '&&':
                    y = self.guarded(x, lambda: self.bool(b))
                    return and_(x, y)
                y = self.guarded(not_(x), lambda: self.bool(b))
                return or_(x, y)
            if self.branch(x): return TRUE if op == '||' else self.bool(b)
            return FALSE if op == '&&' else self.bool(b)
        x, y = self.rv(self.eval(a)), self.rv(self.eval(b))
        return self.binop(op, x, y, n)

    def pure(self, e):
        st = [e]
        while st:
            x = st.pop()
            k = x.get('kind', '')
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CompoundAssignOperator', 'LambdaExpr', 'CXXThrowExpr', 'ConditionalOperator', 'CXXDynamicCastExpr'): return False
            if k == 'CXXOperatorCallExpr': return False
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--'): return False
            if k == 'BinaryOperator' and x.get('opcode') in ('=',): return False
            st.extend(c for c in x.get('inner', []) if c)
        return True

    def guarded(self, g, f):
        n0 = len(self.state.pc)
        self.state.pc.append(g)
        try:
            return f()
        finally:
            del self.state.pc[n0:]

    def binop(self, op, x, y, n=None):
        if isinstance(x, Iter) or isinstance(y, Iter): return self.lib.iter_op(op, x, y)
        if isinstance(x, (Ptr, Sym)) or isinstance(y, (Ptr, Sym)):
            e = self.ptr_eq(x, y)
            if op == '==': return e
            if op == '!=': return not_(e)
        if isinstance(x, T) and isinstance(y, T):
            if x.sort == 'S' and y.sort == 'S' and op in ('<', '>', '<=', '>='):
                x, y = self.lib.rank(x, y)
            if x.sort == 'B' and op not in ('==', '!='): x = lift(x, 'I')
            if y.sort == 'B' and op not in ('==', '!='): y = lift(y, 'I')
            if op == '+' and x.sort == 'S' and y.sort == 'S': return uf('concat', (x, y), 'S')
            if op == '+': return add(x, y)
            if op == '-':
                if self.checks_unsigned and n is not None and 'unsigned' in tyof(n):
                    self.oblige('unsigned subtraction does not wrap', le(y, x), self.loc(n), 'bounds')
                return sub(x, y)
            if op == '*': return mul(x, y)
            if op == '/':
                if x.sort == 'I' and y.sort == 'I':
                    self.oblige('no integer division by zero', not_(eq(y, I(0))), self.loc(n), 'bounds')
                    return idiv(x, y)
                return div(x, y)
            if op == '%': return imod(x, y)
            if self.nan_aware and op in ('==', '!=', '<', '>', '<=', '>=') and (x.sort == 'R' or y.sort == 'R'):
                ok = and_(not_(self.isnan(x)), not_(self.isnan(y)))
                c = {'==': eq, '!=': eq, '<': lt, '>': lambda a, b: lt(b, a), '<=': le, '>=': lambda a, b: le(b, a)}[op](x, y)
                return not_(and_(ok, c)) if op == '!=' else and_(ok, c)
            if op == '==': return eq(x, y)
            if op == '!=': return not_(eq(x, y))
            if op == '<': return lt(x, y)
            if op == '>': return lt(y, x)
            if op == '<=': return le(x, y)
            if op == '>=': return le(y, x)
        return self.lib.arith(op, x, y)

    nan_aware = False     # every double that is not a literal or declared a number may be NaN; comparisons with NaN are false

    def isnan(self, t):
        if t.op == 'num' or t.sort != 'R' or t in self.numbers: return FALSE
        return uf('isnan', (t,), 'B')

    def ptr_eq(self, x, y):
        if isinstance(x, Ptr) and x.lv is not None and isinstance(x.lv.root, tuple) and not x.lv.path: x = Sym(x.lv.root[1], x.lv.root[2], True)
        if isinstance(y, Ptr) and y.lv is not None and isinstance(y.lv.root, tuple) and not y.lv.path: y = Sym(y.lv.root[1], y.lv.root[2], True)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.lv is None or y.lv is None: return boolc(x.lv is None and y.lv is None)
            return boolc(same_lv(x.lv, y.lv))
        if isinstance(x, Sym) and isinstance(y, Sym): return eq(x.t, y.t)
        if isinstance(x, Ptr) and x.lv is None and isinstance(y, Sym): x, y = y, x
        if isinstance(x, Sym) and isinstance(y, Ptr) and y.lv is None:
            return FALSE if x.nonnull else (eq(x.t, var("null", "O")) if x.t.sort == "O" else FALSE)
        if isinstance(x, Opt) or isinstance(y, Opt): pass
        if isinstance(x, Ptr) and x.lv is None or isinstance(y, Ptr) and y.lv is None: return FALSE
        raise Unsupported('pointer comparison')

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        rhs = self.rv(self.eval(b))
        lv = self.eval(a)
        cur = self.read(lv)
        v = self.binop(op, cur, rhs, n)
        if isinstance(cur, T) and isinstance(v, T) and cur.sort == 'I' and v.sort == 'R': v = trunc_(v)
        self.write(lv, v)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cond = self.bool(c)
        if cond is TRUE: return self.eval(a)
        if cond is FALSE: return self.eval(b)
        if self.pure(a) and self.pure(b):
            x = self.guarded(cond, lambda: self.rv(self.eval(a)))
            y = self.guarded(not_(cond), lambda: self.rv(self.eval(b)))
            if isinstance(x, T) and isinstance(y, T): return ite(cond, x, y)
        return self.eval(a) if self.branch(cond) else self.eval(b)

    def e_ArraySubscriptExpr(self, n):
        a = self.eval(n['inner'][0])
        i = self.rv(self.eval(n['inner'][1]))
        if isinstance(a, LV):
            self.in_bounds(self.read(a), i, 'array subscript', n)
            return a.sub(('i', i))
        raise Unsupported('subscript')

    def e_CXXThrowExpr(self, n):
        inner = [c for c in n.get('inner', []) if c]
        if not inner: raise ThrowEx(self.cur_exc.what, self.cur_exc.val)
        raise ThrowEx(short(tyof(inner[0])))

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        caps = {}
        return Lam(n, self.frames[-1], self.frames[-1].get('this'))

    def e_InitListExpr(self, n):
        return self.lib.init_list(n)

    def e_CXXStdInitializerListExpr(self, n):
        return self.eval(n['inner'][0])

    def e_CXXConstructExpr(self, n): return self.lib.construct(n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n): raise Unsupported('new')

    def e_UnaryExprOrTypeTraitExpr(self, n): raise Unsupported('sizeof')

    def e_CXXOperatorCallExpr(self, n): return self.lib.operator_call(n)

    def e_CXXMemberCallExpr(self, n): return self.call_member(n)

    def e_CallExpr(self, n): return self.call_free(n)

    def e_UserDefinedLiteral(self, n): return Opaque('literal')

    def e_CXXInheritedCtorInitExpr(self, n): raise Unsupported('inherited ctor')

    # ---------------------------------------------------------------- calls
    def call_member(self, n):
        callee = strip_casts(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] != 'MemberExpr': raise Unsupported('member call through ' + callee['kind'])
        name = callee['name']
        base = self.eval(callee['inner'][0])
        btype = tyof(callee['inner'][0])
        if callee.get('isArrow'): base = self.deref(base)
        decl = self.prog.decls.get(callee.get('referencedMemberDecl'))
        return self.invoke(base, name, args, n, decl, btype, qualified='::' in '')

    def dynclass(self, base, decl, btype):
        v = base
        if isinstance(base, LV):
            if isinstance(base.root, tuple) and not base.path: return base.root[1], True
            try:
                v = self.read(base)
            except Unsupported:
                v = None
        if isinstance(v, Struct): return v.cls, False
        if isinstance(v, Sym): return v.cls, True
        return None, False

    def invoke(self, base, name, args, n, decl, btype, qualified=False):
        cls, issym = self.dynclass(base, decl, btype)
        if cls is not None and (cls in self.prog.records):
            for c in self.prog.mro(cls):
                h = self.contracts.get(c + '::' + name)
                if h:
                    self.called_contracts.add(c + '::' + name)
                    return h(self, base, [self.eval(a) for a in args], n)
            fs = self.prog.find_method(cls, name)
            fd = self.prog.definition(decl) if decl is not None else None
            nargs = len(args)
            cand = [f for f in fs if cxx.required(f) <= nargs <= len(params(f))]
            if decl is not None and len(cand) > 1:
                # overloads: same parameter types
                pt = decl.get('type', {}).get('qualType')
                c2 = [f for f in cand if f['type']['qualType'] == pt]
                if c2: cand = c2
                if fd is not None and any(f is fd for f in cand): cand = [fd]
            if cand:
                return self.call_fn(cand[0], base, args, n)
            if fd is not None: return self.call_fn(fd, base, args, n)
            r = self.lib.method(base, name, args, n, btype)
            if r is not NotImplemented: return r
            raise Unsupported('no body or contract for %s::%s' % (cls, name))
        if decl is not None:
            q = decl.get('_q')
            if q in self.contracts:
                self.called_contracts.add(q)
                return self.contracts[q](self, base, [self.eval(a) for a in args], n)
        r = self.lib.method(base, name, args, n, btype)
        if r is not NotImplemented: return r
        fd = self.prog.definition(decl) if decl is not None else None
        if fd is not None: return self.call_fn(fd, base, args, n)
        raise Unsupported('method %s on %r (%s)' % (name, self.safe_read(base), btype[:80]))

    def safe_read(self, b):
        try:
            return self.read(b) if isinstance(b, LV) else b
        except Exception:
            return b

    def call_free(self, n):
        callee = strip_casts(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] == 'DeclRefExpr':
            r = callee['referencedDecl']
            if r['id'] in self.frames[-1] or r['kind'] in ('VarDecl', 'ParmVarDecl'):
                f = self.rv(self.eval(callee))
                return self.call_value(f, args, n)
            decl = self.prog.decls.get(r['id']) or self.prog.globals.get((r.get('name'), r.get('type', {}).get('qualType')))
            q = decl.get('_q') if decl else r['name']
            if q in self.contracts:
                self.called_contracts.add(q)
                return self.contracts[q](self, None, [self.eval(a) for a in args], n)
            fd = self.prog.definition(decl) if decl else None
            if fd is None and decl is not None and q in self.prog.funcs:
                c = [f for f in self.prog.funcs[q] if len(params(f)) == len(args)]
                if len(c) == 1: fd = c[0]
            if r['name'] in ('gthrow',):
                raise ThrowEx('gthrow')
            if fd is not None: return self.call_fn(fd, None, args, n)
            return self.lib.free(r, args, n)
        if callee['kind'] == 'MemberExpr':  # static member through object
            decl = self.prog.decls.get(callee.get('referencedMemberDecl'))
            fd = self.prog.definition(decl) if decl else None
            if fd is not None: return self.call_fn(fd, None, args, n)
        v = self.rv(self.eval(n['inner'][0]))
        return self.call_value(v, args, n)

    def call_value(self, f, args, n):
        if isinstance(f, Lam):
            return self.call_lambda(f, [self.eval(a) for a in args], n)
        if isinstance(f, tuple) and f[0] == 'fn':
            decl = self.prog.decls.get(f[1]['id'])
            fd = self.prog.definition(decl) if decl else None
            if fd: return self.call_fn(fd, None, args, n)
            return self.lib.free(f[1], args, n)
        if callable(f):
            return f(self, [self.eval(a) for a in args], n)
        raise Unsupported('call of %r' % (f,))

    def call_lambda(self, lam, argvals, n):
        rec = lam.node['inner'][0]
        op = None
        for c in rec.get('inner', []):
            if c and c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': op = c
            if c and c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                for q in c.get('inner', []):
                    if q and q.get('kind') == 'CXXMethodDecl' and 'mangledName' in q: op = q
        if op is None: raise Unsupported('lambda without call operator')
        body = [c for c in lam.node['inner'] if c and c.get('kind') == 'CompoundStmt'][-1]
        if Program_body(op) is not None: body = Program_body(op)
        fr = dict(lam.env)
        fr['__fn__'] = self.where() + '::lambda'
        fr['this'] = lam.this
        return self.run_body(op, body, fr, argvals)

    def call_fn(self, fd, base, args, n):
        return self.call_def(fd, base, [self.eval(a) for a in args])

    def call_def(self, fd, base, argvals):
        q = fd.get('_q', fd.get('name'))
        if self.depth > 40: raise Unsupported('recursion in ' + str(q))
        body = cxx.Program.body(fd)
        if body is None: raise Unsupported('no body for ' + str(q))
        self.used.add(q)
        this = base
        if base is not None and not isinstance(base, LV): this = self.alloc(base)
        if fd['kind'] == 'CXXMethodDecl' and fd.get('storageClass') == 'static': this = None
        fr = {'__fn__': q, 'this': this, '__body__': body}
        return self.run_body(fd, body, fr, argvals)

    def bind_params(self, fd, fr, argvals):
        ps = params(fd)
        for i, p in enumerate(ps):
            t = tyof(p)
            if i < len(argvals): x = argvals[i]
            else:
                init = [c for c in p.get('inner', []) if c]
                if not init: raise Unsupported('missing argument')
                x = self.eval(init[0])
            if t.rstrip().endswith('&') or self.is_view_type(t):
                lv = x if isinstance(x, LV) else self.alloc(self.rv(x) if isinstance(x, Comma) else x)
                if self.is_view_type(t) and isinstance(x, LV): pass
            else:
                lv = self.alloc(self.coerce(self.rv(x), t))
            fr[p['id']] = lv
            fr[('nm', p.get('name', ''))] = p['id']

    def run_body(self, fd, body, fr, argvals):
        rt = rettype(fd['type'].get('desugaredQualType') or fd['type']['qualType'])
        self.frames.append(fr)
        self.depth += 1
        try:
            self.bind_params(fd, fr, argvals)
            try:
                self.exec(body)
                r = None
            except ReturnEx as e:
                r = e.v
            if r is not None and not rt.rstrip().endswith('&') and not self.is_view_type(rt):
                r = self.coerce(self.rv(r), rt)
            return r
        finally:
            self.frames.pop()
            self.depth -= 1


def Program_body(n): return cxx.Program.body(n)


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else: cur += ch
    out.append(cur.strip())
    return out
