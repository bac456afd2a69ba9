"""Hash-consed terms: the logic the verifier works in.

Sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B' (bool), any other
string is an uninterpreted sort.  Functions (arrays, object fields, library values)
are uninterpreted symbols applied to arguments: T('uf', (name, args...)).
Binders: sum(k, lo, hi, body), all(k..., body), ex(k..., body).
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "data", "id", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)

    # arithmetic sugar
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __truediv__(a, b): return div(a, lift(b, a.sort))
    def __rtruediv__(a, b): return div(lift(b, a.sort), a)
    def __neg__(a): return mul(num(-1, a.sort), a)
    def __lt__(a, b): return lt(a, lift(b, a.sort))
    def __le__(a, b): return le(a, lift(b, a.sort))
    def __gt__(a, b): return lt(lift(b, a.sort), a)
    def __ge__(a, b): return le(lift(b, a.sort), a)
    def eq(a, b): return eq(a, lift(b, a.sort))
    def ne(a, b): return not_(eq(a, lift(b, a.sort)))


def mk(op, args, sort, data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        t.id = next(_ids)
        t._fv = None
        _table[key] = t
    return t


def num(v, sort='R'):
    return mk('num', (), sort, Fraction(v))


def I(v): return num(v, 'I')
def R(v): return num(v, 'R')


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def boolc(b): return TRUE if b else FALSE


def lift(v, sort='R'):
    if isinstance(v, T):
        if v.sort != sort:
            if sort == 'R' and v.sort == 'I':
                return to_real(v)
            if sort == 'I' and v.sort == 'R' and v.op == 'num' and v.data.denominator == 1:
                return num(v.data, 'I')
            if sort in ('I', 'R') and v.sort == 'B':
                return ite(v, num(1, sort), num(0, sort))
        return v
    if isinstance(v, bool):
        return boolc(v)
    return num(v, sort)


def var(name, sort='R'):
    return mk('var', (), sort, name)


_fresh = itertools.count()


def fresh(prefix, sort='R'):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def uf(name, args, sort='R'):
    return mk('uf', tuple(args), sort, name)


def isnum(t): return t.op == 'num'


def join(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == 'B':
        a = lift(a, 'I')
    if b.sort == 'B':
        b = lift(b, 'I')
    if a.sort == 'I' and b.sort == 'R':
        return to_real(a), b
    if a.sort == 'R' and b.sort == 'I':
        return a, to_real(b)
    return a, b


# ---- linear normal form: add is n-ary over (coef, term) -------------------
def _lin(t, c, acc):
    if t.op == 'num':
        acc[None] = acc.get(None, 0) + c * t.data
    elif t.op == 'add':
        for a in t.args:
            _lin(a, c, acc)
    elif t.op == 'mul' and t.args[0].op == 'num':
        rest = t.args[1:]
        r = rest[0] if len(rest) == 1 else mk('mul', rest, t.sort)
        if r.op == 'add':
            _lin(r, c * t.args[0].data, acc)
        else:
            acc[r] = acc.get(r, 0) + c * t.args[0].data
    else:
        acc[t] = acc.get(t, 0) + c


def linear(t):
    acc = {}
    _lin(t, Fraction(1), acc)
    return {k: v for k, v in acc.items() if v != 0}


def from_linear(acc, sort):
    const = acc.get(None, 0)
    items = sorted(((k, v) for k, v in acc.items() if k is not None and v != 0), key=lambda kv: kv[0].id)
    out = []
    for k, v in items:
        out.append(k if v == 1 else _mulraw(num(v, sort), k))
    if const != 0 or not out:
        out.append(num(const, sort))
    return out[0] if len(out) == 1 else mk('add', out, sort)


def _mulraw(c, k):
    if k.op == 'mul':
        return mk('mul', (c,) + k.args, k.sort)
    return mk('mul', (c, k), k.sort)


def add(*ts):
    s = 'R' if any(t.sort == 'R' for t in ts) else 'I'
    acc = {}
    for t in ts:
        _lin(lift(t, s), Fraction(1), acc)
    return from_linear(acc, s)


def sub(a, b):
    a, b = join(a, b)
    acc = {}
    _lin(a, Fraction(1), acc)
    _lin(b, Fraction(-1), acc)
    return from_linear(acc, a.sort)


def mul(*ts):
    s = 'R' if any(t.sort == 'R' for t in ts) else 'I'
    c = Fraction(1)
    fs = []
    for t in ts:
        t = lift(t, s)
        if t.op == 'num':
            c *= t.data
        elif t.op == 'mul':
            for a in t.args:
                if a.op == 'num':
                    c *= a.data
                else:
                    fs.append(a)
        else:
            fs.append(t)
    if c == 0:
        return num(0, s)
    if not fs:
        return num(c, s)
    fs.sort(key=lambda t: t.id)
    if len(fs) == 1:
        if c == 1:
            return fs[0]
        if fs[0].op == 'add':
            acc = {}
            _lin(fs[0], c, acc)
            return from_linear(acc, s)
        return mk('mul', (num(c, s), fs[0]), s)
    if c == 1:
        return mk('mul', fs, s)
    return mk('mul', [num(c, s)] + fs, s)


def div(a, b):
    a, b = lift(a, 'R'), lift(b, 'R')
    if b.op == 'num' and b.data != 0:
        return mul(num(1 / b.data), a)
    if a.op == 'num' and a.data == 0:
        return a
    return mk('div', (a, b), 'R')


def idiv(a, b):
    """C++ truncating integer division."""
    if isnum(a) and isnum(b) and b.data != 0:
        q = abs(a.data) // abs(b.data)
        return I(q if (a.data >= 0) == (b.data > 0) else -q)
    if isnum(b) and b.data == 1:
        return a
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if isnum(a) and isnum(b) and b.data != 0:
        return I(a.data - b.data * idiv(a, b).data)
    return mk('imod', (a, b), 'I')


def to_real(a):
    if a.sort == 'R':
        return a
    if a.sort == 'B':
        return ite(a, R(1), R(0))
    if a.op == 'num':
        return R(a.data)
    if a.op == 'ite':
        return ite(a.args[0], to_real(a.args[1]), to_real(a.args[2]))
    if a.op == 'add':
        return add(*[to_real(x) for x in a.args])
    if a.op == 'mul':
        return mul(*[to_real(x) for x in a.args])
    return mk('toreal', (a,), 'R')


def floor_(a):
    if a.op == 'num':
        return I(a.data.numerator // a.data.denominator)
    if a.op == 'toreal':
        return a.args[0]
    return mk('floor', (a,), 'I')


def ceil_(a):
    return -floor_(-a)


def trunc_(a):
    if a.sort == 'I':
        return a
    if a.op in ('num',):
        n = abs(a.data)
        q = n.numerator // n.denominator
        return I(q if a.data >= 0 else -q)
    if a.op == 'toreal':
        return a.args[0]
    lz = linear(a)
    if all((k is None and v.denominator == 1) or (k is not None and k.op == 'toreal' and v.denominator == 1) for k, v in lz.items()):
        return from_linear({(k.args[0] if k is not None else None): v for k, v in lz.items()}, 'I')
    return ite(le(R(0), a), floor_(a), ceil_(a))


# ---- comparison / boolean --------------------------------------------------
def eq(a, b):
    if a is b:
        return TRUE
    a, b = join(a, b)
    if a is b:
        return TRUE
    if a.sort in ('R', 'I'):
        d = sub(a, b)
        if d.op == 'num':
            return boolc(d.data == 0)
        if a.sort == 'I':
            l = linear(d)
            den = 1
            import math
            g = 0
            for k, v in l.items():
                if k is not None:
                    g = math.gcd(g, v.numerator) if v.denominator == 1 else 1
            c = l.get(None, Fraction(0))
            if g > 1 and c.denominator == 1 and c.numerator % g != 0:
                return FALSE
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
    if a.op == 'str' and b.op == 'str':
        return boolc(a.data == b.data)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def strc(s): return mk('str', (), 'S', s)


def lt(a, b):
    a, b = join(a, b)
    d = sub(a, b)
    if d.op == 'num':
        return boolc(d.data < 0)
    return mk('lt', (a, b), 'B')


def le(a, b):
    a, b = join(a, b)
    d = sub(a, b)
    if d.op == 'num':
        return boolc(d.data <= 0)
    return mk('le', (a, b), 'B')


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        if isinstance(t, (list, tuple)):
            t = and_(*t)
        for a in (t.args if t.op == 'and' else (t,)):
            if a is FALSE: return FALSE
            if a is TRUE or a.id in seen: continue
            seen.add(a.id)
            out.append(a)
    for a in out:
        if not_(a).id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', out, 'B')


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        if isinstance(t, (list, tuple)):
            t = or_(*t)
        for a in (t.args if t.op == 'or' else (t,)):
            if a is TRUE: return TRUE
            if a is FALSE or a.id in seen: continue
            seen.add(a.id)
            out.append(a)
    for a in out:
        if not_(a).id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', out, 'B')


def implies(a, b): return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    a, b = join(a, b)
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), a.sort)


def abs_(a):
    if isnum(a): return num(abs(a.data), a.sort)
    return ite(le(num(0, a.sort), a), a, -a)


def binder(op, ks, args, sort):
    return mk(op, tuple(ks) + tuple(args), sort, len(ks))


def sum_(k, lo, hi, body):
    """sum over integer k in [lo,hi)."""
    if body.op == 'num' and body.data == 0:
        return num(0, body.sort)
    return binder('sum', (k,), (lo, hi, body), body.sort)


def forall(ks, body):
    if body is TRUE or body is FALSE: return body
    if isinstance(ks, T): ks = (ks,)
    return binder('all', ks, (body,), 'B')


def exists(ks, body):
    if body is TRUE or body is FALSE: return body
    if isinstance(ks, T): ks = (ks,)
    return binder('ex', ks, (body,), 'B')


BINDERS = ('sum', 'all', 'ex')


def fv(t):
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset((t,))
        else:
            s = frozenset()
            for a in t.args:
                s = s | fv(a)
            if t.op in BINDERS:
                s = s - frozenset(t.args[:t.data])
            t._fv = s
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == 'add': return add(*args)
    if op == 'mul': return mul(*args)
    if op == 'div': return div(*args)
    if op == 'idiv': return idiv(*args)
    if op == 'imod': return imod(*args)
    if op == 'toreal': return to_real(args[0])
    if op == 'floor': return floor_(args[0])
    if op == 'eq': return eq(*args)
    if op == 'lt': return lt(*args)
    if op == 'le': return le(*args)
    if op == 'not': return not_(args[0])
    if op == 'and': return and_(*args)
    if op == 'or': return or_(*args)
    if op == 'ite': return ite(*args)
    if op == 'uf': return rebuild_uf(t, args)
    if op == 'sum': return sum_(args[0], args[1], args[2], args[3])
    if op == 'all': return forall(args[:t.data], args[-1])
    if op == 'ex': return exists(args[:t.data], args[-1])
    return mk(op, args, t.sort, t.data)


def rebuild_uf(t, args):
    f = SIMP.get(t.data)
    if f is not None:
        return f(*args)
    return uf(t.data, args, t.sort)


SIMP = {}


def subst(t, m, memo=None):
    """capture-avoiding substitution, m: {term: term} on vars (or any subterm)."""
    if not m: return t
    if memo is None: memo = {}
    keyvars = None
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None: return r
    if not t.args: return t
    r = memo.get(t.id)
    if r is not None: return r
    if t.op in BINDERS:
        ks = t.args[:t.data]
        m2 = {a: b for a, b in m.items() if a not in ks}
        # rename bound vars if capture is possible
        used = frozenset()
        for b in m2.values():
            used = used | fv(b)
        ren = {}
        nks = []
        for k in ks:
            if k in used:
                nk = fresh(k.data.split('!')[0], k.sort)
                ren[k] = nk
                nks.append(nk)
            else:
                nks.append(k)
        if ren:
            body_args = [_subst(a, ren, {}) for a in t.args[t.data:]]
        else:
            body_args = list(t.args[t.data:])
        nm = {} if (ren or len(m2) != len(m)) else memo
        body_args = [_subst(a, m2, nm) for a in body_args]
        r = rebuild(t, tuple(nks) + tuple(body_args))
    else:
        na = [_subst(a, m, memo) for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t, na)
    memo[t.id] = r
    return r


_ALPHA = {}


def alpha(t):
    """the same term with the variables bound by sums named by nesting depth: sums that differ in the name only become equal"""
    return _alpha(t)[0]


def _alpha(t):
    if not t.args: return t, 0
    r = _ALPHA.get(t.id)
    if r is not None: return r
    if t.op in BINDERS and t.op != 'sum':
        b, d = _alpha(t.args[-1])
        ks = t.args[:t.data]
        r = (t if b is t.args[-1] else rebuild(t, tuple(ks) + (b,))), d
    elif t.op == 'sum':
        k = t.args[0]
        (lo, dl), (hi, dh), (b, db) = [_alpha(a) for a in t.args[1:]]
        q = var('#%s%d' % (k.sort, db), k.sort)
        r = rebuild(t, (q, lo, hi, subst(b, {k: q}) if q is not k else b)), max(dl, dh, db + 1)
    else:
        na = [_alpha(a) for a in t.args]
        d = max(x[1] for x in na)
        r = (t if all(x[0] is y for x, y in zip(na, t.args)) else rebuild(t, [x[0] for x in na])), d
    _ALPHA[t.id] = r
    return r


def subterms(t, seen=None, out=None):
    if out is None: seen, out = set(), []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.args)
    return out


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def show(t, d=0):
    if d > 14: return "..."
    op = t.op
    if op == 'num':
        return str(t.data) if t.data.denominator < 10**6 else repr(float(t.data))
    if op == 'var': return t.data
    if op == 'str': return repr(t.data)
    if op in ('true', 'false'): return op
    s = [show(a, d + 1) for a in t.args]
    inf = {'add': ' + ', 'mul': '*', 'div': '/', 'eq': ' == ', 'lt': ' < ', 'le': ' <= ', 'and': ' && ', 'or': ' || '}
    if op in inf: return '(' + inf[op].join(s) + ')'
    if op == 'not': return '!' + s[0]
    if op == 'ite': return '(%s ? %s : %s)' % tuple(s)
    if op == 'uf': return '%s(%s)' % (t.data, ', '.join(s))
    return '%s(%s)' % (op, ', '.join(s))


# ---- math functions with simplification ------------------------------------
def log_(x):
    if x.op == 'uf' and x.data == 'exp': return x.args[0]
    if isnum(x) and x.data == 1: return R(0)
    return uf('log', (x,), 'R')


def exp_(x):
    if isnum(x) and x.data == 0: return R(1)
    if x.op == 'uf' and x.data == 'log': return x.args[0]
    return uf('exp', (x,), 'R')


def pow_(x, c):
    x, c = lift(x, 'R'), lift(c, 'R')
    if isnum(c) and c.data.denominator == 1 and abs(c.data) <= 8:
        n = int(c.data)
        if n == 0: return R(1)
        r = mul(*([x] * abs(n)))
        return r if n > 0 else div(R(1), r)
    return exp_(mul(c, log_(x)))


def sqrt_(x):
    if isnum(x):
        import math
        p, q = math.isqrt(max(0, x.data.numerator)), math.isqrt(x.data.denominator)
        if p * p == x.data.numerator and q * q == x.data.denominator: return R(Fraction(p, q))
    return uf('sqrt', (x,), 'R')


SIMP.update(log=log_, exp=exp_, sqrt=sqrt_)


# ---- differentiation ---------------------------------------------------------
def diff(t, leaf, memo=None):
    """d t / d (leaf); leaf: function T->T or None giving the derivative of leaves
    (vars and non-math uf applications); default 0."""
    if isinstance(leaf, T): leaf = wrt(leaf)
    if memo is None: memo = {}
    if t.id in memo: return memo[t.id]
    r = _diff(t, leaf, memo)
    memo[t.id] = r
    return r


MATHFN = ('sin', 'cos', 'exp', 'log', 'sqrt')


def wrt(x):
    """derivative leaf for one variable / opaque term x"""
    def leaf(t):
        return R(1) if t is x else None
    return leaf


def wrt_uf(name, *c):
    """derivative with respect to the array entry name(c...)"""
    def leaf(t):
        if t.op == 'uf' and t.data == name: return ite(and_(*[eq(a, b) for a, b in zip(t.args, c)]), R(1), R(0))
        return None
    return leaf


def _diff(t, leaf, memo):
    op = t.op
    Z = R(0)
    if op == 'num': return Z
    d = leaf(t)
    if d is not None: return d
    if op in ('var', 'toreal', 'floor', 'idiv', 'imod', 'str'): return Z
    if op == 'add': return add(*[diff(a, leaf, memo) for a in t.args])
    if op == 'mul':
        out = []
        for i, a in enumerate(t.args):
            da = diff(a, leaf, memo)
            if isnum(da) and da.data == 0: continue
            out.append(mul(da, *(t.args[:i] + t.args[i + 1:])))
        return add(*out) if out else Z
    if op == 'div':
        a, b = t.args
        da, db = diff(a, leaf, memo), diff(b, leaf, memo)
        r = Z
        if not (isnum(da) and da.data == 0): r = r + div(da, b)
        if not (isnum(db) and db.data == 0): r = r - div(mul(a, db), mul(b, b))
        return r
    if op == 'ite':
        return ite(t.args[0], diff(t.args[1], leaf, memo), diff(t.args[2], leaf, memo))
    if op == 'sum':
        k, lo, hi, body = t.args
        return sum_(k, lo, hi, diff(body, leaf, {}))
    if op == 'uf':
        n = t.data
        if n in ('sin', 'cos', 'exp', 'log', 'sqrt'):
            a = t.args[0]
            da = diff(a, leaf, memo)
            if isnum(da) and da.data == 0: return Z
            if n == 'sin': return mul(uf('cos', (a,), 'R'), da)
            if n == 'cos': return mul(R(-1), uf('sin', (a,), 'R'), da)
            if n == 'exp': return mul(t, da)
            if n == 'log': return div(da, a)
            if n == 'sqrt': return div(da, mul(R(2), t))
        # uninterpreted differentiable function: chain rule with the partials D<i>_<name>
        out = []
        for i, a in enumerate(t.args):
            if a.sort != 'R': continue
            da = diff(a, leaf, memo)
            if isnum(da) and da.data == 0: continue
            out.append(mul(uf('D%d_%s' % (i, n), t.args, 'R'), da))
        return add(*out) if out else Z
    raise ValueError("diff: " + op)


# ---- numeric evaluation --------------------------------------------------------
import math


class NoValue(Exception):
    pass


def evaluate(t, env, ufi, memo=None):
    """float/int/bool value of t; env: {var: value}; ufi(name, args)->value."""
    if memo is None: memo = {}
    if t.id in memo: return memo[t.id]
    op = t.op
    E = lambda x: evaluate(x, env, ufi, memo)
    if op == 'num': v = float(t.data) if t.sort == 'R' else int(t.data)
    elif op == 'var':
        if t not in env: raise NoValue(t.data)
        v = env[t]
    elif op == 'true': v = True
    elif op == 'false': v = False
    elif op == 'str': v = t.data
    elif op == 'add': v = sum(E(a) for a in t.args)
    elif op == 'mul':
        v = 1
        for a in t.args: v = v * E(a)
    elif op == 'div':
        b = E(t.args[1])
        if b == 0: raise NoValue('div0')
        v = E(t.args[0]) / b
    elif op == 'idiv':
        a, b = E(t.args[0]), E(t.args[1])
        if b == 0: raise NoValue('div0')
        v = abs(a) // abs(b)
        if (a >= 0) != (b > 0): v = -v
    elif op == 'imod':
        a, b = E(t.args[0]), E(t.args[1])
        if b == 0: raise NoValue('div0')
        v = abs(a) % abs(b)
        if a < 0: v = -v
    elif op == 'toreal': v = float(E(t.args[0]))
    elif op == 'floor': v = math.floor(E(t.args[0]))
    elif op == 'eq': v = E(t.args[0]) == E(t.args[1])
    elif op == 'lt': v = E(t.args[0]) < E(t.args[1])
    elif op == 'le': v = E(t.args[0]) <= E(t.args[1])
    elif op == 'not': v = not E(t.args[0])
    elif op == 'and': v = all(E(a) for a in t.args)
    elif op == 'or': v = any(E(a) for a in t.args)
    elif op == 'ite': v = E(t.args[1]) if E(t.args[0]) else E(t.args[2])
    elif op == 'sum':
        k, lo, hi, body = t.args
        v = 0
        for i in range(E(lo), E(hi)):
            e2 = dict(env); e2[k] = i
            v = v + evaluate(body, e2, ufi, {})
        memo[t.id] = v
        return v
    elif op == 'uf':
        args = [E(a) for a in t.args]
        try:
            if t.data == 'sin': v = math.sin(args[0])
            elif t.data == 'cos': v = math.cos(args[0])
            elif t.data == 'exp': v = math.exp(args[0])
            elif t.data == 'log': v = math.log(args[0])
            elif t.data == 'sqrt': v = math.sqrt(args[0])
            else: v = ufi(t.data, args, t.sort)
        except (ValueError, OverflowError) as e:
            raise NoValue(str(e))
    else:
        raise NoValue(op)
    memo[t.id] = v
    return v
