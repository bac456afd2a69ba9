"""Contracts of std::filesystem, FILE and std::ofstream over a ghost file system that may fail at every operation.

A path is its string; the file system is one value (heap object `FS`) mapping every path to its content, or to ABSENT.
Directories hold DIR. Every operation that may fail forks into success and failure, and failure leaves the effect the
operating system leaves (rename: none, write: an arbitrary partial file)."""
from .lib import *
from .lib import Lib, STREAMS
from .values import jat, jput

ABSENT, EMPTY, DIR, LINK = var('file_absent', 'J'), var('file_empty', 'J'), var('file_directory', 'J'), var('file_link', 'J')
NULLO = var('null', 'O')


def text(s): return uf('file_text', (s,), 'J')


def comp(p, i): return uf('path_comp', (p, i), 'S')


def ncomp(p): return uf('path_n', (p,), 'I')


def pjoin(a, b): return uf('path_join', (a, b), 'S')


def normal(p): return uf('path_normal', (p,), 'S')


class FilesLib(Lib):
    def __init__(self, I):
        super().__init__(I)
        self.FS = I.alloc(var('fs0', 'J'))
        self.fault = I.alloc(FALSE)
        self.step = None        # called with (what) after every change of the file system
        self.targets = []
        I.assume(not_(eq(EMPTY, ABSENT)), not_(eq(DIR, ABSENT)))

    # ---- the ghost file system
    def fs(self): return self.I.read(self.FS)

    def at(self, p): return jat(self.fs(), p)

    def put(self, p, x, what):
        I = self.I
        if x is not ABSENT: I.assume(not_(eq(x, ABSENT)))
        I.write(self.FS, jput(self.fs(), p, x))
        if self.step: self.step(what)

    def fail(self, throw='filesystem_error'):
        from .interp import ThrowEx
        self.I.write(self.fault, TRUE)
        if throw: raise ThrowEx(throw)

    def ok(self, what): return self.I.branch(fresh(what + '_succeeds', 'B'))

    def f_exists(self, a, n):
        self.trust('std::filesystem: exists/rename/remove/create_directory/copy by contract, each may fail')
        return not_(eq(self.at(self.ev(a)[0]), ABSENT))

    def f_is_directory(self, a, n): return eq(self.at(self.ev(a)[0]), DIR)

    def f_is_regular_file(self, a, n):
        c = self.at(self.ev(a)[0])
        return and_(not_(eq(c, ABSENT)), not_(eq(c, DIR)))

    def f_rename(self, a, n):
        I = self.I
        x = self.ev(a)
        self.trust('std::filesystem: exists/rename/remove/create_directory/copy by contract, each may fail')
        c = self.at(x[0])
        if not self.ok('rename'): return self.fail(None if len(x) > 2 else 'filesystem_error')
        I.assume(not_(eq(c, ABSENT)))
        I.state.ghost = dict(I.state.ghost, targets=I.state.ghost.get('targets', ()) + (x[1],))
        I.write(self.FS, jput(jput(self.fs(), x[0], ABSENT), x[1], c))
        if self.step: self.step('rename')

    def f_remove(self, a, n):
        I = self.I
        x = self.ev(a)
        if not I.branch(not_(eq(self.at(x[0]), ABSENT))): return FALSE
        if not self.ok('remove'):
            self.fail(None if len(x) > 1 else 'filesystem_error')
            return FALSE
        self.put(x[0], ABSENT, 'remove')
        return TRUE

    def f_create_directory(self, a, n):
        I = self.I
        x = self.ev(a)
        if not self.ok('create_directory'): return self.fail(None if len(x) > 1 else 'filesystem_error') or FALSE
        if I.branch(eq(self.at(x[0]), ABSENT)):
            self.put(x[0], DIR, 'create_directory')
            return TRUE
        return FALSE
    f_create_directories = f_create_directory

    def f_absolute(self, a, n): return uf('path_absolute', (self.ev(a)[0],), 'S')
    f_weakly_canonical = f_canonical = f_absolute

    def f_copy(self, a, n):
        I = self.I
        x = self.ev(a)
        if not (isinstance(x[0], T) and x[0].sort == 'S'): return super().f_copy(a, n)
        opts = x[2] if len(x) > 2 else I_(0)
        if not (isinstance(opts, T) and opts.op == 'num'): raise Unsupported('copy options')
        c = self.at(x[0])
        if int(opts.data) & ~6 == 0 and not I.branch(eq(c, DIR)): return self.copy_one(x[0], x[1], int(opts.data))
        new = fresh('copied', 'J')
        if int(opts.data) & 6 == 0:      # neither overwrite_existing nor update_existing
            self.trust('std::filesystem::copy without an overwriting option leaves existing files alone')
            p = fresh('p', 'S')
            old = self.fs()
            I.assume(forall(p, implies(not_(eq(jat(old, p), ABSENT)), eq(jat(new, p), jat(old, p)))))
            for z in getattr(self, 'watch', ()): I.assume(implies(not_(eq(jat(old, z), ABSENT)), eq(jat(new, z), jat(old, z))))
        I.write(self.FS, new)
        if self.step: self.step('copy')
        if not self.ok('copy'): self.fail()

    def copy_one(self, a, b, opts):
        I = self.I
        c = self.at(a)
        if not self.ok('copy'): return self.fail() or FALSE
        I.assume(not_(eq(c, ABSENT)))
        if I.branch(not_(eq(self.at(b), ABSENT))):
            if opts & 1: return FALSE
            if not opts & 6: return self.fail() or FALSE
        I.state.ghost = dict(I.state.ghost, targets=I.state.ghost.get('targets', ()) + (b,))
        self.put(b, fresh('partial', 'J'), 'copy')
        if not self.ok('copy'): return self.fail() or FALSE
        self.put(b, c, 'copy')
        return TRUE

    def f_copy_file(self, a, n):
        x = self.ev(a)
        opts = x[2] if len(x) > 2 else I_(0)
        if not (isinstance(opts, T) and opts.op == 'num'): raise Unsupported('copy options')
        return self.copy_one(x[0], x[1], int(opts.data))

    # ---- C files
    def f_fopen(self, a, n):
        I = self.I
        p, m = self.ev(a)
        if m.op != 'str': raise Unsupported('fopen mode')
        m = m.data.replace('b', '')
        self.trust('fopen: "wx" creates a file that does not exist or fails, "w" truncates')
        if not self.ok('fopen'):
            self.I.write(self.fault, TRUE)
            return Sym('FILE', NULLO)
        if m.startswith('w') and 'x' in m: I.assume(eq(self.at(p), ABSENT))
        elif m.startswith('r'): I.assume(not_(eq(self.at(p), ABSENT)))
        f = fresh('file', 'O')
        I.assume(not_(eq(f, NULLO)))
        if m.startswith('w'): self.put(p, EMPTY, 'fopen')
        elif m != 'r': self.put(p, fresh('appended', 'J'), 'fopen')
        return Sym('FILE', f)

    def f_fclose(self, a, n):
        v = self.ev(a)[0]
        if isinstance(v, Sym): self.I.oblige('only an open file is closed', not_(eq(v.t, NULLO)), self.I.loc(n), 'pre')
        return I_(0)

    def f_sleep_for(self, a, n): return None

    # ---- paths
    def path_vec(self, p):
        I = self.I
        self.trust('std::filesystem::path: a sequence of components; operator/, lexically_normal, absolute uninterpreted')
        k = ('pathvec', p.id)
        if k not in I.state.ghost:
            I.assume(le(I_(0), ncomp(p)))
            I.state.ghost = dict(I.state.ghost, **{}) | {k: I.alloc(Vec(ncomp(p), Fn(lambda i: comp(p, i)), 'std'))}
        return I.state.ghost[k]

    def string_method(self, base, v, name, args, n):
        I = self.I
        if name in ('parent_path', 'lexically_normal', 'extension', 'stem', 'filename'):
            return normal(v) if name == 'lexically_normal' else uf('path_' + name, (v,), 'S')
        if name in ('generic_string', 'native', 'u8string'): return v
        if name == 'is_absolute': return uf('path_is_absolute', (v,), 'B')
        if name in ('begin', 'end', 'cbegin', 'cend'):
            lv = self.path_vec(v)
            return Iter(lv, I_(0) if 'begin' in name else ncomp(v))
        if name == 'append' and 'path' in str(n.get('type', '')): raise Unsupported('append')
        return super().string_method(base, v, name, args, n)

    def as_range(self, v, lv):
        if isinstance(v, T) and v.sort == 'S':
            l = self.path_vec(v)
            return l, self.I.read(l)
        return super().as_range(v, lv)

    def f_mismatch(self, a, n):
        I = self.I
        x = self.ev(a)
        if not all(isinstance(y, Iter) for y in x): raise Unsupported('mismatch with a predicate')
        u, w = I.read(x[0].lv), I.read(x[2].lv)
        d = fresh('mismatch', 'I')
        k = fresh('k', 'I')
        n1 = sub(x[1].i, x[0].i)
        if len(x) == 4: n2 = sub(x[3].i, x[2].i)
        else:
            n2 = sub(w.n, x[2].i)
            I.oblige('the second range of mismatch is long enough', le(n1, n2), I.loc(n), 'bounds')
        self.trust('std::mismatch')
        I.assume(le(I_(0), d), le(d, n1), le(d, n2), forall(k, implies(and_(le(I_(0), k), lt(k, d)), eq(u.at(add(x[0].i, k)), w.at(add(x[2].i, k))))),
                 or_(eq(d, n1), eq(d, n2), not_(eq(u.at(add(x[0].i, d)), w.at(add(x[2].i, d))))))
        return Tup([Iter(x[0].lv, add(x[0].i, d)), Iter(x[2].lv, add(x[2].i, d))])

    def f_equal(self, a, n):
        I = self.I
        x = self.ev(a)
        if not all(isinstance(y, Iter) for y in x): raise Unsupported('equal with a predicate')
        u, w = I.read(x[0].lv), I.read(x[2].lv)
        k = fresh('k', 'I')
        n1 = sub(x[1].i, x[0].i)
        same = forall(k, implies(and_(le(I_(0), k), lt(k, n1)), eq(u.at(add(x[0].i, k)), w.at(add(x[2].i, k)))))
        if len(x) == 4: return and_(eq(n1, sub(x[3].i, x[2].i)), same)
        I.oblige('the second range of equal is long enough', le(n1, sub(w.n, x[2].i)), I.loc(n), 'bounds')
        return same

    def arith(self, op, x, y):
        if op == '+' and isinstance(x, T) and x.sort == 'S' and isinstance(y, Opaque): return fresh('string', 'S')
        return super().arith(op, x, y)

    # ---- output streams: what reaches the file is unspecified until a successful close or flush
    def is_ofstream(self, t):
        t = t.replace('const ', '').strip()
        return bool(re.match(r'(std::)?(basic_)?ofstream(<.*>)?$', t))

    def new_stream(self):
        self.trust('std::ofstream: every open, write, flush and close may fail; reported by the state bits, or by an exception if enabled')
        return Struct('ofstream', {'path': strc(''), 'open': FALSE, 'bad': FALSE, 'exc': FALSE, 'text': strc('')})

    def default_construct(self, base):
        if self.is_ofstream(base): return self.new_stream()
        if re.search(r'filesystem::(__cxx11::)?path$', base): return strc('')
        return super().default_construct(base)

    def construct(self, n):
        from .interp import tyof
        t = tyof(n).replace('const ', '').strip()
        args = [c for c in n.get('inner', []) if c and c.get('kind') != 'CXXDefaultArgExpr']
        if self.is_ofstream(t):
            lv = self.I.alloc(self.new_stream())
            if args: self.open(lv, self.I.rv(self.I.eval(args[0])), args[1:])
            return self.I.read(lv)
        if t in ('filesystem_error', 'std::filesystem::filesystem_error', 'std::error_code'): return Opaque('exception')
        if 'path' in t and not args: return strc('')
        return super().construct(n)

    def bad(self, lv):
        I = self.I
        I.write(self.fault, TRUE)
        v = I.read(lv)
        I.write(lv, v.with_('bad', TRUE))
        if I.branch(v.f['exc']): self.fail('ios_base::failure')

    def modes(self, args):
        out, st = set(), list(args)
        while st:
            x = st.pop()
            if x.get('name'): out.add(x['name'])
            r = x.get('referencedDecl')
            if r: out.add(r.get('name'))
            st.extend(c for c in x.get('inner', []) if c)
        return out

    def open(self, lv, p, modes):
        I = self.I
        m = self.modes(modes)
        if m & {'app', 'in', 'ate'}: raise Unsupported('stream mode')
        if not self.ok('open'): return self.bad(lv)
        I.write(lv, I.read(lv).with_('path', p).with_('open', TRUE).with_('text', strc('')))
        self.put(p, EMPTY, 'open')

    def write_stream(self, lv, x):
        I = self.I
        v = I.read(lv)
        if not I.branch(and_(v.f['open'], not_(v.f['bad']))): return
        good = self.ok('write')
        part = fresh('partial', 'J')
        s = x if isinstance(x, T) and x.sort == 'S' else fresh('shown', 'S')
        self.put(v.f['path'], part, 'write')
        I.write(lv, I.read(lv).with_('text', s if v.f['text'] is strc('') else uf('concat', (v.f['text'], s), 'S')))
        if not good: self.bad(lv)

    def finish_stream(self, lv, close):
        I = self.I
        v = I.read(lv)
        if not I.branch(v.f['open']):
            if close: self.bad(lv)
            return
        if close: I.write(lv, I.read(lv).with_('open', FALSE))
        if I.branch(v.f['bad']): return
        if not self.ok('close'):
            self.put(v.f['path'], fresh('partial', 'J'), 'close')
            return self.bad(lv)
        self.put(v.f['path'], text(v.f['text']), 'close')

    def method(self, base, name, args, n, btype):
        I = self.I
        bv = I.rv(base) if isinstance(base, LV) else base
        if isinstance(bv, Struct) and bv.cls == 'ofstream':
            if name == 'exceptions':
                m = self.modes(args)
                I.write(base, bv.with_('exc', boolc('badbit' in m and 'failbit' in m)))
                if m and not {'badbit', 'failbit'} <= m: raise Unsupported('exception mask')
                return None
            if name == 'open': return self.open(base, self.ev(args[:1])[0], args[1:])
            if name == 'close': return self.finish_stream(base, True)
            if name == 'flush': return self.finish_stream(base, False)
            if name == 'is_open': return bv.f['open']
            if name in ('good', 'operator bool'): return not_(bv.f['bad'])
            if name in ('fail', 'bad', 'operator!'): return bv.f['bad']
            if name in ('write', 'put'):
                self.write_stream(base, self.ev(args[:1])[0])
                return base
        if isinstance(bv, T) and bv.sort == 'J' and name == 'dump':
            if not self.ok('dump'): self.fail('type_error')
        return super().method(base, name, args, n, btype)

    def operator_call(self, n):
        from .interp import strip_casts, tyof
        I = self.I
        name = strip_casts(n['inner'][0]).get('referencedDecl', {}).get('name', '')
        at = tyof(n['inner'][1])
        if name == 'operator<<' and any(s in at for s in STREAMS):
            a0 = I.eval(n['inner'][1])
            v0 = I.rv(a0)
            if isinstance(v0, Struct) and v0.cls == 'ofstream':
                r = strip_casts(n['inner'][2]).get('referencedDecl', {}).get('name')
                x = strc('\n') if r == 'endl' else I.rv(I.eval(n['inner'][2]))
                self.write_stream(a0, x)
                return a0
            return Opaque('stream')
        if name == 'operator/':
            x = self.ev(n['inner'][1:])
            if all(isinstance(y, T) and y.sort == 'S' for y in x): return pjoin(*x)
        if name == 'operator/=':
            lv = I.eval(n['inner'][1])
            I.write(lv, pjoin(I.rv(lv), self.ev(n['inner'][2:])[0]))
            return lv
        if name == 'operator!' and 'ofstream' in at: return I.rv(I.eval(n['inner'][1])).f['bad']
        return super().operator_call(n)
