"""C17: output never overwrites or loses existing files."""
from ..session import *
from ..units import files
from ..interp import ThrowEx
from ..loops import Inv
from ..values import jat, jput
from ..fslib import *
from .common import *
from .. import cxx

F0 = var('fs0', 'J')
P = var('some_path', 'S')
ROOT, FILE = var('root', 'S'), var('file', 'S')
taken = lambda fs, p: not_(eq(jat(fs, p), ABSENT))
in_ = lambda x, n: and_(le(I_(0), x), lt(x, n))


def untouched(fs, p): return implies(taken(F0, p), eq(jat(fs, p), jat(F0, p)))


def run(S):
    prog = files()

    def setup(it):
        it.lib = FilesLib(it)
        it.enum_values = {'none': 0, 'skip_existing': 1, 'overwrite_existing': 2, 'update_existing': 4, 'recursive': 8}

    def generator(I, args, n): return fresh('proposed', 'S')

    # ---- inside the problem directory
    def in_root(G):
        it = G.interp(prog, setup)
        whole = normal(pjoin(ROOT, FILE))
        k = fresh('k', 'I')
        inside = and_(le(ncomp(ROOT), ncomp(whole)), forall(k, implies(in_(k, ncomp(ROOT)), eq(comp(ROOT, k), comp(whole, k)))))
        for q in G.call(it, prog.find('absolute_file_path_in_root'), None, [ROOT, FILE], [le(I_(0), ncomp(whole)), le(I_(0), ncomp(ROOT))]):
            if q.kind != 'ok': G.prove('always answers', q.pc, FALSE); continue
            r = q.value[0]
            G.prove('a path that does not start with the root is recognised', q.pc + [r], inside)
            G.prove('a path inside the root is accepted', q.pc + [inside], r)
        G.collect(it)
    S.group('absolute_file_path_in_root', in_root)

    # ---- new files and directories
    def creates(G, fn, args, made):
        it = G.interp(prog, setup)
        it.loop_contracts[fn] = [Inv(lambda I, v: [('nothing is created before success', eq(jat(I.lib.fs(), P), jat(F0, P)))], None, lambda I, lv: I.write(I.lib.FS, F0))]
        n = 0
        for q in G.call(it, prog.find(fn), None, args(it), []):
            it.state = q.state
            fs = it.lib.fs()
            G.prove('existing files and directories are untouched', q.pc, untouched(fs, P))
            if q.kind != 'ok': continue
            n += 1
            r = q.value[0]
            G.prove('the result did not exist before', q.pc, not_(taken(F0, r)))
            G.prove('the result exists now', q.pc, eq(jat(fs, r), made))
            G.prove('nothing else is created', q.pc + [not_(eq(P, r))], eq(jat(fs, P), jat(F0, P)))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('create_new_output_file', lambda G: creates(G, 'create_new_output_file', lambda it: [FILE, it.alloc(generator)], EMPTY))
    S.group('unique_output_directory', lambda G: creates(G, 'unique_output_directory', lambda it: [FILE, it.alloc(generator)], DIR))

    # ---- the prepared output file
    def output_file(G):
        it = G.interp(prog, setup)
        made = []

        def new_file(I, base, args, n):
            """the contract proved for create_new_output_file"""
            p = I.rv(args[0])
            if not I.branch(fresh('unique', 'B')): raise ThrowEx('gthrow')
            r = fresh('unique_name', 'S')
            I.assume(not_(taken(I.lib.fs(), r)))
            I.lib.put(r, EMPTY, 'create_new_output_file')
            I.state.ghost = dict(I.state.ghost, made=r)
            return r
        it.contracts['create_new_output_file'] = new_file
        n = 0
        for q in G.call(it, prog.find('prepare_output_file'), None, [FILE], []):
            it.state = q.state
            G.prove('existing files and directories are untouched', q.pc, untouched(it.lib.fs(), P))
            if q.kind != 'ok': continue
            n += 1
            G.prove('the result is the new file', q.pc, eq(q.value[0], uf('path_absolute', (q.state.ghost['made'],), 'S')))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('prepare_output_file', output_file)

    def output_directory(G):
        it = G.interp(prog, setup)
        N, g = var('n_names', 'I'), var('g', 'I')
        name = lambda i: uf('filename', (i,), 'S')
        target = lambda i: pjoin(FILE, name(i))
        it.lib.watch = (P, target(g))

        def inv(I, v):
            fs, c = I.lib.fs(), v('#filename')
            return [('existing files are untouched', untouched(fs, P)), ('files to create that existed are untouched', untouched(fs, target(g))),
                    ('every name so far is a new file', implies(in_(g, c), and_(not_(taken(F0, target(g))), taken(fs, target(g))))), ('position', and_(le(I_(0), c)))]
        it.loop_contracts['prepare_output_directory'] = [Inv(inv)]
        n = 0
        for q in G.call(it, prog.find('prepare_output_directory'), None, [FILE, ROOT, Vec(N, Fn(name), 'std')], [le(I_(0), N)]):
            it.state = q.state
            G.prove('existing files and directories are untouched', q.pc, untouched(it.lib.fs(), P))
            if q.kind != 'ok': continue
            n += 1
            G.prove('every requested file is new', q.pc + [in_(g, N)], and_(not_(taken(F0, target(g))), taken(it.lib.fs(), target(g))))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('prepare_output_directory', output_directory)

    # ---- replacing a json file
    def replace(G):
        it = G.interp(prog, setup)
        NEW = var('new_json', 'J')
        new = text(uf('json_dump', (NEW,), 'S'))
        old = jat(F0, FILE)

        def safe(I):
            fs = I.lib.fs()
            spare = [and_(eq(jat(fs, t), old), not_(taken(F0, t))) for t in I.state.ghost.get('targets', ())]
            return implies(taken(F0, FILE), or_(eq(jat(fs, FILE), old), eq(jat(fs, FILE), new), *spare))

        def step(what):
            it.oblige('after %s the complete old or new content is in a file' % what, safe(it), it.where(), 'post')
            it.oblige('after %s all other files are as before' % what, implies(not_(eq(P, FILE)), untouched(it.lib.fs(), P)), it.where(), 'post')
        it.lib.step = step

        def names(I, v):
            """finitely many files exist, so finitely many of the names made by appending are taken"""
            b, t = v('backup_path'), v('backup_path')
            cnt = lambda p: uf('taken_extensions', (p,), 'I')
            return cnt(b)

        def inv(I, v):
            b = v('backup_path')
            cnt = lambda p: uf('taken_extensions', (p,), 'I')
            return [('!', and_(le(I_(0), cnt(b)), implies(taken(F0, b), lt(cnt(uf('concat', (b, strc('_')), 'S')), cnt(b))))),
                    ('the file system is unchanged', eq(I.lib.fs(), F0))]
        it.loop_contracts['overwrite_json'] = [Inv(inv, names)]
        n = 0
        for q in G.call(it, prog.find('overwrite_json'), None, [FILE, NEW], [not_(eq(jat(F0, FILE), DIR))]):
            it.state = q.state
            fs, fault = it.lib.fs(), it.read(it.lib.fault)
            G.prove('the complete old or new content is in a file', q.pc, safe(it))
            if q.kind != 'ok':
                G.prove('throws only if the file system failed', q.pc, fault)
                continue
            n += 1
            G.prove('the file has its complete old or new content', q.pc + [taken(F0, FILE)], or_(eq(jat(fs, FILE), old), eq(jat(fs, FILE), new)))
            G.prove('without a failure it has the new content', q.pc + [not_(fault)], eq(jat(fs, FILE), new))
            G.prove('no other file is changed, created or left behind', q.pc + [not_(eq(P, FILE))], eq(jat(fs, P), jat(F0, P)))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('overwrite_json', replace)
NATIVE = ('c17', ('model',), 150, 2500)
