"""A verification session for one property: contracts -> obligations -> solver -> outcome."""
import os, sys, time, json, hashlib, traceback, multiprocessing, subprocess, random
from .terms import *
from .values import *
from .interp import Interp, State, Path, Oblig, tyof, ThrowEx
from .cxx import params, ExtractError, short
from .solve import Prover, Res, Ctx
from . import cxx, solve, loops

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Item:
    __slots__ = ('name', 'group', 'hyps', 'goal', 'status', 'backend', 'detail', 'model', 'time', 'kind', 'where', 'tainted')


class Group:
    """one function (or pair of functions) under contract"""

    def __init__(self, S, name):
        self.S, self.name = S, name
        self.error = None
        self.nobl = 0
        self.reach = 0
        self.interps = []
        self.tainted = []

    def interp(self, prog, setup=None):
        it = Interp(prog)
        from .specs import common
        common.install(it)
        if setup: setup(it)
        self.interps.append(it)
        return it

    def initial(self, it):
        """the state before a call: never the end of a path of an earlier call (it.state is set to such a state to read results from it)"""
        if not it.state.explored:
            it.initial = it.state
            return it.state
        s = it.initial.clone() if getattr(it, 'initial', None) else State()
        for a, v in it.state.heap.items(): s.heap.setdefault(a, v)
        for f, v in it.state.sym.items(): s.sym.setdefault(f, v)
        return s

    def call(self, it, fd, this, args, pre=(), base=None):
        """all paths of one call under the precondition"""
        base = (base or self.initial(it)).clone()
        base.pc = list(base.pc) + [p for p in pre if p is not TRUE]

        def go():
            lv = this if isinstance(this, LV) or this is None else it.alloc(this)
            al = [a if isinstance(a, LV) else it.alloc(a) for a in args]
            it.last_args, it.last_this = al, lv
            r = it.call_def(fd, lv, al)
            return (it.rv(r), lv, al)
        t0 = it.tainted[:]
        ps = it.explore(go, base)
        if len(it.tainted) > len(t0): self.tainted += it.tainted[len(t0):]
        self.reach += len(ps)
        return ps

    def prove(self, name, hyps, goal, kind='post', where=''):
        x = Item()
        x.name, x.group, x.kind, x.where = name, self.name, kind, where
        x.hyps, x.goal = list(hyps), loops.reindex(goal)
        if os.environ.get('GV_GOAL') and os.environ['GV_GOAL'] in name: print('GOAL', x.goal, '\n HYPS', *x.hyps, sep='\n   ')
        x.status = x.backend = x.detail = x.model = None
        x.time = 0
        x.tainted = bool(self.tainted)
        self.nobl += 1
        self.S.items.append(x)

    def post(self, it, name, p, extra, goal):
        """obligation about the final state of path p; goal is evaluated in that state"""
        saved = it.state
        it.state = p.state
        n0 = len(it.tainted)
        try:
            g = goal() if callable(goal) else goal
        finally:
            it.state = saved
        if len(it.tainted) > n0: self.tainted += it.tainted[n0:]
        self.prove(name, list(p.state.pc) + list(extra), g)

    def collect(self, it):
        """obligations recorded by the interpreter itself (bounds, callee preconditions)"""
        seen = set()
        for o in it.obligs:
            key = (o.name, o.goal.id, tuple(h.id for h in o.hyps))
            if key in seen: continue
            seen.add(key)
            self.prove('%s [%s]' % (o.name, o.where), o.hyps, o.goal, o.kind, o.where)
        it.obligs = []


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _work(i):
    S = Session.current
    x = S.items[i]
    t = time.time()
    try:
        p = Prover(timeout=S.timeout, seed=S.seed)
        r = p.prove(x.hyps, x.goal, deadline=time.time() + S.timeout * 4)
        return i, r.status, r.backend, (r.detail or '')[:4000], r.model, time.time() - t
    except Exception as e:
        return i, 'unknown', '', 'internal: ' + ''.join(traceback.format_exception_only(type(e), e))[:500], None, time.time() - t


class Session:
    current = None

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.items = []
        self.groups = []
        self.t0 = time.time()
        self.timeout = 10 if tier == 'quick' else 40
        self.used = set()
        self.trusted = set()
        self.contracts = set()
        self.notes = []
        self.vacuous = []

    def group(self, name, fn):
        g = Group(self, name)
        self.groups.append(g)
        n0 = len(self.items)
        try:
            fn(g)
            for it in g.interps:
                if it.tainted: g.tainted += [t for t in it.tainted if t not in g.tainted]
            if g.nobl == 0: g.error = 'no obligation generated'
        except (Unsupported, ExtractError, solve.TooBig) as e:
            g.error = '%s: %s' % (type(e).__name__, e)
        except RecursionError as e:
            g.error = 'recursion limit'
        except Exception as e:
            g.error = 'internal %s: %s' % (type(e).__name__, e)
            g.trace = traceback.format_exc()
            if os.environ.get('GV_DEBUG'): traceback.print_exc()
        if g.error:
            g.trace = getattr(g, 'trace', None) or traceback.format_exc()
        for it in g.interps:
            self.used |= it.used
            self.trusted |= it.trusted
            self.contracts |= it.called_contracts
        for x in self.items[n0:]: x.tainted = bool(g.tainted)
        return g

    def discharge(self, budget=420):
        Session.current = self
        # identical obligations once
        idx = []
        first = {}
        dup = {}
        for i, x in enumerate(self.items):
            key = (x.goal.id, tuple(sorted(h.id for h in x.hyps)))
            if key in first: dup[i] = first[key]
            else:
                first[key] = i
                idx.append(i)
        order = list(idx)
        random.Random(0).shuffle(order)
        t_end = time.time() + budget
        self.pool_run(order, t_end)
        # second chance with a larger budget for what the solvers could not settle
        again = [i for i in order if self.items[i].status in ('unknown', None) and not self.items[i].tainted]
        if again and len(again) <= 40 and time.time() < t_end:
            self.timeout *= 3 if len(again) > 3 else 6
            self.pool_run(again, t_end)
        for i in order:
            x = self.items[i]
            if x.status is None: x.status, x.backend, x.detail, x.tainted = 'unknown', '', 'time budget of the check exhausted', True
        for i, j in dup.items():
            x, y = self.items[i], self.items[j]
            x.status, x.backend, x.detail, x.model, x.time = y.status, y.backend, y.detail, y.model, 0

        # a loop invariant that does not fit the (changed) loop decides nothing about the function
        bad = {x.group for x in self.items if x.kind == 'inv' and x.status != 'proved'}
        for x in self.items:
            if x.group in bad: x.tainted = True

    def pool_run(self, order, t_end):
        if not order: return
        n = min(8, os.cpu_count() or 4)
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(n, initializer=_limit) as pool:
            it = pool.imap_unordered(_work, order, chunksize=1)
            for _ in order:
                try:
                    i, st, be, de, mo, tm = it.next(timeout=max(1, t_end - time.time()))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    return
                x = self.items[i]
                x.status, x.backend, x.detail, x.model, x.time = st, be, de, mo, x.time + tm
                if os.environ.get('GV_DEBUG') and tm > 5: print('slow %.1f %s / %s' % (tm, x.group, x.name), file=sys.stderr)

    def failed(self): return [x for x in self.items if x.status != 'proved']

    def undecided(self): return [g for g in self.groups if g.error]
