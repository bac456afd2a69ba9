"""C19: the incidence structure of a network is consistent."""
from ..session import *
from ..units import model
from ..interp import ThrowEx
from .common import *
from .. import cxx

NN, NE = var('n_nodes', 'I'), var('n_edges', 'I')
node = lambda i: uf('node', (i,), 'O')
edge = lambda i: uf('edge', (i,), 'O')
ID = lambda o: uf('id', (o,), 'S')
START, END = (lambda e: uf('starting_node', (e,), 'O')), (lambda e: uf('ending_node', (e,), 'O'))
NULL = var('null', 'O')
NS, NT = (lambda o: uf('n_starting', (o,), 'I')), (lambda o: uf('n_ending', (o,), 'I'))
SE, EE = (lambda o, j: uf('starting_edge', (o, j), 'O')), (lambda o, j: uf('ending_edge', (o, j), 'O'))
js = var('edge_json', 'J')
entry = lambda k: uf('json_str', (uf('json_at', (js, strc(k)), 'J'),), 'S')
i, j, k = var('i', 'I'), var('j', 'I'), var('k', 'I')
in_ = lambda x, n: and_(le(I_(0), x), lt(x, n))


def nodes(nonnull=True): return Vec(NN, Fn(lambda i: Sym('Node', node(i), nonnull)), 'std')
def edges(nonnull=True): return Vec(NE, Fn(lambda i: Sym('Edge', edge(i), nonnull)), 'std')


def obj(v):
    """the object a pointer value refers to"""
    if isinstance(v, Sym): return v.t
    if isinstance(v, Ptr) and v.lv is None: return NULL
    raise Unsupported('pointer %r' % (v,))


def exists_in(n, f, x):
    q = fresh('q', 'I')
    return exists(q, and_(in_(q, n), eq(f(q), x)))


def run(S):
    prog = model()

    def setup(it):
        it.contracts['Idobject::get_id'] = lambda I, b, a, n: ID(obj(I.rv(b)))
        it.contracts['Edge::get_starting_node'] = lambda I, b, a, n: Sym('Node', START(obj(I.rv(b))))
        it.contracts['Edge::get_ending_node'] = lambda I, b, a, n: Sym('Node', END(obj(I.rv(b))))
        it.contracts['Node::get_starting_edges'] = lambda I, b, a, n: (lambda o: Vec(NS(o), Fn(lambda j: Sym('Edge', SE(o, j))), 'std'))(obj(I.rv(b)))
        it.contracts['Node::get_ending_edges'] = lambda I, b, a, n: (lambda o: Vec(NT(o), Fn(lambda j: Sym('Edge', EE(o, j))), 'std'))(obj(I.rv(b)))
    a, b, c = fresh('a', 'I'), fresh('b', 'I'), fresh('c', 'O')
    base = [le(I_(0), NN), le(I_(0), NE), forall(a, implies(in_(a, NN), not_(eq(node(a), NULL)))), forall(b, implies(in_(b, NE), not_(eq(edge(b), NULL)))),
            forall(c, and_(le(I_(0), NS(c)), le(I_(0), NT(c))))]

    # ---- which node an edge is attached to
    def from_json(G, direction, key):
        it = G.interp(prog, setup)
        want = entry(key)
        n = 0
        for q in G.call(it, prog.find('Edge::get_node_from_json'), None, [I_(direction), js, nodes()], base):
            if q.kind != 'ok':
                G.prove('refuses only ids that no node has', q.pc + [in_(i, NN)], not_(eq(ID(node(i)), want)))
                continue
            n += 1
            r = obj(q.value[0])
            G.prove('a node with the given id', q.pc, eq(ID(r), want))
            G.prove('one of the nodes given', q.pc, exists_in(NN, node, r))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    for d, key in ((1, 'from'), (-1, 'to')): S.group('Edge::get_node_from_json (%s)' % key, lambda G, d=d, key=key: from_json(G, d, key))

    def edge_ctor(G):
        it = G.interp(prog, setup)
        FOUND = {1: uf('found', (I_(1),), 'O'), -1: uf('found', (I_(-1),), 'O')}

        def get_node(I, bs, a, nd):
            d = I.rv(a[0])
            if not isnum(d) or int(d.data) not in FOUND: raise Unsupported('direction')
            I.oblige('the node is looked up in the given data and nodes', eq(I.rv(a[1]), js), '', 'pre')
            v = I.rv(a[2])
            I.oblige('the node is looked up among the given nodes', and_(eq(v.n, NN), eq(obj(v.at(k)), node(k))), '', 'pre')
            if not I.branch(fresh('node_exists', 'B')): raise ThrowEx('gthrow')
            return Sym('Node', FOUND[int(d.data)], True)
        it.contracts['Edge::get_node_from_json'] = get_node
        it.contracts.pop('Edge::get_starting_node'), it.contracts.pop('Edge::get_ending_node')

        def attach(which, field):
            def h(I, bs, a, nd):
                o, e = I.rv(bs), a[0]
                e = I.rv(e) if isinstance(e, LV) else e
                if not (isinstance(e, Ptr) and e.lv is not None): raise Unsupported('attached edge %r' % (e,))
                f = I.read(e.lv).f
                ok = eq(obj(f[field]), obj(o))
                l = I.state.ghost.get(which, ())
                I.state.ghost = dict(I.state.ghost, **{which: l + ((obj(o), e.lv),)})
                I.oblige('is attached where it %s' % which, ok, I.loc(nd), 'pre')
                return ok
            return h
        it.contracts['Node::attach_starting_edge'] = attach('starts', 'starting_node')
        it.contracts['Node::attach_ending_edge'] = attach('ends', 'ending_node')
        n = 0

        def go(): return it.lib.construct_class('Edge', [it.alloc(js), it.alloc(nodes())], None)
        st = it.state.clone()
        st.pc = list(st.pc) + base
        for q in it.explore(go, st):
            if q.kind != 'ok':
                g = q.state.ghost
                G.prove('a refused edge is attached nowhere', q.state.pc, boolc(not g.get('starts') and not g.get('ends')))
                continue
            n += 1
            it.state = q.state
            e = it.read(q.value)
            g = q.state.ghost
            G.prove('starts at the node with the id of "from"', q.state.pc, eq(obj(e.f['starting_node']), FOUND[1]))
            G.prove('ends at the node with the id of "to"', q.state.pc, eq(obj(e.f['ending_node']), FOUND[-1]))
            G.prove('start and end differ', q.state.pc, not_(eq(FOUND[1], FOUND[-1])))
            me = lambda l: len(l) == 1 and l[0][1].root == q.value.root and l[0][1].path == q.value.path
            G.prove('attached exactly once at its start', q.state.pc, and_(boolc(me(g.get('starts', ()))), *[eq(o, FOUND[1]) for o, _ in g.get('starts', ())]))
            G.prove('attached exactly once at its end', q.state.pc, and_(boolc(me(g.get('ends', ()))), *[eq(o, FOUND[-1]) for o, _ in g.get('ends', ())]))
            s = it.read(e.f['idptr'].lv) if isinstance(e.f['idptr'], Ptr) else e.f['idptr']
            G.prove('keeps its id', q.state.pc, eq(s, entry('id')))
            st1 = q.state
            for nm, w in (('get_starting_node', FOUND[1]), ('get_ending_node', FOUND[-1])):
                for r in G.call(it, method(prog, 'Edge', nm), q.value, [], [], base=st1):
                    G.prove(nm + ' hands it out', r.pc, eq(obj(r.value[0]), w) if r.kind == 'ok' else FALSE)
            it.contracts.pop('Idobject::get_id', None)
            for nm in ('get_id', 'get_id_copy'):
                it.state = st1
                for r in G.call(it, method(prog, 'Edge', nm), q.value, [], [], base=st1):
                    G.prove(nm + ' hands out the id', r.pc, eq(it.rv(r.value[0]), entry('id')) if r.kind == 'ok' else FALSE)
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('Edge construction', edge_ctor)

    # ---- attaching to and removing from a node
    ME, X = var('this_node', 'O'), var('other_edge', 'O')
    ns, nt = var('ns', 'I'), var('nt', 'I')
    s0, e0 = (lambda j: uf('listed_start', (j,), 'O')), (lambda j: uf('listed_end', (j,), 'O'))

    def node_with(it):
        lst = lambda n, f: Vec(n, Fn(lambda j: Sym('Edge', f(j))), 'std')
        col = it.alloc(Struct('Edgecollection', {'starting_edges': lst(ns, s0), 'ending_edges': lst(nt, e0)}))
        return Struct('Node', {'idptr': Ptr(it.alloc(var('node_id', 'S'))), 'attached_edges': Ptr(col)}), col
    npre = [le(I_(0), ns), le(I_(0), nt)]

    def lists(it, col):
        c = it.read(col).f
        return c['starting_edges'], c['ending_edges']

    def same_list(v, n, f): return and_(eq(v.n, n), implies(in_(k, n), eq(obj(v.at(k)), f(k))))

    def attach(G, name, which):
        it = G.interp(prog, setup)
        nd, col = node_with(it)
        it.symfields['attached_edges'] = Fn(lambda o: Ptr(col), 1)
        mine = eq((START if which == 'starting' else END)(X), ME)
        n = 0
        for q in G.call(it, method(prog, 'Node', name), LV(('sym', 'Node', ME)), [Sym('Edge', X, True)], npre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            n += 1
            it.state = q.state
            s, e = lists(it, col)
            (v, m, f), (w, m2, f2) = ((s, ns, s0), (e, nt, e0)) if which == 'starting' else ((e, nt, e0), (s, ns, s0))
            G.prove('the other list is unchanged', q.pc, same_list(w, m2, f2))
            G.prove('an edge that belongs here is added at the end, exactly once', q.pc + [mine], and_(q.value[0], eq(v.n, add(m, I_(1))), eq(obj(v.at(m)), X), implies(in_(k, m), eq(obj(v.at(k)), f(k)))))
            G.prove('an edge that does not belong here is refused', q.pc + [not_(mine)], and_(not_(q.value[0]), same_list(v, m, f)))
        if n < 2: raise ExtractError('only one outcome')
        G.collect(it)
    S.group('Node::attach_starting_edge', lambda G: attach(G, 'attach_starting_edge', 'starting'))
    S.group('Node::attach_ending_edge', lambda G: attach(G, 'attach_ending_edge', 'ending'))

    def remove(G):
        it = G.interp(prog, setup)
        nd, col = node_with(it)
        for q in G.call(it, method(prog, 'Node', 'remove_edge'), nd, [Sym('Edge', X, True)], npre):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            it.state = q.state
            s, e = lists(it, col)
            starts, ends = exists_in(ns, s0, X), exists_in(nt, e0, X)
            r = q.value[0]
            ins, ine = fresh('removed', 'I'), fresh('removed', 'I')
            G.prove('reports whether the edge was listed', q.pc, and_(implies(r, or_(starts, ends)), implies(not_(r), and_(not_(starts), not_(ends)))))
            G.prove('nothing changes if it was not listed', q.pc + [not_(r)], and_(same_list(s, ns, s0), same_list(e, nt, e0)))
            G.prove('exactly one entry disappears otherwise', q.pc + [r], eq(add(s.n, e.n), sub(add(ns, nt), I_(1))))
        G.collect(it)
    S.group('Node::remove_edge', remove)

    def listing(G):
        it = G.interp(prog, setup)
        for nm, n, f in (('get_starting_edges', ns, s0), ('get_ending_edges', nt, e0)):
            it.contracts.pop('Node::' + nm)
            nd, col = node_with(it)
            for q in G.call(it, method(prog, 'Node', nm), nd, [], npre):
                G.prove(nm + ' lists exactly the attached edges', q.pc, same_list(q.value[0], n, f) if q.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('lists of edges at a node', listing)

    # ---- the network
    def net_ctor(G):
        it = G.interp(prog, setup)
        it.contracts['Net::exists_node'] = lambda I, bs, a, n: exists_node(I, I.read(bs), obj(I.rv(a[0])))

        def exists_node(I, net, o):
            v = net.f['nodes']
            I.oblige('the nodes are those of the net', and_(eq(v.n, NN), implies(in_(k, NN), eq(obj(v.at(k)), node(k)))), '', 'pre')
            r = exists_in(NN, node, o)
            return Sym('Node', ite(uf('in_net', (o,), 'B'), o, NULL))
        o_ = fresh('o', 'O')
        p = fresh('p', 'I')
        # in_net(o): o is one of the nodes (the contract of exists_node, proved below)
        innet = [forall(o_, implies(uf('in_net', (o_,), 'B'), exists_in(NN, node, o_))), forall(p, implies(in_(p, NN), uf('in_net', (node(p),), 'B')))]
        st = it.state.clone()
        st.pc = list(st.pc) + base + innet
        E_ = edge(i)
        listed = lambda n, f, o: exists_in(n(o), lambda q: f(o, q), E_)
        good = and_(uf('in_net', (START(E_),), 'B'), uf('in_net', (END(E_),), 'B'), listed(NS, SE, START(E_)), listed(NT, EE, END(E_)))
        n = 0
        for q in it.explore(lambda: it.lib.construct_class('Net', [it.alloc(nodes()), it.alloc(edges())], None), st):
            if q.kind != 'ok':
                G.prove('a consistent net is never refused', q.state.pc + [forall(i, implies(in_(i, NE), good))], FALSE)
                continue
            n += 1
            it.state = q.state
            net = it.read(q.value).f
            h = q.state.pc + [in_(i, NE)]
            G.prove('every edge starts and ends at nodes of the net', h, and_(uf('in_net', (START(E_),), 'B'), uf('in_net', (END(E_),), 'B')))
            G.prove('every edge is listed at its start', h, listed(NS, SE, START(E_)))
            G.prove('every edge is listed at its end', h, listed(NT, EE, END(E_)))
            G.prove('the net has exactly the given nodes', q.state.pc, and_(eq(net['nodes'].n, NN), implies(in_(k, NN), eq(obj(net['nodes'].at(k)), node(k)))))
            G.prove('the net has exactly the given edges', q.state.pc, and_(eq(net['edges'].n, NE), implies(in_(k, NE), eq(obj(net['edges'].at(k)), edge(k)))))
        if not n: raise ExtractError('never returns')
        G.collect(it)
    S.group('Net construction', net_ctor)

    net = lambda: Struct('Net', {'nodes': nodes(), 'edges': edges()})
    key, key2 = var('id', 'S'), var('id2', 'S')

    def lookup(G, name, args, n, f, match, cls):
        it = G.interp(prog, setup)
        for q in G.call(it, method(prog, 'Net', name), net(), args, base):
            if q.kind != 'ok':
                G.prove('does not throw', q.pc, FALSE)
                continue
            r = obj(it.rv(q.value[0])) if cls else None
            if cls is None:
                G.prove('true if there is one', q.pc + [in_(i, n), match(f(i))], q.value[0])
                w = fresh('w', 'I')
                G.prove('false if there is none', q.pc + [q.value[0]], exists(w, and_(in_(w, n), match(f(w)))))
                continue
            G.prove('absence is reported only if there is none', q.pc + [eq(r, NULL), in_(i, n)], not_(match(f(i))))
            G.prove('otherwise a matching element of the net', q.pc + [not_(eq(r, NULL))], and_(match(r), exists_in(n, f, r)))
        G.collect(it)
    S.group('Net::get_node_by_id', lambda G: lookup(G, 'get_node_by_id', [key], NN, node, lambda o: eq(ID(o), key), 'Node'))
    S.group('Net::get_edge_by_id', lambda G: lookup(G, 'get_edge_by_id', [key], NE, edge, lambda o: eq(ID(o), key), 'Edge'))
    S.group('Net::exists_node', lambda G: lookup(G, 'exists_node', [Sym('Node', X)], NN, node, lambda o: eq(o, X), 'Node'))
    S.group('Net::get_edge_by_node_ids', lambda G: lookup(G, 'get_edge_by_node_ids', [key, key2], NE, edge, lambda o: and_(eq(ID(START(o)), key), eq(ID(END(o)), key2)), 'Edge'))
    S.group('Net::exists_edge_between', lambda G: lookup(G, 'exists_edge_between', [key, key2], NE, edge, lambda o: or_(and_(eq(ID(START(o)), key), eq(ID(END(o)), key2)), and_(eq(ID(START(o)), key2), eq(ID(END(o)), key))), None))

    def all_of(G):
        it = G.interp(prog, setup)
        for nm, n, f in (('get_nodes', NN, node), ('get_edges', NE, edge)):
            fds = [d for d in prog.find_method('Net', nm)]
            for fd in fds:
                for q in G.call(it, fd, net(), [], base):
                    G.prove(nm + ' lists every element in order', q.pc, and_(eq(q.value[0].n, n), implies(in_(k, n), eq(obj(q.value[0].at(k)), f(k)))) if q.kind == 'ok' else FALSE)
        for q in G.call(it, method(prog, 'Net', 'get_valid_node_ids'), net(), [], base):
            G.prove('every node id in order', q.pc, and_(eq(q.value[0].n, NN), implies(in_(k, NN), eq(q.value[0].at(k), ID(node(k))))) if q.kind == 'ok' else FALSE)
        G.collect(it)
    S.group('lists of the net', all_of)


NATIVE = ('c19', ('model',), 60, 2000)
