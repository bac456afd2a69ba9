"""C15: quantities with units are converted to SI by the unit's defining factor."""
import re
from fractions import Fraction
from ..session import *
from ..units import model
from ..interp import ThrowEx
from .common import *

# unit -> (factor, offset) by definition
UNITS = {
    'length': {'m': (1, 0), 'in': ('0.0254', 0), 'ft': ('0.3048', 0), 'yd': ('0.9144', 0), 'mi': ('1609.344', 0)},
    'area': {'m^2': (1, 0), 'ac': ('4046.8564224', 0), 'acre': ('4046.8564224', 0)},
    'volume': {'m^3': (1, 0), 'L': ('0.001', 0), 'l': ('0.001', 0)},
    'pressure': {'Pa': (1, 0), 'bar': (100000, 0), 'atm': (101325, 0), 'psi': ('6894.757293168', 0)},
    'frequency': {'Hz': (1, 0), 'per_min': ('1/60', 0), 'per_minute': ('1/60', 0)},
    'force': {'N': (1, 0)},
    'power': {'W': (1, 0), 'PS': ('735.49875', 0)},
    'mass': {'g': ('0.001', 0), 't': (1000, 0), 'oz': ('0.028349523125', 0), 'lb': ('0.45359237', 0)},
    'volume_flux': {'m_cube_per_s': (1, 0), '1000m_cube_per_hour': ('1000/3600', 0)},
    'temperature': {'K': (1, 0), 'C': (1, '273.15'), 'Celsius': (1, '273.15'), 'F': ('5/9', '2298.35/9')},
}
PREFIXES = {'Y': 24, 'Z': 21, 'E': 18, 'P': 15, 'T': 12, 'G': 9, 'M': 6, 'k': 3, 'h': 2, 'da': 1, '': 0, 'd': -1, 'c': -2, 'm': -3, 'mu': -6, 'n': -9, 'p': -12, 'f': -15, 'a': -18, 'z': -21, 'y': -24}
TOL = Fraction(2, 100000)                      # the tables give rounded factors


def frac(x):
    if isinstance(x, int): return Fraction(x)
    if '/' in x:
        a, b = x.split('/')
        return Fraction(a) / Fraction(b)
    return Fraction(x)


def run(S):
    prog = model()
    U = var('unit', 'S')
    i, n = var('i', 'I'), var('units', 'I')
    KEY = lambda k: uf('unit_name', (k,), 'S')
    MUL, OFF = (lambda k: uf('multiplicator', (k,), 'R')), (lambda k: uf('offset', (k,), 'R'))
    L = lambda s: uf('strlen', (s,), 'I')
    conv = lambda k: Struct('Conversion', {'multiplicator': MUL(k), 'offset': OFF(k)})
    table = Vec(n, Fn(lambda k: Tup([KEY(k), conv(k)])), 'map')
    suffix = lambda s, t: and_(le(L(t), L(s)), eq(uf('substr', (s, sub(L(s), L(t)), L(t)), 'S'), t))

    def fn(name): return prog.funcs[name][0]

    def parse_unit(G):
        it = G.interp(prog)
        j = fresh('j', 'I')
        pre = [le(I_(0), i), lt(i, n), le(I_(0), L(U)), forall(j, implies(and_(le(I_(0), j), lt(j, n)), le(I_(0), L(KEY(j)))))]
        only = forall(j, implies(and_(le(I_(0), j), lt(j, n), suffix(U, KEY(j))), eq(j, i)))
        oks = 0
        for q in G.call(it, fn('parse_unit'), None, [U, table], pre):
            if q.kind != 'ok':
                G.prove('a unit of the table is never refused', q.pc, not_(suffix(U, KEY(i))))
                continue
            oks += 1
            r = q.value[0]
            h = q.pc + [suffix(U, KEY(i)), only]
            G.prove('the conversion of the unit the text ends with', h, and_(eq(r.d[1].f['multiplicator'], MUL(i)), eq(r.d[1].f['offset'], OFF(i))))
            G.prove('what precedes the unit is the prefix', h, eq(r.d[0], uf('substr', (U, I_(0), sub(L(U), L(KEY(i)))), 'S')))
            G.prove('an unknown unit is refused', q.pc + [forall(j, implies(and_(le(I_(0), j), lt(j, n)), not_(suffix(U, KEY(j)))))], FALSE)
        if not oks: raise ExtractError('parse_unit never returns')
        G.collect(it)
    S.group('parse_unit', parse_unit)

    def parse_prefix(G):
        it = G.interp(prog)
        it.map_probe = [i]
        P = var('prefix', 'S')
        j, j2 = fresh('j', 'I'), fresh('j', 'I')
        distinct = forall((j, j2), implies(and_(le(I_(0), j), lt(j, j2), lt(j2, n)), not_(eq(KEY(j), KEY(j2)))))
        sp = uf('str_rfind', (P, strc(' ')), 'I')
        npos = num(2 ** 64 - 1, 'I')
        spaced = not_(eq(sp, npos))
        rest = uf('substr', (P, add(sp, I_(1)), sub(L(P), add(sp, I_(1)))), 'S')
        value = uf('stod', (P,), 'R')
        good = or_(and_(not_(spaced), eq(P, KEY(i))), and_(spaced, uf('stod_ok', (P,), 'B'), eq(uf('stod_end', (P,), 'I'), sp), eq(rest, KEY(i))))
        name = ite(spaced, rest, P)
        for q in G.call(it, fn('parse_prefix'), None, [P, table], [le(I_(0), i), lt(i, n), le(I_(0), L(P)), lt(L(P), npos), distinct]):
            if q.kind != 'ok':
                G.prove('a number, one space and a known prefix are never refused', q.pc, not_(good))
                continue
            r = q.value[0]
            G.prove('the number (or one) times the conversion of the prefix', q.pc + [eq(name, KEY(i))], eq(r, add(mul(MUL(i), ite(spaced, value, R(1))), OFF(i))))
            G.prove('accepts only a number, one space and a prefix', q.pc, or_(not_(spaced), and_(uf('stod_ok', (P,), 'B'), eq(uf('stod_end', (P,), 'I'), sp))))
            G.prove('an unknown prefix is refused', q.pc + [forall(j, implies(and_(le(I_(0), j), lt(j, n)), not_(eq(name, KEY(j)))))], FALSE)
        G.collect(it)
    S.group('parse_prefix', parse_prefix)

    def parse_si(G):
        it = G.interp(prog)
        J = var('measurement', 'J')
        text, val = uf('json_str', (uf('json_at', (J, strc('unit')), 'J'),), 'S'), uf('json_real', (uf('json_at', (J, strc('value')), 'J'),), 'R')
        pre_of = lambda s: uf('text_before_unit', (s,), 'S')
        m, o = var('m', 'R'), var('o', 'R')

        def unit(I, base, a, nd):
            s, t = I.rv(a[0]), I.rv(a[1])
            I.oblige('the unit of the measurement is parsed', eq(s, text), '', 'pre')
            k = fresh('k', 'I')
            e, w = t.at(k), table.at(k)
            I.oblige('with the units of this measure', and_(eq(t.n, n), implies(and_(le(I_(0), k), lt(k, n)), and_(eq(e.d[0], w.d[0]), eq(e.d[1].f['multiplicator'], w.d[1].f['multiplicator']), eq(e.d[1].f['offset'], w.d[1].f['offset'])))), '', 'pre')
            if not I.branch(fresh('known_unit', 'B')): raise ThrowEx('runtime_error')
            return Tup([pre_of(s), Struct('Conversion', {'multiplicator': m, 'offset': o})])

        def prefix(I, base, a, nd):
            if not I.branch(fresh('known_prefix', 'B')): raise ThrowEx('runtime_error')
            return uf('prefix_value', (I.rv(a[0]),), 'R')
        it.contracts.update({'parse_unit': unit, 'parse_prefix_si': prefix})
        oks = 0
        for q in G.call(it, method(prog, 'Measure', 'parse_to_si'), Struct('Measure', {'name': var('name', 'S'), 'conversion_map': table}), [J], [le(I_(0), n)]):
            if q.kind != 'ok': continue
            oks += 1
            G.prove('factor times (value times prefix) plus offset', q.pc, eq(q.value[0], add(mul(m, val, uf('prefix_value', (pre_of(text),), 'R')), o)))
        if not oks: raise ExtractError('parse_to_si never returns')
        G.collect(it)
    S.group('Measure::parse_to_si', parse_si)

    # ---- the tables
    def entries(it, v):
        if not (isinstance(v, Vec) and v.n.op == 'num'): raise ExtractError('table is not constant')
        return {v.at(I_(k)).d[0].data: v.at(I_(k)).d[1] for k in range(int(v.n.data))}

    def glob(it, name, cls):
        d = [x for x in prog.decls.values() if x['kind'] == 'VarDecl' and x.get('name') == name and x.get('inner') and cls in x['type']['qualType']]
        if not d: raise ExtractError('table ' + name)
        return it.rv(it.global_var(d[0]['id'], d[0]))

    def tables(G):
        it = G.interp(prog)
        tab = {}
        for m in UNITS: tab[m] = entries(it, glob(it, m, 'Measure').f['conversion_map'])
        pre = entries(it, glob(it, 'si_prefixes', 'map'))
        for m, us in UNITS.items():
            for u, (f, o) in us.items():
                if u not in tab[m]:
                    G.prove('%s: unit %s is known' % (m, u), [], FALSE)
                    continue
                c = tab[m][u]
                f, o = frac(f), frac(o)
                near = lambda x, y: and_(le(R(y - abs(y) * TOL), x), le(x, R(y + abs(y) * TOL)))
                G.prove('%s: factor of %s' % (m, u), [], and_(near(c.f['multiplicator'], f), near(c.f['offset'], o)))
            # no text can be read as two units of one measure: "prefix + unit" is unique
            names = sorted(tab[m])
            for a in names:
                for b in names:
                    if a != b: G.prove('%s: no text ends with both %s and %s' % (m, a, b), [], boolc(not b.endswith(a)))
        for p, e in PREFIXES.items():
            if p not in pre:
                G.prove('prefix %r is known' % p, [], FALSE)
                continue
            c = pre[p]
            w = Fraction(10) ** e
            G.prove('value of prefix %r' % p, [], and_(le(R(w - w / 10**12), c.f['multiplicator']), le(c.f['multiplicator'], R(w + w / 10**12)), eq(c.f['offset'], R(0))))
        P = var('prefix', 'S')

        def contract(I, base, a, nd):
            e = entries(I, I.rv(a[1]))
            I.oblige('prefixes are SI prefixes', and_(eq(I.rv(a[0]), P), boolc(set(e) == set(pre)), *[eq(e[k].f[x], pre[k].f[x]) for k in e if k in pre for x in ('multiplicator', 'offset')]), '', 'pre')
            if not I.branch(fresh('known', 'B')): raise ThrowEx('runtime_error')
            return uf('prefix_value', (I.rv(a[0]),), 'R')
        it.contracts['parse_prefix'] = contract
        for q in G.call(it, fn('parse_prefix_si'), None, [P], []):
            if q.kind == 'ok': G.prove('value of the SI prefix', q.pc, eq(q.value[0], uf('prefix_value', (P,), 'R')))
        G.collect(it)
    S.group('tables', tables)


NATIVE = ('c15', ('model',), 100, 3000)
