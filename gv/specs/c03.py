"""C03 gas balance law: documented formulas and exact derivatives."""
from fractions import Fraction as F
from ..session import *
from ..units import model
from .common import *

CLS = 'Isothermaleulerequation'
PI = R(F('3.141592653589793'))


def q(s): return R(F(s))


# documented physical constants (header of Isothermaleulerequation / user guide)
rho_0, T_0, Tgas, z_0, eta, bar = q('0.785'), q('273.15'), q('283.15'), q('1.005'), R(F('1e-5')), R(100000)
p_0, p_crit, T_crit = q('101325'), q('4645120'), q('192.033')
alpha = sub(div(q('0.257'), p_crit), div(mul(q('0.533'), T_crit), mul(p_crit, Tgas)))
c2 = div(mul(p_0, Tgas), mul(z_0, T_0, rho_0))


def area(D): return mul(PI, div(mul(D, D), R(4)))
def P(rho): return div(mul(c2, rho), sub(R(1), mul(alpha, c2, rho)))
def RHO(p): return div(p, mul(c2, add(R(1), mul(alpha, p))))
def REYN(Q, D): return mul(div(mul(D, rho_0), mul(area(D), eta)), abs_(Q))
def SJ(Re, D, k):
    a = div(log_(add(div(k, mul(q('3.7'), D)), div(q('5.74'), pow_(Re, q('0.9'))))), log_(R(10)))
    return div(q('0.25'), mul(a, a))


def run(S):
    prog = model()

    def setup(G):
        it = G.interp(prog)
        bl = it.make(CLS, 'bl')
        D, k = bl.f['diameter'], bl.f['roughness']
        return it, bl, D, k

    def params_ok(D, k): return [lt(R(0), D), lt(R(0), k)]

    st = Mat(2, 1, [var('rho', 'R'), var('q', 'R')])
    rho, Q = st.d
    pre_state = [lt(R(0), rho), lt(R(0), sub(R(1), mul(alpha, c2, rho)))]

    def simple(fname, args, pre, post, cls=CLS, nargs=None, static=False):
        """value contract: on every path the result equals post"""
        def f(G):
            it, bl, D, k = setup(G)
            fd = prog.find(cls + '::' + fname if cls else fname, nargs)
            pr = params_ok(D, k) + list(pre(D, k) if callable(pre) else pre)
            ps = G.call(it, fd, None if static else bl, args(D, k) if callable(args) else args, pr)
            for i, p in enumerate(ps):
                if p.kind != 'ok':
                    G.prove('no exception under the precondition (path %d)' % i, p.pc, FALSE)
                    continue
                r = p.value[0]
                want = post(D, k, p)
                cmp(G, 'result == specification (path %d)' % i, p.pc, r, want)
            G.collect(it)
        S.group('%s::%s' % (cls, fname), f)

    # ---- conversions
    simple('p', [rho], pre_state, lambda D, k, p: P(rho))
    simple('dp_drho', [rho], pre_state, lambda D, k, p: diff(P(rho), rho))
    pr = var('pressure', 'R')
    pre_p = [lt(R(0), pr), lt(R(0), add(R(1), mul(alpha, pr)))]
    simple('rho', [pr], pre_p, lambda D, k, p: RHO(pr))
    simple('p_pascal_from_p_bar', [pr], [], lambda D, k, p: mul(pr, bar))
    simple('p_bar_from_p_pascal', [pr], [], lambda D, k, p: div(pr, bar))
    simple('dp_bar_from_p_pascal_dp_pascal', [pr], [], lambda D, k, p: diff(div(pr, bar), pr))
    pv = Mat(2, 1, [pr, Q])
    simple('p_qvol', [st], pre_state, lambda D, k, p: Mat(2, 1, [P(rho), Q]))
    simple('dp_qvol_dstate', [st], pre_state, lambda D, k, p: Mat(2, 2, [diff(P(rho), rho), R(0), R(0), R(1)]))
    simple('state', [pv], pre_p, lambda D, k, p: Mat(2, 1, [RHO(pr), Q]))
    simple('p_qvol_from_p_qvol_bar', [pv], [], lambda D, k, p: Mat(2, 1, [mul(pr, bar), Q]))
    simple('p_qvol_bar_from_p_qvol', [pv], [], lambda D, k, p: Mat(2, 1, [div(pr, bar), Q]))
    simple('dp_qvol_bar_from_p_qvold_p_qvol', [pv], [], lambda D, k, p: Mat(2, 2, [div(R(1), bar), R(0), R(0), R(1)]))

    def lemmas(G):
        it, bl, D, k = setup(G)
        # the code's own round trips (composition of the two real functions)
        f1, f2 = prog.find(CLS + '::p'), prog.find(CLS + '::rho')
        for a, b, x, pre, nm in ((f1, f2, rho, pre_state, 'rho(p(x)) == x'), (f2, f1, pr, pre_p, 'p(rho(x)) == x')):
            base = State(pc=list(pre))
            def go():
                lv = it.alloc(bl)
                y = it.rv(it.call_def(a, lv, [it.alloc(x)]))
                return it.rv(it.call_def(b, lv, [it.alloc(y)]))
            for p in it.explore(go, base):
                G.prove(nm, p.pc, eq(p.value, x) if p.kind == 'ok' else FALSE)
        G.prove('lemma: pressure is increasing in density', pre_state, lt(R(0), diff(P(rho), rho)))
    S.group('pressure/density conversions are mutually inverse', lemmas)

    # ---- flux, source
    def FLUX(D): return Mat(2, 1, [mul(div(rho_0, area(D)), Q), add(mul(div(area(D), rho_0), P(rho)), div(mul(div(rho_0, area(D)), Q, Q), rho))])
    simple('flux', [st], pre_state, lambda D, k, p: FLUX(D))
    simple('dflux_dstate', [st], pre_state, lambda D, k, p: Mat(2, 2, [diff(FLUX(D).d[i], v) for i in (0, 1) for v in (rho, Q)]))

    Re = var('Re', 'R')
    simple('Reynolds', lambda D, k: [Q, D], [], lambda D, k, p: REYN(Q, D), static=True)
    simple('coeff_of_Reynolds', lambda D, k: [D], [], lambda D, k, p: div(mul(D, rho_0), mul(area(D), eta)), static=True)
    # the code guards its domain with a tolerance; the contract is for the documented domain
    simple('dReynolds_dq', lambda D, k: [Q, D], lambda D, k: [le(R(2000), REYN(Q, D)), lt(q('1e-13'), abs_(Q))],
           lambda D, k, p: mul(div(mul(D, rho_0), mul(area(D), eta)), ite(lt(R(0), Q), R(1), R(-1))), static=True)
    simple('Swamee_Jain', lambda D, k: [Re, D, k], [le(R(4000), Re)], lambda D, k, p: SJ(Re, D, k), static=True)
    simple('dSwamee_Jain_dRe', lambda D, k: [Re, D, k], [le(R(4000), Re)], lambda D, k, p: diff(SJ(Re, D, k), Re), static=True)

    # ---- friction factor: regimes, smooth transition, derivative
    def friction(G):
        it, bl, D, k = setup(G)
        fv_, fd_ = prog.find(CLS + '::lambda_non_laminar'), prog.find(CLS + '::dlambda_non_laminar_dRe')
        base = State(pc=params_ok(D, k) + [le(R(2000), Re)])
        def go():
            v = it.rv(it.call_def(fv_, None, [it.alloc(Re), it.alloc(D), it.alloc(k)]))
            d = it.rv(it.call_def(fd_, None, [it.alloc(Re), it.alloc(D), it.alloc(k)]))
            return v, d
        ps = it.explore(go, base)
        nturb = ntrans = 0
        for i, p in enumerate(ps):
            if p.kind != 'ok':
                G.prove('no exception for Re >= 2000 (path %d)' % i, p.pc, FALSE)
                continue
            v, d = p.value
            G.prove('derivative is exact (path %d)' % i, p.pc, eq(d, diff(v, Re)))
            c = Ctx(p.pc)
            if c.entails(le(Re, R(4000))) or not c.entails(le(R(4000), Re)):
                ntrans += 1
                # cubic in Re
                G.prove('transition is a cubic polynomial in Re', p.pc, eq(diff(diff(diff(diff(v, Re), Re), Re), Re), R(0)))
                at = lambda t, x: subst(t, {Re: R(x)})
                dv = diff(v, Re)
                sj = SJ(Re, D, k)
                h = params_ok(D, k)
                G.prove('continuous at the laminar border: lambda(2000) == 64/2000', h, eq(at(v, 2000), q('0.032')))
                G.prove('derivative continuous at the laminar border', h, eq(at(dv, 2000), div(R(-64), R(4000000))))
                G.prove('continuous at the turbulent border', h, eq(at(v, 4000), at(sj, 4000)))
                G.prove('derivative continuous at the turbulent border', h, eq(at(dv, 4000), at(diff(sj, Re), 4000)))
            if c.sat(lt(R(4000), Re)):
                nturb += 1
                G.prove('turbulent friction is the Swamee-Jain formula (path %d)' % i, p.pc + [lt(R(4000), Re)], eq(v, SJ(Re, D, k)))
        if not nturb or not ntrans: G.prove('both regimes are reachable', [], FALSE)
        G.collect(it)
    S.group(CLS + '::lambda_non_laminar and its derivative', friction)

    # inside source the friction factor is used through its contract
    def source(G):
        it, bl, D, k = setup(G)
        base = State(pc=params_ok(D, k) + pre_state)
        f1, f2 = prog.find(CLS + '::source'), prog.find(CLS + '::dsource_dstate')
        def lam(I, b, a, n):
            r, d, kk = [I.rv(x) for x in a]
            I.oblige('friction factor only used for Re >= 2000', le(R(2000), r), I.loc(n))
            return uf('lambda_nl', (r, d, kk), 'R')
        def dlam(I, b, a, n):
            r, d, kk = [I.rv(x) for x in a]
            I.oblige('friction derivative only used for Re >= 2000', le(R(2000), r), I.loc(n))
            return uf('D0_lambda_nl', (r, d, kk), 'R')
        it.contracts[CLS + '::lambda_non_laminar'] = lam
        it.contracts[CLS + '::dlambda_non_laminar_dRe'] = dlam
        def go():
            lv = it.alloc(bl)
            v = it.rv(it.call_def(f1, lv, [it.alloc(st)]))
            d = it.rv(it.call_def(f2, lv, [it.alloc(st)]))
            return v, d
        re = REYN(Q, D)
        ps = it.explore(go, base)
        seen = set()
        for i, p in enumerate(ps):
            if p.kind != 'ok':
                # flows below 1e-13 only occur in the laminar regime for pipe diameters in the physical range
                G.prove('no exception (path %d)' % i, p.pc + [le(R(F('1e-9')), D)], FALSE)
                continue
            v, d = p.value
            fr = mul(div(rho_0, mul(R(2), area(D), D)))
            lam_spec = ite(lt(re, R(2000)), mul(div(R(64), div(mul(D, rho_0), mul(area(D), eta))), Q),
                           mul(uf('lambda_nl', (re, D, k), 'R'), abs_(Q), Q))
            want = Mat(2, 1, [R(0), -div(mul(fr, lam_spec), rho)])
            cmp(G, 'friction term == specification (path %d)' % i, p.pc, v, want)
            for a in (0, 1):
                for b, x in enumerate((rho, Q)):
                    G.prove('d source[%d] / d state[%d] is exact (path %d)' % (a, b, i), p.pc, eq(d.at(a, b), ddiff(v.d[a], x)))
        # continuity of the friction term at the laminar border: 64/Re vs cubic value, see the friction factor group
        lamv = mul(div(R(64), re), abs_(Q), Q)
        G.prove('laminar term equals lambda |q| q with lambda = 64/Re', params_ok(D, k) + [not_(eq(Q, R(0)))],
                eq(lamv, mul(div(R(64), div(mul(D, rho_0), mul(area(D), eta))), Q)))
        G.collect(it)
    S.group(CLS + '::source and dsource_dstate', source)

    def ctor(G):
        it = G.interp(prog)
        js = var('topology', 'J')
        it.contracts['Measure::parse_to_si'] = si_contract
        def go():
            return it.read(it.lib.construct_class(CLS, [it.alloc(js)], None))
        for p in it.explore(go, State()):
            if p.kind != 'ok':
                G.prove('constructor does not throw', p.pc, FALSE)
                continue
            for f in ('diameter', 'roughness'):
                G.prove('constructor takes %s from the entry of that name' % f, p.pc,
                        eq(p.value.f[f], uf('si_length', (uf('json_at', (js, strc(f)), 'J'),), 'R')))
    S.group(CLS + ' constructor', ctor)


def ddiff(t, x):
    return diff(t, x)


def cmp(G, name, hyps, got, want):
    if isinstance(want, T):
        G.prove(name, hyps, eq(got, want))
        return
    if isinstance(want, Mat):
        if not isinstance(got, Mat) or (got.r, got.c) != (want.r, want.c):
            G.prove(name + ': shape', hyps, FALSE)
            return
        for i, (a, b) in enumerate(zip(got.d, want.d)):
            G.prove('%s [%d]' % (name, i), hyps, eq(a, b))
NATIVE = ('c03', ('model',), 400, 20000)
