#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import sys, os, re, json, time, importlib, traceback, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)
VERIF = os.path.dirname(os.path.abspath(__file__))


def known(pid):
    try:
        d = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        return []
    return [f for f in d.get('findings', []) if f['property'] == pid]


def main(pid, tier, seed, out):
    t0 = time.time()
    from gv.session import Session
    from gv import native, cxx
    S = Session(pid, tier, seed)
    mod = importlib.import_module('gv.specs.' + pid.lower())
    try:
        mod.run(S)
    except Exception as e:
        g = S.group('extraction', lambda g: None)
        g.error = '%s: %s' % (type(e).__name__, str(e)[:500])
        g.trace = traceback.format_exc()
    gen_s = time.time() - t0
    S.discharge(budget=420 if tier == 'quick' else 3000)
    solve_s = sum(x.time for x in S.items)
    failed = S.failed()
    undecided = S.undecided()
    # a failed proof over over-approximated code decides nothing
    hard = [x for x in failed if not x.tainted]
    soft = [x for x in failed if x.tainted]
    kn = known(pid)
    printed = set()

    def is_known(kind, text):
        for f in kn:
            if f['kind'] == kind and re.search(f['match'], text):
                if f['id'] not in printed:
                    printed.add(f['id'])
                    print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
                return True
        return False

    hard = [x for x in hard if not is_known('obligation', x.group + ' / ' + x.name)]
    # native replay / stand-in / cross-check
    nat = getattr(mod, 'NATIVE', None)
    nfails, ninfo, nerr = [], {}, None
    if nat:
        harness, parts, nq, nt = nat
        n = nq if tier == 'quick' else nt
        if hard or soft or undecided: n = max(n, nt)
        try:
            exe = native.build(harness, parts)
            nfails, ninfo = native.execute(exe, seed, n, timeout=240 if tier == 'quick' else 1200)
        except native.BuildError as e:
            nerr = str(e)[:1500]
        nfails = [f for f in nfails if not is_known('native', f[0] + ' | ' + f[1])]
    violation = None
    rep = os.path.join(VERIF, 'replay')
    if nfails or hard:
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, '%s-%s.txt' % (pid, 'input' if nfails else 'obligation'))
        with open(path, 'w') as f:
            if nfails:
                f.write('Failing inputs on the real code (harness native/%s.cpp, seed %d):\n' % (nat[0], seed))
                for a, b in nfails[:20]: f.write('  %s | %s\n' % (a, b))
                f.write('Replay: python3-vt /verif/check.py %s %s   (builds the harness from /repo and runs it)\n\n' % (pid, tier))
            if hard:
                f.write('Obligations the verifier does not accept:\n')
                for x in hard[:40]:
                    f.write('\n* %s / %s  (%s)\n  status: %s  back end: %s\n  goal: %s\n  counterexample: %s\n' % (
                        x.group, x.name, x.where, x.status, x.backend, x.detail[:1500], str(x.model)[:1500]))
        violation = path
    by = collections.Counter(x.backend for x in S.items if x.status == 'proved')
    nobl = len(S.items)
    disch = sum(x.status == 'proved' for x in S.items)
    groups = []
    for g in S.groups:
        its = [x for x in S.items if x.group == g.name]
        groups.append({'contract': g.name, 'obligations': len(its), 'discharged': sum(x.status == 'proved' for x in its),
                       'paths_reached': g.reach, **({'undecided': g.error} if g.error else {}),
                       **({'over_approximated': sorted(set(g.tainted))[:5]} if g.tainted else {})})
    fully = not undecided and not failed
    cov = {
        'obligations': nobl, 'discharged': disch,
        'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
        'trusted_base': ['clang 18 AST of /repo sources', 'gv symbolic executor and library contracts (gv/lib.py)', 'ring normaliser gv/solve.py', 'z3 5.3.2', 'cvc5 1.1.2'] + sorted(S.trusted),
        'contracts': groups,
        'functions_executed_symbolically': sorted(S.used),
        'assumed_callee_contracts': sorted(S.contracts),
        'discharged_by_back_end': dict(by), 'solver_time_s': round(solve_s, 2), 'generation_time_s': round(gen_s, 2),
        'samples': ['%s / %s' % (x.group, x.name) for x in S.items[:3] + S.items[len(S.items) // 2:len(S.items) // 2 + 3]],
        'all_obligations_discharged': fully,
        'undecided_contracts': [g.name + ': ' + g.error for g in undecided],
        'undecided_obligations': [x.group + ' / ' + x.name for x in soft][:30],
    }
    if nat:
        cov['bounded_native_cross_check'] = {'harness': 'native/%s.cpp' % nat[0], 'label': 'bounded, not counted as proved',
                                             'evaluations': ninfo.get('cases', 0), 'failures': len(nfails), **({'build_error': nerr} if nerr else {})}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
              'doubles are treated as exact real numbers, integers as unbounded', 'library functions behave as documented (contracts in gv/lib.py)'],
          'wall_s': round(time.time() - t0, 2), 'violations': (len(nfails) + len(hard))}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d contracts (%d undecided), native cases %s, %.1fs' % (
        pid, disch, nobl, len(S.groups), len(undecided), ninfo.get('cases', '-'), time.time() - t0))
    for g in undecided: print('UNDECIDED contract %s: %s' % (g.name, g.error))
    for x in soft[:10]: print('UNDECIDED obligation %s / %s' % (x.group, x.name))
    if nerr: print('native harness does not build: ' + nerr.splitlines()[0][:200] if nerr else '')
    if os.environ.get('GV_VERBOSE'):
        for x in hard: print('FAILED', x.group, '|', x.name, x.status, x.backend, x.detail[:300], str(x.model)[:300])
        for f in nfails: print('NATIVE', f)
    if violation:
        for x in hard[:10]: print('failed obligation: %s / %s [%s]' % (x.group, x.name, x.status))
        for f in nfails[:5]: print('failing input: %s | %s' % f)
        print('VIOLATION property=%s replay=%s%s' % (pid, violation, '' if nfails else ' no-failing-input-found'))
        out.append(1)
    else:
        out.append(0)


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    out = []
    err = []

    def body():
        try:
            main(pid, tier, seed, out)
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    # an internal error of the machinery decides nothing
    os._exit(out[0] if out else 3)
