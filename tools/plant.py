#!/usr/bin/env python3
"""plant.py SPEC.py [ids]: SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=C++ text, needs, breaks)].
Applies each change to /repo, confirms build + stable tests + demo, undoes it and keeps it under seeded/<id>."""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles the program beside this file against the built tree and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
inc=$(find src Randutils -type d -name include -printf '-I%%p ')
g++ -std=c++17 -O0 -w -DHAVE_CSTDDEF $inc -isystem /usr/include/eigen3 -isystem /usr/include/coin -isystem /opt/vp/ipopt/include -I"$here" "$here/demo.cpp" %s \\
  -Wl,--start-group $(find _build/src -name '*.a') -Wl,--end-group -o "$t/demo" || exit 2
cd "$t" && ./demo
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include <limits>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <nlohmann/json.hpp>
using json = nlohmann::json;
using namespace std;
namespace Aux { namespace schema { // the validator library is not part of this build
void validate_json(json const &, json const &) {}
void apply_defaults(json &, json const &) {} } }
#include <unistd.h>
static int bad = 0;
static unsigned started = alarm(60); // a demonstration never hangs
static void expect(bool ok, char const *what) { if (!ok) { printf("FAILED: %s\\n", what); bad = 1; } }
static bool close_(double a, double b, double tol = 1e-6) { return fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)); }
'''


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def restore():
    sh('git -C /repo checkout -- .')


def demo(d):
    sh('chmod +x %s/demo.sh' % d)
    return sh('%s/demo.sh' % d, cwd='/repo', timeout=300)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'dirty /repo'
    for b in bugs:
        if only and b['id'] not in only: continue
        d = V + '/seeded/' + b['id']
        if not only and os.path.exists(d + '/patch.diff'): continue
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(HEAD + b['demo'])
        for f in b.get('files', []):
            open(d + '/' + f, 'w').write(open(V + '/native/' + f).read())
        open(d + '/demo.sh', 'w').write(DEMO % b.get('link', ''))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        restore()
        r = sh('bash /opt/vp/build.sh')
        assert r.returncode == 0, r.stdout[-2000:]
        r0 = demo(d)
        ok = True
        for f, old, new in b['edits']:
            t = open('/repo/' + f).read()
            if t.count(old) != 1:
                print(b['id'], 'edit matches', t.count(old), 'times:', old); ok = False; break
            open('/repo/' + f, 'w').write(t.replace(old, new))
        if not ok: restore(); continue
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        rb = sh('bash /opt/vp/build.sh')
        msg = ['clean demo %d' % r0.returncode]
        if r0.returncode: msg.append((r0.stdout + r0.stderr)[-300:])
        if rb.returncode: msg.append('BUILD FAILS ' + (rb.stdout + rb.stderr)[-1500:])
        else:
            rt = sh('bash /opt/vp/test.sh /tmp/w/plant.json')
            res = json.load(open('/tmp/w/plant.json'))
            msg.append('tests %s' % tests(base, res))
            r1 = demo(d)
            msg.append('patched demo %d %s' % (r1.returncode, r1.stdout.strip()[-300:].replace('\n', ' / ')))
            if r1.returncode in (2,): msg.append(r1.stderr[-300:])
        restore()
        print(b['id'], '|', ' | '.join(msg), flush=True)
    restore()
    sh('bash /opt/vp/build.sh')


def tests(base, res):
    st = set(base.get('stable') or base.get('passing') or base.get('passed') or [])
    ps = set(res.get('passed') or res.get('passing') or [])
    miss = st - ps
    return 'ok (%d)' % len(st) if not miss and st else 'BROKEN %s' % sorted(miss)[:5]


main()
