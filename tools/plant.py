#!/usr/bin/env python3
"""plant.py SPEC.py : create /verif/seeded/<id> from a spec defining ID, PROPERTY, EDITS=[(file,old,new)], DEMO (C source),
NEEDS, BREAKS; confirm in a scratch copy that it builds, passes the stable tests, and that the demonstration tells
the two trees apart.  Optionally runs the property's check on the mutated copy."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository after build.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -D_GNU_SOURCE -w %(cflags)s -I src/tsm -I src/shared -I external -I external/wcwidth -o "$t/demo" "$here/demo.c" %(srcs)s || exit 2
timeout 60 "$t/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    sid = g['ID']
    d = os.path.join(VERIF, 'seeded', sid)
    w = tempfile.mkdtemp(prefix='plant-')
    repo, vp = w + '/repo', w + '/vp'
    try:
        sh('cp -a /repo %s; mkdir %s; rm -rf %s/_build' % (repo, vp, repo))
        for f in os.listdir('/opt/vp'):
            p = '/opt/vp/' + f
            if os.path.isfile(p) and os.access(p, os.R_OK):
                t = open(p, errors='replace').read().replace('/repo', repo).replace('/opt/vp', vp)
                open(vp + '/' + f, 'w').write(t)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.c', 'w').write(g['DEMO'].lstrip())
        srcs = g.get('SRCS', '_build/src/tsm/libtsm_test.a')
        open(d + '/demo.sh', 'w').write(g.get('DEMO_SH', DEMO_SH) % {'cflags': g.get('CFLAGS', ''), 'srcs': srcs})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)
        for f in os.listdir('/tmp/none') if False else []:
            pass
        r = sh('bash %s/build.sh' % vp)
        if r.returncode:
            print('clean build failed', r.stdout[-500:], r.stderr[-500:])
            return
        r = sh('bash %s/demo.sh' % d, cwd=repo)
        print('demo on clean:', r.returncode, (r.stdout + r.stderr)[-300:].strip())
        ok = r.returncode == 0
        for f, old, new in g['EDITS']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('edit matches %d times: %r' % (s.count(old), old[:60]))
                return
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=repo).stdout
        open(d + '/patch.diff', 'w').write(diff)
        r = sh('bash %s/test.sh %s/o.json' % (vp, w))
        if not os.path.exists(w + '/o.json'):
            print('no test results', r.stdout[-300:], r.stderr[-300:])
            return
        o = json.load(open(w + '/o.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('passed') or base.get('stable') or base
        miss = [t for t in stable if t not in o['passed']] if isinstance(stable, list) else list(o['failed'])
        print('tests: %d passed, missing %s' % (len(o['passed']), miss[:3]))
        ok &= not miss
        r = sh('bash %s/demo.sh' % d, cwd=repo)
        print('demo on mutant:', r.returncode, (r.stdout + r.stderr)[-300:].strip())
        ok &= r.returncode != 0
        pids = sys.argv[2].split(',') if len(sys.argv) > 2 else [g['PROPERTY']]
        for p in pids:
            if p == '-':
                continue
            r = subprocess.run(['python3', VERIF + '/checks/run.py', p], env=dict(os.environ, TSM_REPO=repo, TSM_EVID=w),
                               capture_output=True, text=True)
            print('check', p, 'rc', r.returncode, r.stdout[:300].strip(), r.stderr[-200:] if r.returncode > 1 else '')
        print('OK' if ok else 'NOT KEPT: ' + sid)
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
