#!/usr/bin/env python3
"""Development tool: confirms planted bugs (seeded/) in scratch copies.

seed.py SPEC.py      make and confirm the seeds listed in SPEC.py (SEEDS)
seed.py ID ...       run the checks against existing seeds
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0')
    env.update(kw)
    return subprocess.run(cmd, cwd=cwd, env=env, text=True,
                          capture_output=True)


def copy(name):
    d = '/tmp/seedwork/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/seedwork', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def passing(d):
    x = '/tmp/seedwork/%s.xml' % os.path.basename(d)
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4',
        '--timeout=120', '--continue-on-collection-errors',
        '--doctest-modules', '-o', 'junit_family=xunit2', '--junitxml=' + x,
        'sudokutools'], d)
    ok = set()
    for c in ET.parse(x).iter('testcase'):
        if not list(c):
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    os.unlink(x)
    return STABLE - ok


def confirm(sid, edits, demo, meta):
    d = copy(sid)
    try:
        for f, old, new in edits:
            p = os.path.join(d, 'sudokutools', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: text found %d times: %s' % (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], d).stdout
        out = os.path.join(HERE, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(
            '#!/bin/sh\n# run in the root of the repository\n'
            'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec timeout 250 "$PY" '
            '"$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
        json.dump(meta, open(out + '/meta.json', 'w'), indent=1)
        missing = passing(d)
        if missing:
            return 'tests fail: %s' % sorted(missing)[:3]
        a = sh(['sh', out + '/demo.sh'], '/repo')
        b = sh(['sh', out + '/demo.sh'], d)
        if a.returncode or not b.returncode:
            return 'demo: clean %d %s; patched %d %s' % (
                a.returncode, a.stderr[-600:], b.returncode, b.stderr[-300:])
        return check(sid, d, meta['property'])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(sid, d, prop):
    r = subprocess.run(
        ['python3-vt', 'check.py', prop], cwd=HERE, text=True,
        capture_output=True, env=dict(os.environ, VERIF_REPO=d))
    lines = r.stdout.strip().split('\n')
    return 'check exit %d: %s' % (r.returncode, ' || '.join(
        x[:260] for x in lines[-3:]) + r.stderr[-500:])


def main():
    if sys.argv[1].endswith('.py'):
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for s in ns['SEEDS']:
            if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
                continue
            print(s['id'], s['prop'], confirm(
                s['id'], s['edits'], s['demo'],
                {'property': s['prop'], 'needs': s['needs'],
                 'what_it_breaks': s['breaks']}), flush=True)
        return
    for sid in sys.argv[1:]:
        d = copy(sid)
        out = os.path.join(HERE, 'seeded', sid)
        r = sh(['git', 'apply', out + '/patch.diff'], d)
        if r.returncode:
            print(sid, 'does not apply', r.stderr)
            continue
        prop = json.load(open(out + '/meta.json'))['property']
        print(sid, prop, check(sid, d, prop), flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
