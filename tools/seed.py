#!/usr/bin/env python3
"""Planted-bug helper (development only; no check uses it).
  seed.py new ID PROP FILE 'old' 'new' ...   (via a python spec file: see add())
  seed.py confirm ID        demo on clean tree, apply, build, stable tests, demo with patch, undo
  seed.py check ID          apply, run the property's check, undo"""
import json, os, subprocess, sys, time
SEED = '/verif/seeded'
REPO = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def add(id, prop, edits, demo, needs, breaks):
    """edits: [(file relative to repo, old, new)]"""
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
    finally:
        sh('git -C /repo checkout -- .')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# exit 0 when the property holds on the sample, nonzero otherwise\n'
        'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def confirm(id):
    d = os.path.join(SEED, id)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
    print(id, 'demo clean rc', r0.returncode, r0.stdout[-300:], r0.stderr[-300:])
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        assert a.returncode == 0, a.stderr
        b = sh('bash /opt/vp/build.sh', cwd=REPO)
        assert b.returncode == 0, b.stderr
        r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
        print(id, 'demo patched rc', r1.returncode, r1.stdout[-300:], r1.stderr[-200:])
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json', cwd=REPO)
        res = json.load(open('/tmp/seedtest.json'))
        ok = set(res.get('passed') or [k for k, v in res.get('tests', res).items() if v in ('passed', 'pass', True)])
        miss = base - ok
        print(id, 'stable tests missing:', sorted(miss))
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh', cwd=REPO)
    good = r0.returncode == 0 and r1.returncode != 0 and not miss
    print(id, 'CONFIRMED' if good else 'NOT CONFIRMED')
    return good


def check(id, prop=None):
    d = os.path.join(SEED, id)
    prop = prop or json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        assert a.returncode == 0, a.stderr
        t = time.time()
        r = sh('VERIF_SEED=1 python3-vt check.py %s' % prop, cwd='/verif')
        print(id, prop, 'rc', r.returncode, '%.0f s' % (time.time() - t))
        print('   ', '\n    '.join(x[:260] for x in r.stdout.strip().splitlines()[-7:]), r.stderr[-300:])
    finally:
        sh('git -C /repo checkout -- .')
    return r.returncode == 1


if __name__ == '__main__':
    for i in sys.argv[2:]:
        {'confirm': confirm, 'check': check}[sys.argv[1]](i)
