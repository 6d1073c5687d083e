#!/usr/bin/env python3
"""plant.py ID: (re)makes /verif/seeded/ID from /verif/tools/plants/ID.py, after confirming in a scratch copy that the change
compiles, passes the tests and that the demonstration tells the two trees apart.
A plant file defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source after base.h)."""
import sys, os, subprocess, shutil, json, runpy, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(pid):
    p = runpy.run_path(os.path.join(HERE, 'plants', pid + '.py'))
    d = os.path.join(VERIF, 'seeded', pid)
    os.makedirs(d, exist_ok=True)
    shutil.copy(HERE + '/demo/base.h', d)
    shutil.copy(HERE + '/demo/demo.sh', d)
    open(d + '/demo.c', 'w').write('#include "base.h"\n' + p['DEMO'])
    json.dump({'property': p['PROPERTY'], 'needs': p['NEEDS'], 'what_it_breaks': p['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
    try:
        sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        print('clean demo rc', r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else '')
        ok = r.returncode == 0
        for f, o, n in p['EDITS']:
            s = open('/repo/' + f).read()
            assert s.count(o) == 1, (f, s.count(o))
            open('/repo/' + f, 'w').write(s.replace(o, n))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print('BUILD FAILS', r.stdout[-1500:])
            ok = False
        t = sh('bash /opt/vp/test.sh /tmp/plant.json').stdout.strip().splitlines()
        print('tests', t[-1] if t else '?')
        ok = ok and t and t[-1] == '47 passed, 0 failed'
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        print('patched demo rc', r.returncode, (r.stdout + r.stderr)[-300:])
        ok = ok and r.returncode not in (0, 2)
        e = dict(os.environ, VP_EVIDENCE='/tmp/mut-evidence')
        ids = [p['PROPERTY']]
        if len(sys.argv) > 2:
            ids += sys.argv[2].split(',')
        for i in ids:
            r = sh('python3 %s/check.py %s' % (VERIF, i), env=e)
            print('check', i, 'rc', r.returncode)
            print('\n'.join(l[:260] for l in r.stdout.splitlines() if l.startswith('  ') and 'decided,' not in l)[:900], r.stdout[-400:] if r.returncode == 2 else '')
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    print('OK' if ok else 'NOT OK', pid)


main(sys.argv[1])
