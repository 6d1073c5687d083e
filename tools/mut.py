#!/usr/bin/env python3
"""Try a change on a scratch copy of the sources: mut.py ID[,ID] FILE OLD NEW [FILE OLD NEW ...]  (or -p PATCH)
prints which checks report it; with -b also compiles with -Werror."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids, rest = sys.argv[1].split(','), sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
try:
    shutil.copytree('/repo/amelie', d + '/amelie')
    if rest[0] == '-p':
        for p in rest[1:]:
            r = subprocess.run(['patch', '-p1', '-s', '-d', d, '-i', os.path.abspath(p)])
            if r.returncode:
                sys.exit('patch failed')
    else:
        for k in range(0, len(rest), 3):
            p = os.path.join(d, rest[k])
            s = open(p).read()
            n = s.count(rest[k + 1])
            if n != 1:
                sys.exit('%s: %d matches' % (rest[k], n))
            open(p, 'w').write(s.replace(rest[k + 1], rest[k + 2]))
    for i in ids:
        env = dict(os.environ, VP_REPO=d, VP_WORK=os.environ.get('VP_WORK', HERE + '/.work/mut'), VP_EVIDENCE='/tmp/mut-evidence')
        os.makedirs(env['VP_WORK'], exist_ok=True)
        for t in os.listdir(HERE + '/.work'):
            if t.startswith('tool-') and not os.path.exists(env['VP_WORK'] + '/' + t):
                os.symlink(HERE + '/.work/' + t, env['VP_WORK'] + '/' + t)
        r = subprocess.run([sys.executable, HERE + '/check.py', i], env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith(('VIOL', 'NO-ANS')) or (r.returncode == 1 and ': ' in l and l.startswith('  ') and 'decided,' not in l)]
        print('%s rc=%d' % (i, r.returncode))
        for l in lines[:8]:
            print('   ', l[:300])
        if r.returncode not in (0, 1):
            print(r.stdout[-600:], r.stderr[-1500:])
finally:
    shutil.rmtree(d)
