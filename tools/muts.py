"""muts.py FILE.py : FILE defines M = [(name, ids, [(file, old, new),...])]; runs in parallel"""
import sys, subprocess, os, concurrent.futures as cf, runpy
M = runpy.run_path(sys.argv[1])['M']
only = sys.argv[2:]
def go(k):
    n, ids, ed = M[k]
    a = []
    for f, o, w in ed: a += [f, o, w]
    w = '/verif/.work/mut%d.%d' % (os.getpid(), k)
    r = subprocess.run([sys.executable, '/verif/tools/mut.py', ids] + a, capture_output=True, text=True, env=dict(os.environ, VP_WORK=w))
    subprocess.run(['rm', '-rf', w])
    return n, r.stdout + r.stderr[-800:]
ks = [k for k in range(len(M)) if not only or M[k][0] in only]
with cf.ThreadPoolExecutor(6) as ex:
    for n, o in ex.map(go, ks):
        print('##', n); print(o.rstrip())
