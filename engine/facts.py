"""Turns /repo's current sources into SSA facts (compile -> link -> irx) and loads them."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
SCOPE = ('amelie/runtime', 'amelie/server', 'amelie/db')
OUT = ('amelie/db/service/', 'amelie/db/db/')
UMBRELLA = ['amelie_runtime', 'amelie_user.h', 'amelie_auth.h', 'amelie_http.h', 'amelie_client.h',
            'amelie_server.h', 'amelie_row.h', 'amelie_transaction.h', 'amelie_storage.h',
            'amelie_object.h', 'amelie_tier.h', 'amelie_heap.h', 'amelie_index.h', 'amelie_part.h',
            'amelie_catalog.h', 'amelie_wal.h']
CFLAGS = ['-w', '-DNDEBUG', '-std=gnu17', '-g', '-fno-eliminate-unused-debug-types', '-fno-discard-value-names', '-O0',
          '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-fPIC']

if os.environ.get('VP_VARIANT') == 'assert':
    CFLAGS.remove('-DNDEBUG')

# logging is assumed not to raise (its only throwing callee is the year-9999 overflow check of the clock)
NOTHROW = ('report_panic', 'report', 'task_log', 'task_logf', 'task_logv', 'logger_write')


class Broken(Exception):
    """The analysis itself cannot give an answer (neither held nor violated)."""


def workdir():
    d = os.environ.get('VP_WORK') or os.path.join(VERIF, '.work')
    os.makedirs(d, exist_ok=True)
    return d


def sources():
    r = []
    for s in SCOPE:
        for dp, dn, fn in os.walk(os.path.join(REPO, s)):
            for f in fn:
                p = os.path.relpath(os.path.join(dp, f), REPO)
                if f.endswith('.c') and not p.startswith(OUT):
                    r.append(p)
    return sorted(r)


def headers():
    r = []
    for s in SCOPE:
        for dp, dn, fn in os.walk(os.path.join(REPO, s)):
            for f in fn:
                p = os.path.relpath(os.path.join(dp, f), REPO)
                if not f.endswith('.c') and not p.startswith(OUT):
                    r.append(p)
    return sorted(r)


def incdirs():
    r = []
    for dp, dn, fn in os.walk(os.path.join(REPO, 'amelie')):
        dn.sort()
        r.append(dp)
    return r


def tool():
    """The extractor, rebuilt when its source changed."""
    h = hashlib.sha256(open(os.path.join(HERE, 'irx.cc'), 'rb').read()).hexdigest()[:16]
    d = os.path.join(workdir(), 'tool-' + h)
    t = os.path.join(d, 'irx')
    if not os.path.exists(t):
        r = subprocess.run(['bash', os.path.join(HERE, 'mk.sh'), d], capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build the extractor: ' + r.stderr[-2000:])
    return t, h


def _hash_repo(files):
    h = hashlib.sha256()
    for p in files:
        h.update(p.encode() + b'\0')
        with open(os.path.join(REPO, p), 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    h.update((' '.join(CFLAGS) + REPO).encode())
    return h.hexdigest()[:20]


def bitcode():
    """Compile every translation unit; returns (list of .bc, key)."""
    src, hdr = sources(), headers()
    if len(src) < 60:
        raise Broken('only %d translation units found in scope' % len(src))
    key = _hash_repo(src + hdr)
    d = os.path.join(workdir(), 'bc-' + key)
    if os.path.exists(os.path.join(d, 'done')):
        return json.load(open(os.path.join(d, 'done'))), key
    tmp = tempfile.mkdtemp(prefix='bc.', dir=workdir())
    inc = ['-I' + x for x in incdirs()]
    umb = os.path.join(tmp, 'all_headers.c')
    with open(umb, 'w') as f:
        for u in UMBRELLA:
            f.write('#include <%s>\n' % u)
    jobs = [(umb, os.path.join(tmp, '_all.bc'), ['-femit-all-decls'])]
    for s in src:
        jobs.append((os.path.join(REPO, s), os.path.join(tmp, s.replace('/', '__') + '.bc'), []))

    def run(j):
        return j, subprocess.run([CLANG] + CFLAGS + inc + j[2] + ['-emit-llvm', '-c', j[0], '-o', j[1]],
                                 capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(run, jobs):
            if r.returncode:
                raise Broken('%s does not compile:\n%s' % (j[0], r.stderr[-1500:]))
    if _hash_repo(src + hdr) != key:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Broken('the sources changed while they were read')
    out = [os.path.join(d, os.path.basename(j[1])) for j in jobs]
    json.dump(out, open(os.path.join(tmp, 'done'), 'w'))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    _gc()
    return out, key


def _gc(limit=12):
    ds = sorted(glob.glob(os.path.join(workdir(), 'bc-*')), key=os.path.getmtime)
    for x in ds[:-limit]:
        shutil.rmtree(x, ignore_errors=True)


def extract(entries=(), keep=(), plain=True):
    """Run irx; returns the raw JSON facts."""
    t, th = tool()
    bcs, key = bitcode()
    cfg = 'root %s/\n' % REPO
    cfg += ''.join('nothrow %s\n' % x for x in NOTHROW)
    if plain:
        cfg += 'plain\n'
    cfg += ''.join('keep %s\n' % k for k in sorted(keep)) + ''.join('entry %s\n' % e for e in entries)
    ck = hashlib.sha256((cfg + th).encode()).hexdigest()[:16]
    d = os.path.dirname(bcs[0])
    out = os.path.join(d, 'facts-%s.json' % ck)
    if not os.path.exists(out):
        fd, cf = tempfile.mkstemp(dir=d)
        os.write(fd, cfg.encode())
        os.close(fd)
        r = subprocess.run([t, cf + '.json', cf] + bcs, capture_output=True, text=True)
        if r.returncode:
            raise Broken('extractor failed: ' + r.stderr[-2000:])
        os.rename(cf + '.json', out)
        os.unlink(cf)
    return json.load(open(out))
