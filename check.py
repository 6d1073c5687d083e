#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property of /repo's current sources. Exit 0 held, 1 VIOLATION, 2 no answer."""
import importlib, os, shutil, subprocess, sys, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import core, facts
from engine.ctx import Ctx, finish, Broken
import props


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    prop = next(p for p in props.PROPS if p['id'] == pid)
    ctx = Ctx(pid, tier if tier in ('quick', 'thorough') else 'quick')
    broken = []
    try:
        mod = importlib.import_module('engine.rules.' + pid.lower())
        P = core.load(getattr(mod, 'ENTRIES', ()), getattr(mod, 'KEEP', ()), getattr(mod, 'UNKEEP', ()),
                      getattr(mod, 'PLAIN', True))
        stats = {'translation_units': len(facts.sources()), 'functions': len(P.fn), 'views': len(P.views),
                 'may_throw': len(P.maythrow), 'structs': len(P.structs), 'function_pointer_fields': len(P.fieldpts)}
        if getattr(mod, 'PLAIN', True) and len(P.fn) < 1200:
            raise Broken('only %d functions extracted' % len(P.fn))
        ctx.P = P
        for r in mod.RULES:
            try:
                if r.__doc__:
                    ctx.rule(r.__name__, ' '.join(r.__doc__.split()))
                r(ctx, P)
            except Broken as e:
                broken.append('%s: %s' % (r.__name__, e))
    except Broken as e:
        broken.append(str(e))
        stats = {}
    except Exception:
        broken.append(traceback.format_exc())
        stats = {}
    rc = finish(ctx, prop, stats)
    if tier == 'thorough' and not broken and not rc:
        # the same rules once more over the sources compiled with their assertions
        d = tempfile.mkdtemp(dir=facts.workdir())
        r = subprocess.run([sys.executable, os.path.abspath(__file__), pid, '--variant'],
                           env=dict(os.environ, VP_VARIANT='assert', VERIF_TIER='quick', VP_EVIDENCE=d),
                           capture_output=True, text=True)
        if not r.returncode:
            shutil.rmtree(d, ignore_errors=True)
        print('with assertions compiled in:')
        print(r.stdout.rstrip())
        if r.returncode == 2:
            broken.append('with assertions: ' + r.stdout[-400:])
        elif r.returncode:
            rc = 1
    for b in broken:
        print('NO-ANSWER %s: %s' % (pid, b))
    if rc == 0 and broken:
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
