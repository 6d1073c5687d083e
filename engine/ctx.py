"""Obligations, floors, known findings and evidence of one check run."""
import json, os, sys, time, collections
from . import facts
from .facts import Broken


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = collections.OrderedDict()      # rule -> [n, bad]
        self.bad = collections.OrderedDict()      # key -> text
        self.sites = []
        self.functions = set()
        self.assumptions = []
        self.notes = []
        self.rules = collections.OrderedDict()

    # one decided instance of a rule
    def ob(self, rule, subject, ok, detail='', at=None, why=''):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        where = at.where() if hasattr(at, 'where') else (at or '')
        if at is not None and hasattr(at, 'fn'):
            self.functions.add(at.fn.name)
        self.sites.append({'rule': rule, 'subject': subject, 'at': where, 'holds': bool(ok)})
        if not ok:
            o[1] += 1
            key = '%s|%s|%s' % (rule, subject, detail)
            if key not in self.bad:
                self.bad[key] = '%s: %s: %s%s%s' % (rule, subject, detail, (' at ' + where) if where else '',
                                                   (' [' + why + ']') if why else '')
        return ok

    def rule(self, name, text):
        self.rules[name] = text

    def floor(self, rule, n, text=''):
        """a rule that examined fewer instances than this examined the wrong thing"""
        have = self.obl.get(rule, [0, 0])[0]
        if have < n:
            raise Broken('rule %s examined only %d instances, expected at least %d %s' % (rule, have, n, text))

    def assume(self, t):
        if t not in self.assumptions:
            self.assumptions.append(t)

    def note(self, t):
        self.notes.append(t)

    def saw(self, *fns):
        for f in fns:
            self.functions.add(f if isinstance(f, str) else f.name)


def known():
    p = os.path.join(facts.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def finish(ctx, prop, program_stats):
    kf = {(k['property'], k['key']): k for k in known()}
    viol, found = [], []
    for key, text in ctx.bad.items():
        k = kf.get((ctx.pid, key))
        if k:
            found.append((key, text, k))
        else:
            viol.append((key, text))
    for key, text, k in found:
        print('KNOWN-FINDING: property=%s %s (%s)' % (ctx.pid, k.get('what', text), key))
    nob = sum(o[0] for o in ctx.obl.values())
    print('%s: %d obligations over %d rules, %d functions analysed, %d open, %d known findings' % (
        ctx.pid, nob, len(ctx.obl), len(ctx.functions), len(viol), len(found)))
    for r, o in ctx.obl.items():
        print('  %-34s %4d decided, %d broken' % (r, o[0], o[1]))
    ev = {
        'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': prop['level_note'],
            'technique': 'static analysis: ' + prop['technique'],
            'rules': [{'rule': r, 'text': ctx.rules.get(r, ''), 'instances': o[0], 'broken': o[1]} for r, o in ctx.obl.items()],
            'obligations': nob,
            'functions_analysed': sorted(ctx.functions),
            'program': program_stats,
            'sites': ctx.sites[:400],
            'sites_total': len(ctx.sites),
            'known_findings': [k for k, _, _ in found],
            'notes': ctx.notes,
        },
        'wall_s': round(time.time() - ctx.t0, 2),
        'assumptions': ctx.assumptions,
    }
    d = os.environ.get('VP_EVIDENCE') or os.path.join(facts.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    if viol:
        ev['violations'] = len(viol)
        rp = os.path.join(d, ctx.pid + '.violations.json')
        json.dump([{'key': k, 'text': t} for k, t in viol], open(rp, 'w'), indent=1)
        for k, t in viol:
            print('  ' + t)
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
    json.dump(ev, open(os.path.join(d, ctx.pid + '.json'), 'w'), indent=1)
    return 1 if viol else 0
