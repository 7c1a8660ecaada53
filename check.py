#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property statically from /repo's sources.
   check.py setup      : builds the fact extractor.
Exit 0 held, 1 VIOLATION, 2 analysis broken (no verdict)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.dont_write_bytecode = True
import build          # noqa: E402
import ir             # noqa: E402


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.rules, self.viol, self.samples = {}, [], []
        self.fns = set()
        self.tus = []

    def rule(self, name, text, minimum=1):
        """declare a rule; at least `minimum` obligations must be decided"""
        self.rules.setdefault(name, dict(rule=text, obligations=0, held=0, minimum=minimum))
        return name

    def ok(self, rule, what=None, fn=None):
        r = self.rules[rule]
        r['obligations'] += 1
        r['held'] += 1
        if what and sum(1 for s in self.samples if s['rule'] == rule) < 4:
            self.samples.append(dict(rule=rule, instance=str(what)[:300]))
        if fn is not None:
            self.fns.add(fn.qual)

    def bad(self, rule, key, loc, msg, fn=None):
        r = self.rules[rule]
        r['obligations'] += 1
        k = '%s:%s' % (rule, key)
        if not any(v['key'] == k and v['loc'] == loc for v in self.viol):
            self.viol.append(dict(rule=rule, key=k, loc=loc, msg=msg))
        if fn is not None:
            self.fns.add(fn.qual)

    def check(self, cond, rule, key, loc, msg, what=None, fn=None):
        if cond:
            self.ok(rule, what or key, fn)
        else:
            self.bad(rule, key, loc, msg, fn)
        return cond


def known_findings(prop):
    r = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop:
                    r[d['key']] = d
    return r


def run(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    R = Report(prop, tier)
    try:
        mod = importlib.import_module(prop.lower())
        prog = build.program(getattr(mod, 'TUS', 'all'), getattr(mod, 'OPTS', ()))
        R.tus = list(prog.tus)
        mod.run(prog, R)
        if not R.viol:
            for n, r in R.rules.items():
                if r['obligations'] < r['minimum']:
                    raise ir.Broken('rule %s decided %d obligations, expected at least %d' %
                                    (n, r['obligations'], r['minimum']))
    except ir.Broken as e:
        if not R.viol:
            print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
            return 2
    except Exception:
        traceback.print_exc()
        if not R.viol:
            print('ANALYSIS-BROKEN property=%s internal error' % prop)
            return 2
    known = known_findings(prop)
    fresh, listed = [], {}
    for v in R.viol:
        if v['key'] in known:
            listed[v['key']] = v
        else:
            fresh.append(v)
    for k in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]['what']))
    total = sum(r['obligations'] for r in R.rules.values())
    print('%s: %d rules, %d obligations, %d held, functions involved: %d, units: %s' % (
        prop, len(R.rules), total, sum(r['held'] for r in R.rules.values()), len(R.fns), ','.join(R.tus)))
    for n, r in R.rules.items():
        print('  [%s] %d/%d  %s' % (n, r['held'], r['obligations'], r['rule']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation='Static analysis of the canonicalised compiler IR of the current '
                            'sources; every obligation below is one construct (call site, store, table entry, '
                            'return path) the rule was decided on.',
                            units=R.tus, functions_total=len(prog.fns) if 'prog' in dir() else 0,
                            functions_involved=sorted(R.fns)[:400],
                            obligations=total, discharged=sum(r['held'] for r in R.rules.values()),
                            rules=R.rules, samples=R.samples),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
                  'clang-20 bitcode of the sources stands for the gcc build; both implement the same C++ semantics',
                  'loads of the same field are the same value between two points of a function unless the rule says otherwise'],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
        rp = os.path.join(HERE, 'out', prop + '.txt')
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('%s\n  rule %s: %s\n  %s\n  key %s\n' % (
                    v['loc'], v['rule'], R.rules[v['rule']]['rule'], v['msg'], v['key']))
            f.write('\nre-run: python3 check.py %s\n' % prop)
        for v in fresh:
            print('%s: [%s] %s' % (v['loc'], v['key'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        build.tool()
        print('ready')
        sys.exit(0)
    sys.exit(run(sys.argv[1]))
