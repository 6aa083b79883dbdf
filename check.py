#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property from /repo's current source (nothing is executed)."""
import importlib
import json
import os
import resource
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))

from sa.project import Project, AnalysisBroken, REPO  # noqa
from sa.base import Check  # noqa
from rules import generic  # noqa


def known_findings():
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                parts = dict(p.split('=', 1) for p in line[len('finding:'):].split(' | ')[0].split() if '=' in p)
                out.append((parts.get('property'), parts.get('rule'), parts.get('key'),
                            line.split(' | ', 1)[1] if ' | ' in line else ''))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    project = Project()
    if project.errors:
        print('ANALYSIS-BROKEN: %s' % project.errors)
        return 2
    chk = Check(pid, project)
    broken = None
    special = importlib.import_module('rules.' + pid.lower()) if os.path.exists(os.path.join(HERE, 'rules', pid.lower() + '.py')) else None
    mod = special or generic
    try:
        generic.base(chk, pid)
        if special is not None:
            chk.part(lambda c: special.run(c, tier))
        if not chk.obligations:
            raise AnalysisBroken('no rule instance for %s' % pid)
    except AnalysisBroken as exc:
        broken = str(exc)
    kf = known_findings()
    new, known = [], []
    for v in chk.violations:
        hit = [k for k in kf if k[0] == pid and k[1] == v.rule and k[2] == v.key]
        (known if hit else new).append(v)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or pid),
            'modules_parsed': len(project.modules),
            'functions_in_tree': len(project.functions),
            'functions_analysed': len(chk.funcs),
            'functions': chk.funcs,
            'obligations': chk.obligations,
            'discharged': chk.discharged,
            'rules': {k: {'instances': v[0], 'hold': v[1]} for k, v in sorted(chk.rules.items())},
            'samples': chk.samples,
            'notes': chk.notes,
            'checker_cmd': 'python3 check.py %s' % pid,
            'trusted_base': ['Python ast parser', 'sa/ dataflow engine and its call resolution'],
            'violating_instances': ['%s %s %s: %s' % (v.rule, v.key, v.loc, v.msg) for v in chk.violations],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'callees are resolved by name, import and class hierarchy; reflection and monkey-patching are not modelled'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, '%s.json' % pid), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
        fh.write('\n')
    for v in known:
        print('KNOWN-FINDING: property=%s %s %s at %s: %s' % (pid, v.rule, v.key, v.loc, v.msg))
    for v in new:
        print('%s: rule %s, instance %s: %s' % (v.loc, v.rule, v.key, v.msg))
    print('%s: %d functions, %d obligations, %d discharged, %d violations (%d known)' % (
        pid, len(chk.funcs), chk.obligations, chk.discharged, len(chk.violations), len(known)))
    if new:
        path = os.path.join(EVIDENCE, '%s.replay.txt' % pid)
        with open(path, 'w', encoding='utf-8') as fh:
            for v in new:
                fh.write('%s: rule %s, instance %s: %s\n' % (v.loc, v.rule, v.key, v.msg))
            fh.write('replay: python3 check.py %s\n' % pid)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        print('ANALYSIS-BROKEN: %s' % broken)
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(3)
