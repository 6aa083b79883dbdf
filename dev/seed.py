#!/usr/bin/env python3
"""seed.py <seedfile.py> [id ...]: build /verif/seeded/<id>/ from a list SEEDS of dicts
   (id, property, edits=[(file, old, new)], demo=python source, needs, what_it_breaks); verify in a scratch copy:
   patch applies, stable tests pass, demo 0 without / non-zero with the patch; then run the property's check."""
import json, os, shutil, subprocess, sys, runpy, tempfile, concurrent.futures as cf
PRELUDE = r'''import io, re, sys, logging
logging.disable(logging.CRITICAL)
from lgr.parser.xml_parser import XMLParser
from lgr.core import LGR
from lgr.test_utils.unicode_database_mock import UnicodeDatabaseMock, PatternMock


class CpSet(set):
    def complement(self):
        rest = set(range(0x20, 0x180)) - self
        self.clear()
        self.update(rest)

    def __str__(self):
        return '[' + ''.join('\\x{%X}' % c for c in sorted(self)) + ']'

    def __and__(self, other):
        return CpSet(set.__and__(self, other))

    def __sub__(self, other):
        return CpSet(set.__sub__(self, other))

    def __xor__(self, other):
        return CpSet(set.__xor__(self, other))

    def __or__(self, other):
        return CpSet(set.__or__(self, other))


class Db(UnicodeDatabaseMock):
    def compile_regex(self, regex):
        return PatternMock(re.compile(re.sub(r'\\x\{([0-9A-F]+)\}', lambda m: re.escape(chr(int(m.group(1), 16))), regex)))

    def get_set(self, iterable=None, pattern=None, freeze=False):
        return CpSet(iterable or ())


UNIDB = Db()


def lgr_of(data, rules='', meta='', **kw):
    xml = ('<?xml version="1.0" encoding="utf-8"?><lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta>%s</meta>'
           '<data>%s</data><rules>%s</rules></lgr>' % (meta, data, rules))
    lgr = XMLParser(io.BytesIO(xml.encode('utf-8')), **kw).parse_document()
    lgr.unicode_database = UNIDB
    return lgr


def check(got, want, what=''):
    if got != want:
        print('%s: got %r, expected %r' % (what, got, want))
        sys.exit(1)


'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed'))
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/sh\n# exit 0: the property holds on what is tried here; 1: it does not\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 %s "$(dirname "$0")/demo.py"\n' % PY

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(s):
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    tree = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', tree, symlinks=True)
        for f, old, new in s['edits']:
            p = os.path.join(tree, f)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                return s['id'], 'EDIT %s: %d matches of %r' % (f, t.count(old), old[:60])
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        diff = run(['git', 'diff'], tree).stdout
        d = os.path.join('/verif/seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        msg = []
        a = run(['sh', os.path.join(d, 'demo.sh')], '/repo', timeout=300)
        b = run(['sh', os.path.join(d, 'demo.sh')], tree, timeout=300)
        if a.returncode != 0:
            msg.append('DEMO FAILS UNPATCHED: ' + a.stdout[-300:])
        if b.returncode == 0:
            msg.append('DEMO PASSES PATCHED')
        else:
            msg.append('demo: ' + (b.stdout.strip().splitlines() or [''])[-1][:100])
        x = os.path.join(tmp, 'junit.xml')
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules', '-x', '--maxfail=3'], tree, env=dict(os.environ, PYTHONPATH=tree))
        msg.append('tests: ' + t.stdout.strip().splitlines()[-1][:90])
        env = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=os.path.join(tmp, 'ev'))
        c = run(['python3', '-W', 'ignore', 'check.py', s['property']], '/verif', env=env)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION') or 'Traceback' in l]
        msg.append('CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode)
        return s['id'], ' | '.join(msg)
    finally:
        shutil.rmtree(tmp)

seeds = runpy.run_path(sys.argv[1])['SEEDS']
want = sys.argv[2:]
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, [s for s in seeds if not want or s['id'] in want]):
        print('%s: %s' % r, flush=True)
