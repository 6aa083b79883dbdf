#!/usr/bin/env python3
"""refmany.py <file.py> [name ...]: REFS is a list of (name, [(path, qualname or None, new source or [(old, new)])]) of edits that keep the
behaviour; each is applied to a copy of /repo, the tests run (NOTEST=1: not) and every check runs; alarms are printed"""
import ast, concurrent.futures as cf, os, runpy, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refs'))
from ed import sub, redef, strip
PY = '/opt/venv/bin/python'

def one(r):
    name, edits = r
    tmp = tempfile.mkdtemp(prefix='ref_', dir='/tmp')
    tree = os.path.join(tmp, 'repo')
    try:
        os.makedirs(tree)
        for d in ('lgr', 'tools', 'tests', 'setup.py', 'setup.cfg'):
            s = os.path.join('/repo', d)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(tree, d), symlinks=True)
            elif os.path.exists(s):
                shutil.copy(s, tree)
        try:
            for path, qual, new in edits:
                full = os.path.join(tree, path)
                if qual is None:
                    sub(full, new)
                elif qual == 'STRIP':
                    strip(full)
                    sub(full, new)
                else:
                    redef(full, qual, new)
        except Exception as e:
            return name, 'EDIT FAILED %r' % (e,)
        out = ''
        if not os.environ.get('NOTEST'):
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=tree, env=dict(os.environ, PYTHONPATH=tree),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if t.returncode:
                out += 'TESTS FAIL: ' + '\n'.join(t.stdout.strip().splitlines()[-6:]) + '\n'
        c = subprocess.run(['python3', '-W', 'ignore', '/verif/dev/allchecks.py'] + os.environ.get('C', '').split(), env=dict(os.environ, VERIF_REPO=tree),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, out + c.stdout.strip()
    finally:
        shutil.rmtree(tmp)

refs = runpy.run_path(sys.argv[1])['REFS']
want = sys.argv[2:]
with cf.ThreadPoolExecutor(8) as ex:
    for n, o in ex.map(one, [r for r in refs if not want or r[0] in want]):
        print('== %s: %s' % (n, o if o != 'notes 0' else 'quiet'), flush=True)
