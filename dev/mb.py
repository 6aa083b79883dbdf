"""mini bugs: list of (prop, file, old, new) -> is prop's check alarmed?"""
import sys, os, shutil, subprocess, tempfile, runpy, concurrent.futures as cf
BUGS = runpy.run_path(sys.argv[1])['BUGS']
def one(b):
    prop, f, old, new = b
    d = tempfile.mkdtemp(prefix='mb_', dir='/tmp')
    try:
        for x in ('lgr', 'tools'):
            shutil.copytree('/repo/' + x, d + '/' + x, ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) < 1: return b, 'NO MATCH'
        s = s.replace(old, new, 1); open(p, 'w').write(s)
        try: compile(s, p, 'exec')
        except SyntaxError as e: return b, 'SYNTAX %s' % e
        o = subprocess.run(['python3', '-W', 'ignore', '/verif/dev/allchecks.py'], env=dict(os.environ, VERIF_REPO=d, L='1', W='100'), capture_output=True, text=True).stdout
        al = sorted({l.split()[1] for l in o.splitlines() if l.startswith('ALARM')})
        return b, ('ok' if prop in al else 'MISSED') + ' ' + ' '.join(al) + (' '+o[-300:] if not al else '')
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(4) as ex:
    for b, r in ex.map(one, BUGS):
        if not r.startswith('ok') or os.environ.get('V'): print(b[0], b[1], repr(b[2][:50]), '->', repr(b[3][:50]), r[:200], flush=True)
print('bugs', len(BUGS))
