#!/usr/bin/env python3
"""dev/caught.json: which checks report which planted bug"""
import glob, json, os, re, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(d):
    t = tempfile.mkdtemp(prefix='caught_', dir='/tmp')
    try:
        for x in ('lgr', 'tools'):
            shutil.copytree('/repo/' + x, t + '/' + x, symlinks=True)
        subprocess.run(['git', 'init', '-q', '.'], cwd=t); subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t, check=True)
        o = subprocess.run(['python3', '-W', 'ignore', HERE + '/dev/allchecks.py'], env=dict(os.environ, VERIF_REPO=t), stdout=subprocess.PIPE, text=True).stdout
        return os.path.basename(d), sorted(set(re.findall(r'ALARM (C\d\d)', o)))
    finally:
        shutil.rmtree(t)
if __name__ == '__main__':
    with cf.ThreadPoolExecutor(4) as ex:
        r = dict(ex.map(one, sorted(glob.glob(HERE + '/seeded/*'))))
    json.dump(r, open(HERE + '/dev/caught.json', 'w'), indent=0, sort_keys=True)
    for k, v in sorted(r.items()):
        print(k, v)
