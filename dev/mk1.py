"""mk1.py refs.py name: tree /tmp/mk1 with that edit applied"""
import os, runpy, shutil, sys
sys.path.insert(0, '/verif/dev/refs')
from ed import sub, redef, strip
shutil.rmtree('/tmp/mk1', ignore_errors=True)
os.makedirs('/tmp/mk1')
for d in ('lgr', 'tools', 'tests'):
    shutil.copytree('/repo/' + d, '/tmp/mk1/' + d, symlinks=True)
for n, edits in runpy.run_path(sys.argv[1])['REFS']:
    if n == sys.argv[2]:
        for path, qual, new in edits:
            if qual == 'STRIP':
                strip('/tmp/mk1/' + path)
            sub('/tmp/mk1/' + path, new) if qual in (None, 'STRIP') else redef('/tmp/mk1/' + path, qual, new)
