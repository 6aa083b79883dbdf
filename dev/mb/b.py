import runpy
BUGS=[b for b in runpy.run_path('/tmp/mb/a.py')['BUGS'] if b[0] in ('C13','C14')]
