import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import ast, copy, os, multiprocessing as mp
import dev.mutate as M
from sa.project import Project
from sa.base import Check
p=Project()
jobs=[]
def variants(v):
    for i,n in enumerate(ast.walk(v)):
        if isinstance(n,ast.Constant) and isinstance(n.value,(str,int)) and not isinstance(n.value,bool):
            def ch(m): m.value = m.value+('x' if isinstance(m.value,str) else 1)
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool):
            def ch(m): m.value = not m.value
        elif isinstance(n,(ast.Tuple,ast.List,ast.Set)) and n.elts:
            def ch(m): m.elts.pop()
        elif isinstance(n,ast.Dict) and n.keys:
            def ch(m): m.keys.pop(); m.values.pop()
        else: continue
        v2=copy.deepcopy(v); ch(list(ast.walk(v2))[i]); yield v2
for name,m in sorted(p.modules.items()):
    nodes=[]
    for k,vs in m.assigns.items():
        for v in vs: nodes.append((k,v))
    for c in m.classes.values():
        for s in c.node.body:
            if isinstance(s,(ast.Assign,ast.AnnAssign)) and s.value is not None: nodes.append((c.node.name+'.'+ast.unparse(s).split('=')[0].strip(),s.value))
    L=m.src.split('\n')
    for k,v in nodes:
        if k=='__author__' or 'logger' in k: continue
        vs=list(variants(v))
        for v2 in vs[:6]:
            s0,e0=v.lineno-1,v.end_lineno-1
            txt='\n'.join(L[:s0]+[L[s0].encode()[:v.col_offset].decode()+ast.unparse(v2)+L[e0].encode()[v.end_col_offset:].decode()]+L[e0+1:])
            try: ast.parse(txt)
            except SyntaxError: continue
            jobs.append((m.rel,txt,name+'.'+k+' '+ast.unparse(v2)[-60:].replace('\n',' ')))
PIDS=['C%02d'%i for i in range(1,38)]
def run(j):
    rel,txt,d=j
    hit=[]
    for pid in PIDS:
        try:
            pr=Project(overrides={rel:txt}); c=Check(pid,pr); M.full_check(c,pid)
            if c.violations: hit.append(pid)
        except Exception as e: hit.append(pid+'!')
        if hit: break
    return d,hit
if __name__=='__main__':
    with mp.Pool(8) as pool:
        for d,h in pool.imap_unordered(run,jobs):
            if not h or '!' in h[0]: print('MISSED',d,h,flush=True)
    print(len(jobs))
