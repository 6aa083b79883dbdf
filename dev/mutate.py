#!/usr/bin/env python3
"""Development aid: which single-site source mutants of the analysed functions does a check report?

usage: mutate.py C01 [function-substring] -- analyses mutated syntax trees; nothing is executed.
"""
import ast, copy, importlib, os, sys, warnings, multiprocessing as mp
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.project import Project, AnalysisBroken
from sa.base import Check

LOG = {'debug', 'info', 'warning', 'error', 'critical', 'log'}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
        and n.value.func.attr in LOG and isinstance(n.value.func.value, ast.Name) and 'log' in n.value.func.value.id


def mutants(fn):
    """yield (description, mutated function node)"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def make(change):
            f2 = copy.deepcopy(fn)
            m = list(ast.walk(f2))[i]
            r = change(m)
            return f2
        ln = getattr(n, 'lineno', 0)
        if any(is_log(x) and i >= 0 and n in ast.walk(x) for x in nodes if is_log(x)):
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def ch(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield ('%d negate %s' % (ln, ast.unparse(n.test)[:60]), make(ch))
        if isinstance(n, ast.If):
            def ch(m):
                m.test = ast.Constant(True)
            yield ('%d if-true %s' % (ln, ast.unparse(n.test)[:60]), make(ch))

            def ch(m):
                m.test = ast.Constant(False)
            yield ('%d if-false %s' % (ln, ast.unparse(n.test)[:60]), make(ch))
        if isinstance(n, ast.BoolOp):
            def ch(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield ('%d and<->or %s' % (ln, ast.unparse(n)[:60]), make(ch))
            for k in range(len(n.values)):
                def ch(m, k=k):
                    del m.values[k]
                    if len(m.values) == 1:
                        m.values.append(m.values[0])
                yield ('%d drop operand %s' % (ln, ast.unparse(n.values[k])[:60]), make(ch))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
                   ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            def ch(m):
                m.ops = [alt[type(m.ops[0])]()]
            yield ('%d cmp %s' % (ln, ast.unparse(n)[:60]), make(ch))
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if isinstance(n.value, bool):
                def ch(m):
                    m.value = not m.value
                yield ('%d flip const %r' % (ln, n.value), make(ch))
            elif isinstance(n.value, int):
                def ch(m):
                    m.value = m.value + 1
                yield ('%d const+1 %r' % (ln, n.value), make(ch))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
            def ch(m):
                m.value = m.value + 'X'
            yield ('%d str %r' % (ln, n.value), make(ch))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def ch(m):
                m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield ('%d drop not %s' % (ln, ast.unparse(n)[:60]), make(ch))
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
            if type(n.op) in alt:
                def ch(m):
                    m.op = alt[type(m.op)]()
                yield ('%d binop %s' % (ln, ast.unparse(n)[:60]), make(ch))
        if isinstance(n, ast.AugAssign):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mult: ast.Add}
            if type(n.op) in alt:
                def ch(m):
                    m.op = alt[type(m.op)]()
                yield ('%d augop %s' % (ln, ast.unparse(n)[:60]), make(ch))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                def ch(m, k=k):
                    del m.keywords[k]
                yield ('%d drop kw %s' % (ln, ast.unparse(n.keywords[k])[:40]), make(ch))
            if len(n.args) >= 2:
                def ch(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield ('%d swap args %s' % (ln, ast.unparse(n)[:60]), make(ch))
        if isinstance(n, ast.Attribute):
            alt = {'when': 'not_when', 'not_when': 'when', 'scopes': 'languages', 'references': 'tags', 'tags': 'references',
                   'any': 'all', 'issubset': 'issuperset', 'any_variant': 'all_variants', 'match': 'not_match',
                   'first_cp': 'last_cp', 'last_cp': 'first_cp', 'append': 'remove', 'add': 'discard', 'union': 'intersection'}
            if n.attr in alt:
                def ch(m):
                    m.attr = alt[m.attr]
                yield ('%d attr %s' % (ln, ast.unparse(n)[:60]), make(ch))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if is_log(s) or isinstance(s, (ast.FunctionDef, ast.Pass, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    def ch(m, fld=fld, k=k):
                        getattr(m, fld)[k] = ast.copy_location(ast.Pass(), getattr(m, fld)[k])
                    yield ('%d drop stmt %s' % (s.lineno, ast.unparse(s).split('\n')[0][:70]), make(ch))


SWAPS = {'any': 'all', 'all': 'any', 'max': 'min', 'min': 'max', 'startswith': 'endswith', 'endswith': 'startswith', 'find': 'rfind',
         'lstrip': 'rstrip', 'strip': 'lstrip', 'keys': 'values', 'values': 'keys', 'items': 'values', 'append': 'extend', 'extend': 'append', 'setdefault': 'get',
         'update': 'difference_update', 'deepcopy': 'copy', 'lower': 'upper', 'upper': 'lower', 'union': 'intersection', 'get': 'pop',
         'split': 'rsplit', 'remove': 'discard', 'index': 'count', 'isdigit': 'isalpha', 'match': 'search', 'search': 'match', 'fullmatch': 'match'}
WRAP = {'list', 'tuple', 'set', 'sorted', 'dict', 'deepcopy', 'reversed', 'frozenset', 'int', 'bool', 'str', 'len', 'OrderedDict'}
FIELDS = ('body', 'orelse', 'finalbody')


def mutants2(fn):
    """structural: aliasing, block structure, order, exits, variable misuse"""
    nodes = list(ast.walk(fn))
    logged = {id(x) for l in nodes if is_log(l) for x in ast.walk(l)}
    local = sorted({a.arg for a in fn.args.args + fn.args.kwonlyargs if a.arg not in ('self', 'cls')} |
                   {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    loops = {id(x) for l in nodes if isinstance(l, (ast.For, ast.While)) for x in ast.walk(l)}

    def make(i, change):
        f2 = copy.deepcopy(fn)
        change(list(ast.walk(f2))[i], f2)
        return f2

    def replace(f2, old, new):
        for p in ast.walk(f2):
            for k, v in ast.iter_fields(p):
                if v is old:
                    setattr(p, k, new)
                elif isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is old:
                            v[j:j + 1] = new if isinstance(new, list) else [new]
                            return
    for i, n in enumerate(nodes):
        if id(n) in logged:
            continue
        ln = getattr(n, 'lineno', 0)
        txt = ast.unparse(n)[:60].replace('\n', ' ') if isinstance(n, (ast.expr, ast.stmt)) else ''
        if isinstance(n, ast.Call):
            nm = getattr(n.func, 'id', None) or getattr(n.func, 'attr', None)
            if nm in WRAP and len(n.args) == 1:
                yield '%d unwrap %s' % (ln, txt), make(i, lambda m, f: replace(f, m, m.args[0]))
            if nm in ('copy', 'strip', 'lower', 'upper') and not n.args and isinstance(n.func, ast.Attribute):
                yield '%d unwrap %s' % (ln, txt), make(i, lambda m, f: replace(f, m, m.func.value))
            if nm in SWAPS:
                def ch(m, f, nm=nm):
                    if isinstance(m.func, ast.Name):
                        m.func.id = SWAPS[nm]
                    else:
                        m.func.attr = SWAPS[nm]
                yield '%d %s->%s %s' % (ln, nm, SWAPS[nm], txt), make(i, ch)
            if len(n.keywords) >= 2:
                def ch(m, f):
                    a, b = m.keywords[-1], m.keywords[-2]
                    a.value, b.value = b.value, a.value
                yield '%d swap kw values %s' % (ln, txt), make(i, ch)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield '%d unslice %s' % (ln, txt), make(i, lambda m, f: replace(f, m, m.value))
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            yield '%d falsy %s' % (ln, txt), make(i, lambda m, f: replace(f, m, m.left if isinstance(m.ops[0], ast.IsNot) else ast.UnaryOp(ast.Not(), m.left)))
        if isinstance(n, ast.Break):
            yield '%d break->continue' % ln, make(i, lambda m, f: replace(f, m, ast.Continue()))
        if isinstance(n, ast.Continue):
            yield '%d continue->break' % ln, make(i, lambda m, f: replace(f, m, ast.Break()))
            yield '%d continue->return' % ln, make(i, lambda m, f: replace(f, m, ast.Return()))
        if isinstance(n, ast.Return) and id(n) in loops:
            yield '%d return->break %s' % (ln, txt), make(i, lambda m, f: replace(f, m, ast.Break()))
        if isinstance(n, ast.Raise) and id(n) in loops:
            yield '%d raise->continue %s' % (ln, txt), make(i, lambda m, f: replace(f, m, ast.Continue()))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield '%d except all %s' % (ln, ast.unparse(n.type)), make(i, lambda m, f: setattr(m, 'type', ast.Name('Exception')))
            yield '%d except other %s' % (ln, ast.unparse(n.type)), make(i, lambda m, f: setattr(m, 'type', ast.Name('MemoryError')))
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.BitOr)):
            yield '%d aug->assign %s' % (ln, txt), make(i, lambda m, f: replace(f, m, ast.Assign([m.target], ast.BinOp(copy.deepcopy(m.target), m.op, m.value))))
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and ast.unparse(n.targets[0]) == ast.unparse(n.value.left):
            yield '%d assign->aug %s' % (ln, txt), make(i, lambda m, f: replace(f, m, ast.AugAssign(m.targets[0], m.value.op, m.value.right)))
        if isinstance(n, ast.If) and n.orelse:
            yield '%d drop else of %s' % (ln, ast.unparse(n.test)[:60]), make(i, lambda m, f: setattr(m, 'orelse', []))
            yield '%d else always %s' % (ln, ast.unparse(n.test)[:60]), make(
                i, lambda m, f: replace(f, m, [ast.If(m.test, m.body, [])] + m.orelse))
        if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)) and len(n.body) > 1:
            def ch(m, f):
                last = m.body.pop()
                replace(f, m, [m, last])
            yield '%d dedent last of %s' % (n.body[-1].lineno, ast.unparse(n.body[-1])[:60].replace('\n', ' ')), make(i, ch)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local:
            import random
            for other in random.sample([x for x in local if x != n.id], min(2, len(local) - 1)):
                yield '%d name %s->%s' % (ln, n.id, other), make(i, lambda m, f, other=other: setattr(m, 'id', other))
        for fld in FIELDS:
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for k in range(len(b) - 1):
                if is_log(b[k]) or is_log(b[k + 1]) or isinstance(b[k], ast.Expr) and isinstance(b[k].value, ast.Constant):
                    continue

                def ch(m, f, k=k, fld=fld):
                    l = getattr(m, fld)
                    l[k], l[k + 1] = l[k + 1], l[k]
                yield '%d swap stmts %s' % (b[k].lineno, ast.unparse(b[k]).split('\n')[0][:60]), make(i, ch)
                if isinstance(b[k], (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    def ch(m, f, k=k, fld=fld):
                        l = getattr(m, fld)
                        l[k].body.append(l.pop(k + 1))
                    yield '%d indent into %s' % (b[k + 1].lineno, ast.unparse(b[k]).split('\n')[0][:60]), make(i, ch)
            for k, s in enumerate(b):
                if not is_log(s) and not isinstance(s, (ast.FunctionDef, ast.Return, ast.Raise, ast.Pass, ast.Continue, ast.Break)) and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Assign):
                    def ch(m, f, k=k, fld=fld):
                        getattr(m, fld).insert(k, copy.deepcopy(getattr(m, fld)[k]))
                    yield '%d twice %s' % (s.lineno, ast.unparse(s).split('\n')[0][:60]), make(i, ch)


def run_one(args):
    pid, rel, src, desc = args
    try:
        p = Project(overrides={rel: src})
        chk = Check(pid, p)
        try:
            if pid.startswith('lgr.') or pid.startswith('tools.'):
                from sa.conform import conforms
                if conforms(chk, 'r', pid) is None:
                    return desc, 'B noverdict ' + (chk.notes or [''])[-1][:80]
            else:
                full_check(chk, pid)
        except AnalysisBroken as e:
            return desc, ('V ' if chk.violations else 'B ') + str(e)[:80]
        if chk.violations:
            v = chk.violations[0]
            return desc, 'V %s %s' % (v.rule, v.key)
        return desc, None
    except Exception as e:
        return desc, 'E %s: %s' % (type(e).__name__, str(e)[:100])


def full_check(chk, pid):
    from rules import generic
    generic.base(chk, pid)
    if os.path.exists(os.path.join(HERE, 'rules', pid.lower() + '.py')):
        importlib.import_module('rules.%s' % pid.lower()).run(chk, 'quick')


def main():
    limit = 0
    if '-n' in sys.argv:
        k = sys.argv.index('-n')
        limit = int(sys.argv[k + 1])
        del sys.argv[k:k + 2]
    if sys.argv[1] == '-f':
        from sa.conform import spec_library
        import random
        random.seed(int(os.environ.get('VERIF_SEED', '1')))
        flt = sys.argv[2] if len(sys.argv) > 2 else ''
        p = Project()
        jobs = []
        for q in sorted(spec_library(p)):
            if flt in q and q in p.functions:
                js = list(mutations(p, q, q))
                if limit and len(js) > limit:
                    js = random.sample(js, limit)
                jobs += js
        finish('functions', jobs)
        return
    pid, flt = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ''
    p = Project()
    chk = Check(pid, p)
    full_check(chk, pid)
    jobs = []
    for q in sorted(chk.funcs):
        if flt in q and q in p.functions:
            jobs += list(mutations(p, q, pid))
    finish(pid, jobs)


def mutations(p, q, pid):
    f = p.functions[q]
    lines = f.module.src.split('\n')
    node = f.node
    start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    end = node.end_lineno
    indent = ' ' * node.col_offset
    for desc, m in (mutants2 if os.environ.get('KIND') == '2' else mutants)(node):
        try:
            txt = ast.unparse(ast.fix_missing_locations(m))
            new = '\n'.join(lines[:start] + [indent + l for l in txt.split('\n')] + lines[end:])
            ast.parse(new)
        except Exception:
            continue
        yield (pid, f.module.rel, new, '%s:%s' % (q.split('.', 1)[1], desc))


import resource
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def finish(pid, jobs):
    with mp.Pool(8, maxtasksperchild=40) as pool:
        res = pool.map(run_one, jobs, chunksize=4)
    k = sum(1 for _, r in res if r and r[0] == 'V')
    for d, r in res:
        if r is None:
            print('SURVIVES', d)
        elif r[0] != 'V':
            print(r[0] == 'B' and 'BROKEN  ' or 'ERROR   ', d, '->', r)
    print('%s: %d mutants, %d reported, %d broken/error, %d survive' % (
        pid, len(res), k, sum(1 for _, r in res if r and r[0] != 'V'), sum(1 for _, r in res if r is None)))


if __name__ == '__main__':
    main()
