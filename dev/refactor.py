#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of every function; reports those on which a comparison or check
is no longer quiet.

usage: refactor.py [-t transform] [function-substring]        (conformance of every function)
       refactor.py --check C01 [-t transform] [substring]     (one property's check, rewriting one function at a time)
"""
import ast, copy, importlib, os, sys, warnings, itertools, multiprocessing as mp
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.project import Project, AnalysisBroken
from sa.base import Check
from sa.conform import conforms, spec_library
from sa.interp import walk_own

N = ast.Name
L, S = ast.Load(), ast.Store()
cnt = itertools.count()


def name(n, store=False):
    return N(n, S if store else L)


def assign(n, v):
    return ast.Assign([name(n, True)], v)


class Blocks(ast.NodeTransformer):
    """rewrite statement lists: subclasses define stmts(list, ctx) -> list"""
    changed = False

    def __init__(self, fn):
        self.fn = fn
        self.extra = []       # new module level functions

    def block(self, b, inloop):
        return b

    def generic_visit(self, node):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)) and node is not self.fn:
            return node
        super().generic_visit(node)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(node, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                nb = self.block(b, isinstance(node, (ast.For, ast.While)) and fld == 'body')
                if nb is not b:
                    self.changed = True
                    setattr(node, fld, nb)
        return node


def has(node, types):
    nodes = node if isinstance(node, list) else [node]
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, types):
                return True
    return False


class RenameLocals(Blocks):
    def run(self):
        a = self.fn.args
        params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
        names = {n.id for n in ast.walk(self.fn) if isinstance(n, N) and isinstance(n.ctx, ast.Store)} - params
        names |= {n.name for n in ast.walk(self.fn) if isinstance(n, ast.ExceptHandler) and n.name}
        glob = {x for n in ast.walk(self.fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        names -= glob
        for n in ast.walk(self.fn):
            if isinstance(n, N) and n.id in names:
                n.id = n.id + '_r'
                self.changed = True
            if isinstance(n, ast.ExceptHandler) and n.name in names:
                n.name += '_r'


class InvertIf(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            self.changed = True
        return n


class ContinueToIf(Blocks):
    def block(self, b, inloop):
        for i, s in enumerate(b):
            if inloop and isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and b[i + 1:]:
                return b[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), self.block(b[i + 1:], True), [])]
        return b


class IfToContinue(Blocks):
    def block(self, b, inloop):
        if inloop and isinstance(b[-1], ast.If) and not b[-1].orelse:
            s = b[-1]
            return b[:-1] + [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
        return b


class ReturnElse(Blocks):
    def block(self, b, inloop):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                return b[:i] + [ast.If(s.test, s.body, b[i + 1:])]
        return b


class DropElse(Blocks):
    def block(self, b, inloop):
        s = b[-1]
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            return b[:-1] + [ast.If(s.test, s.body, [])] + s.orelse
        return b


class HoistReturn(Blocks):
    def block(self, b, inloop):
        out = []
        ch = False
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, N)):
                out += [assign('result_', s.value), ast.Return(name('result_'))]
                ch = True
            else:
                out.append(s)
        return out if ch else b


class HoistTest(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, (N, ast.Constant)):
                t = 'cond_%d' % next(cnt)
                out += [assign(t, s.test), ast.If(name(t), s.body, s.orelse)]
                ch = True
            else:
                out.append(s)
        return out if ch else b


class HoistArgs(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            v = s.value if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) else None
            if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript)) and \
                    not has(v.func, (ast.Call,)):
                t = 'arg_%d' % next(cnt)
                out.append(assign(t, v.args[0]))
                v.args[0] = name(t)
                ch = True
            out.append(s)
        return out if ch else b


class IterTemp(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            if isinstance(s, ast.For) and not isinstance(s.iter, N):
                t = 'items_%d' % next(cnt)
                out += [assign(t, s.iter)]
                s.iter = name(t)
                ch = True
            out.append(s)
        return out if ch else b


class EnumerateLoop(Blocks):
    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, N)):
            n.target = ast.Tuple([name('idx_%d' % next(cnt), True), n.target], S)
            n.iter = ast.Call(name('enumerate'), [n.iter], [])
            self.changed = True
        return n


class ListCopyLoop(Blocks):
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(name('list'), [n.iter], [])
        self.changed = True
        return n


class IndexLoop(Blocks):
    """for x in xs  ->  for i in range(len(xs)): x = xs[i]   (plain names and attributes only)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (N,)) and isinstance(n.target, N):
            i = 'i_%d' % next(cnt)
            n.body = [ast.Assign([n.target], ast.Subscript(n.iter, name(i), L))] + n.body
            n.iter = ast.Call(name('range'), [ast.Call(name('len'), [n.iter], [])], [])
            n.target = name(i, True)
            self.changed = True
        return n


class WhileLoop(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, N) and isinstance(s.target, N) and not s.orelse and \
                    not has(s.body, (ast.Continue,)):
                i = 'i_%d' % next(cnt)
                out.append(assign(i, ast.Constant(0)))
                out.append(ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [s.iter], [])]),
                                     [ast.Assign([s.target], ast.Subscript(s.iter, name(i), L)),
                                      ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))] + s.body, []))
                ch = True
            else:
                out.append(s)
        return out if ch else b


class CompToLoop(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.SetComp)) and (isinstance(s, ast.Return) or isinstance(s.targets[0], N)):
                t = 'acc_%d' % next(cnt)
                add = ast.Expr(ast.Call(ast.Attribute(name(t), 'append' if isinstance(v, ast.ListComp) else 'add', L), [v.elt], []))
                body = [add]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                out += [assign(t, ast.List([], L) if isinstance(v, ast.ListComp) else ast.Call(name('set'), [], []))] + body
                s.value = name(t)
                out.append(s)
                ch = True
            else:
                out.append(s)
        return out if ch else b


class LoopToComp(Blocks):
    def block(self, b, inloop):
        for i in range(len(b) - 1):
            a, f = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and isinstance(a.targets[0], N) and isinstance(a.value, ast.List) and not a.value.elts \
                    and isinstance(f, ast.For) and len(f.body) == 1 and not f.orelse:
                s, ifs = f.body[0], []
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                    ifs, s = [s.test], s.body[0]
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                        s.value.func.attr == 'append' and isinstance(s.value.func.value, N) and s.value.func.value.id == a.targets[0].id:
                    return b[:i] + [assign(a.targets[0].id, ast.ListComp(s.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)]))] + self.block(b[i + 2:], inloop) if b[i + 2:] else \
                        b[:i] + [assign(a.targets[0].id, ast.ListComp(s.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)]))]
        return b


class AnyToLoop(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            tgt = None
            if isinstance(s, ast.If):
                tgt = s.test
            neg = isinstance(tgt, ast.UnaryOp) and isinstance(tgt.op, ast.Not)
            call = tgt.operand if neg else tgt
            if isinstance(call, ast.Call) and isinstance(call.func, N) and call.func.id in ('any', 'all') and call.args and \
                    isinstance(call.args[0], (ast.GeneratorExp, ast.ListComp)) and len(call.args[0].generators) == 1:
                g = call.args[0].generators[0]
                t = 'flag_%d' % next(cnt)
                isany = call.func.id == 'any'
                test = call.args[0].elt if isany else ast.UnaryOp(ast.Not(), call.args[0].elt)
                body = [ast.If(test, [assign(t, ast.Constant(isany)), ast.Break()], [])]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                out += [assign(t, ast.Constant(not isany)), ast.For(g.target, g.iter, body, [])]
                s.test = ast.UnaryOp(ast.Not(), name(t)) if neg else name(t)
                ch = True
            out.append(s)
        return out if ch else b


class SwapEq(Blocks):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            n.left, n.comparators = n.comparators[0], [n.left]
            self.changed = True
        elif len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot)):
            self.changed = True
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In() if isinstance(n.ops[0], ast.NotIn) else ast.Is()], n.comparators))
        elif len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
            self.changed = True
        return n


class DeMorgan(Blocks):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            t = n.test
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(),
                                                       [ast.UnaryOp(ast.Not(), v) for v in t.values]))
            self.changed = True
        return n


class NestAnd(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            vals = n.test.values
            inner = ast.If(ast.BoolOp(ast.And(), vals[1:]) if len(vals) > 2 else vals[1], n.body, [])
            n.test, n.body = vals[0], [inner]
            self.changed = True
        return n


class Noop(Blocks):
    def block(self, b, inloop):
        return [ast.Pass(), assign('_unused', ast.Constant(None)), ast.Expr(ast.Constant(0)), ast.If(ast.Constant(False), [ast.Pass()], [])] + b


class AugToAssign(Blocks):
    def visit_AugAssign(self, n):
        if isinstance(n.target, N):
            self.changed = True
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class Ternary(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], N):
                v = s.value
                out.append(ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)]))
                ch = True
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                out.append(ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)]))
                ch = True
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.BoolOp) and isinstance(s.value.op, ast.Or) and \
                    isinstance(s.targets[0], N) and len(s.value.values) == 2 and isinstance(s.value.values[0], N):
                v = s.value
                out.append(ast.If(v.values[0], [ast.Assign(s.targets, v.values[0])], [ast.Assign(s.targets, v.values[1])]))
                ch = True
            else:
                out.append(s)
        return out if ch else b


class ReturnBool(Blocks):
    def block(self, b, inloop):
        out, ch = [], False
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, (ast.Compare,)) or isinstance(s, ast.Return) and isinstance(s.value, ast.UnaryOp) and isinstance(s.value.op, ast.Not):
                out += [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
                ch = True
            else:
                out.append(s)
        return out if ch else b


class SplitReturnTemp(Blocks):
    """several returns to a single exit variable: if c: return a / return b -> if c: r = a / else: r = b / return r"""
    def block(self, b, inloop):
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-2], ast.If) and not b[-2].orelse and \
                len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.Return):
            mk = lambda r: assign('out_', r.value or ast.Constant(None))
            return b[:-2] + [ast.If(b[-2].test, [mk(b[-2].body[0])], [mk(b[-1])]), ast.Return(name('out_'))]
        return b


def free_names(nodes, fn):
    a = fn.args
    loc = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p}
    loc |= {n.id for n in ast.walk(fn) if isinstance(n, N) and isinstance(n.ctx, ast.Store)}
    loc |= {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name}
    bound = set()
    for nd in nodes:
        for n in ast.walk(nd):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    bound |= {x.id for x in ast.walk(g.target) if isinstance(x, N)}
            if isinstance(n, ast.Lambda):
                bound |= {x.arg for x in n.args.args}
    used = []
    for nd in nodes:
        for n in ast.walk(nd):
            if isinstance(n, N) and n.id in loc and n.id not in used and n.id not in bound:
                used.append(n.id)
    return used


class ExtractTest(Blocks):
    """if <cond>: -> if helper(...):"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, (N, ast.Constant)) or has(n.test, (ast.NamedExpr, ast.Yield)) or has_super(n.test):
            return n
        h = '_extracted_%d' % next(cnt)
        fv = free_names([n.test], self.fn)
        self.extra.append(mkfn(h, fv, [ast.Return(n.test)]))
        n.test = ast.Call(name(h), [name(x) for x in fv], [])
        self.changed = True
        return n


def has_super(n):
    return any(isinstance(x, N) and x.id == 'super' for x in ast.walk(n))


def mkfn(h, params, body):
    return ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in params], kwonlyargs=[],
                                                      kw_defaults=[], defaults=[]), body=body, decorator_list=[], type_params=[])


def stores(nodes):
    return {n.id for nd in nodes for n in ast.walk(nd) if isinstance(n, N) and isinstance(n.ctx, ast.Store)}


class ExtractBody(Blocks):
    """body of an if or a loop without control flow or outer assignments -> helper(...)"""
    def _try(self, body):
        if has(body, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Global, ast.Raise)) or \
                any(has_super(x) for x in body):
            return None
        st = stores(body)
        others = set()
        inner = {id(x) for nd in body for x in ast.walk(nd)}
        for n in ast.walk(self.fn):
            if isinstance(n, N) and id(n) not in inner:
                others.add(n.id)
        if st & others:
            return None
        if any(isinstance(n, ast.AugAssign) and isinstance(n.target, N) for nd in body for n in ast.walk(nd)):
            return None
        h = '_extracted_%d' % next(cnt)
        fv = [x for x in free_names(body, self.fn) if x not in st]
        self.extra.append(mkfn(h, fv, body))
        self.changed = True
        return [ast.Expr(ast.Call(name(h), [name(x) for x in fv], []))]

    def visit_If(self, n):
        self.generic_visit(n)
        if not (len(n.body) == 1 and isinstance(n.body[0], (ast.Pass, ast.Expr)) and False):
            r = self._try(n.body)
            if r:
                n.body = r
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        r = self._try(n.body)
        if r:
            n.body = r
        return n


class ExtractValue(Blocks):
    """x = <expr> -> x = helper(...)"""
    def visit_Assign(self, n):
        if isinstance(n.value, (N, ast.Constant)) or has(n.value, (ast.NamedExpr, ast.Yield, ast.Lambda)) or has_super(n.value):
            return n
        if isinstance(n.value, (ast.List, ast.Dict)) and not getattr(n.value, 'elts', getattr(n.value, 'keys', None)):
            return n
        h = '_extracted_%d' % next(cnt)
        fv = free_names([n.value], self.fn)
        self.extra.append(mkfn(h, fv, [ast.Return(n.value)]))
        n.value = ast.Call(name(h), [name(x) for x in fv], [])
        self.changed = True
        return n


class Delegate(Blocks):
    """whole body moved to a new function"""
    def run(self):
        fn = self.fn
        if has(fn.body, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) or any(has_super(x) for x in fn.body) or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
            return
        if any(isinstance(d, N) and d.id in ('property',) for d in fn.decorator_list):
            pass
        h = '_extracted_%d' % next(cnt)
        ps = [p.arg for p in fn.args.args]
        self.extra.append(mkfn(h, ps, fn.body))
        fn.body = [ast.Return(ast.Call(name(h), [name(x) for x in ps], []))]
        self.changed = True


class SwapIndependent(Blocks):
    """exchange adjacent assignments of pure literals / names"""
    def block(self, b, inloop):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and isinstance(s.targets[0], N) and not has(s.value, (ast.Call,)) for s in (x, y)):
                sx, sy = stores([x]), stores([y])
                ux = {n.id for n in ast.walk(x.value) if isinstance(n, N)}
                uy = {n.id for n in ast.walk(y.value) if isinstance(n, N)}
                if not (sx & uy or sy & ux or sx & sy):
                    return b[:i] + [y, x] + b[i + 2:]
        return b


class FString(Blocks):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
                isinstance(n.func.value.value, str) and not n.keywords and n.func.value.value.count('{}') == len(n.args) and \
                n.func.value.value.replace('{}', '').find('{') < 0:
            bits = n.func.value.value.split('{}')
            vals = []
            for i, t in enumerate(bits):
                if t:
                    vals.append(ast.Constant(t))
                if i < len(n.args):
                    vals.append(ast.FormattedValue(n.args[i], -1, None))
            self.changed = True
            return ast.JoinedStr(vals)
        return n


class AliasSelf(Blocks):
    """self.attr read several times -> local alias at the first use block"""
    def run(self):
        fn = self.fn
        if not fn.args.args or fn.args.args[0].arg != 'self':
            return
        stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
        reads = [n for n in walk_own(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, N) and n.value.id == 'self' and isinstance(n.ctx, ast.Load)]
        called = {id(c.func) for c in ast.walk(fn) if isinstance(c, ast.Call)}
        reads = [r for r in reads if r.attr not in stored and id(r) not in called]
        if not reads:
            return
        a = reads[0].attr

        class R(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                if isinstance(n.value, N) and n.value.id == 'self' and n.attr == a and isinstance(n.ctx, ast.Load) and id(n) not in called:
                    return name('alias_')
                return n
        fn.body = [assign('alias_', ast.Attribute(name('self'), a, L))] + [R().visit(s) for s in fn.body]
        self.changed = True


class YieldToList(Blocks):
    """return [..loop..] helper generators: for x in it: acc.append(e) kept; here: yield e -> for y in (e,): yield y"""
    def block(self, b, inloop):
        return b


class MoveLoopFilter(Blocks):
    """for x in xs: if c: body -> for x in [x for x in xs if c]: body (no interference assumed when body is one statement)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and isinstance(n.target, N) and \
                not has(n.body, (ast.Break, ast.Return, ast.Raise)) and not has(n.body[0].test, (ast.Call,)) and \
                not (stores(n.body[0].body) & {x.id for x in ast.walk(n.body[0].test) if isinstance(x, N)}):
            i = n.body[0]
            n.iter = ast.ListComp(name(n.target.id), [ast.comprehension(name(n.target.id, True), n.iter, [i.test], 0)])
            n.body = i.body
            self.changed = True
        return n


class CollectThenLoop(Blocks):
    """for x in xs: if c: body -> sel = []; for x in xs: if c: sel.append(x); for x in sel: body"""
    def block(self, b, inloop):
        out, ch = [], False
        for n in b:
            if isinstance(n, ast.For) and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and isinstance(n.target, N) and \
                    not has(n.body, (ast.Break, ast.Return, ast.Raise, ast.Continue)) and not has(n.body[0].test, (ast.Call,)) and \
                    not (stores(n.body[0].body) & {x.id for x in ast.walk(n.body[0].test) if isinstance(x, N)}):
                t = 'sel_%d' % next(cnt)
                i = n.body[0]
                out += [assign(t, ast.List([], L)),
                        ast.For(name(n.target.id, True), n.iter, [ast.If(i.test, [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', L), [name(n.target.id)], []))], [])], []),
                        ast.For(n.target, name(t), i.body, [])]
                ch = True
            else:
                out.append(n)
        return out if ch else b


class FlagLoop(Blocks):
    """for x in xs: if c: return A / (fallthrough) -> found flag with break"""
    def block(self, b, inloop):
        for i, n in enumerate(b):
            if isinstance(n, ast.For) and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and \
                    len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], ast.Return) and not n.orelse:
                r = n.body[0].body[0].value or ast.Constant(None)
                n2 = ast.For(n.target, n.iter, [ast.If(n.body[0].test, [assign('found_', ast.Constant(True)), assign('res_', r), ast.Break()], [])], [])
                return b[:i] + [assign('found_', ast.Constant(False)), n2, ast.If(name('found_'), [ast.Return(name('res_'))], [])] + b[i + 1:]
        return b


class LoopReturnToAny(Blocks):
    """for x in xs: if c: return True / return False -> return any(...)"""
    def block(self, b, inloop):
        if len(b) >= 2 and isinstance(b[-2], ast.For) and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Constant) and \
                isinstance(b[-1].value.value, bool) and len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.If) and \
                not b[-2].body[0].orelse and len(b[-2].body[0].body) == 1 and isinstance(b[-2].body[0].body[0], ast.Return) and \
                isinstance(b[-2].body[0].body[0].value, ast.Constant) and b[-2].body[0].body[0].value.value is (not b[-1].value.value):
            f = b[-2]
            test = f.body[0].test
            if b[-1].value.value is False:
                e = ast.Call(name('any'), [ast.GeneratorExp(test, [ast.comprehension(f.target, f.iter, [], 0)])], [])
            else:
                e = ast.Call(name('all'), [ast.GeneratorExp(ast.UnaryOp(ast.Not(), test), [ast.comprehension(f.target, f.iter, [], 0)])], [])
            return b[:-2] + [ast.Return(e)]
        return b


class TryElse(Blocks):
    def visit_Try(self, n):
        self.generic_visit(n)
        return n


class DictDisplay(Blocks):
    pass


class ItemsLoop(Blocks):
    """for k, v in d.items(): -> for k in d: v = d[k]"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'items' and \
                isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], N):
            d = n.iter.func.value
            k = n.target.elts[0]
            n.body = [ast.Assign([n.target.elts[1]], ast.Subscript(d, name(k.id), L))] + n.body
            n.target, n.iter = k, d
            self.changed = True
        elif isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'values' and not n.iter.args:
            d = n.iter.func.value
            k = 'key_%d' % next(cnt)
            n.target = ast.Tuple([name(k, True), n.target], S)
            n.iter = ast.Call(ast.Attribute(d, 'items', L), [], [])
            self.changed = True
        return n


TRANSFORMS = [c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, Blocks) and c is not Blocks]


def rewrite(p, f, tr):
    """new module source with one function rewritten, or None"""
    fn = copy.deepcopy(f.node)
    t = tr(fn)
    try:
        if hasattr(t, 'run'):
            t.run()
        else:
            t.generic_visit(fn)
    except RecursionError:
        return None
    if not t.changed:
        return None
    lines = f.module.src.split('\n')
    node = f.node
    start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    end = node.end_lineno
    txt = ast.unparse(ast.fix_missing_locations(fn))
    indent = ' ' * node.col_offset
    new = '\n'.join(lines[:start] + [indent + l for l in txt.split('\n')] + lines[end:])
    for e in t.extra:
        new += '\n\n' + ast.unparse(ast.fix_missing_locations(e)) + '\n'
    try:
        ast.parse(new)
    except SyntaxError:
        return None
    return new


def job(a):
    mode, q, trn = a
    p0 = job.p
    f = p0.functions[q]
    tr = [t for t in TRANSFORMS if t.__name__ == trn][0]
    new = rewrite(p0, f, tr)
    if new is None:
        return q, trn, 'skip', ''
    if new == f.module.src:
        return q, trn, 'skip', ''
    p = Project(overrides={f.module.rel: new})
    c = Check(mode or 'X', p)
    try:
        if mode is None:
            r = conforms(c, 'r', q)
        else:
            importlib.import_module('rules.%s' % mode.lower()).run(c, 'quick')
            r = not c.violations
    except AnalysisBroken as e:
        return q, trn, 'BROKEN', str(e)[:200]
    except Exception as e:
        import traceback
        return q, trn, 'ERROR', traceback.format_exc()[-400:]
    if r is True:
        return q, trn, 'ok', ''
    if r is None:
        return q, trn, 'noverdict', (c.notes or [''])[-1][:200]
    return q, trn, 'ALARM', '; '.join('%s %s' % (v.key, v.msg[:700]) for v in c.violations[:2])


if __name__ == '__main__':
    args = sys.argv[1:]
    mode = only = None
    flt = ''
    verbose = False
    while args:
        a = args.pop(0)
        if a == '--check':
            mode = args.pop(0)
        elif a == '-t':
            only = args.pop(0)
        elif a == '-v':
            verbose = True
        else:
            flt = a
    job.p = Project()
    if mode:
        c = Check(mode, job.p)
        importlib.import_module('rules.%s' % mode.lower()).run(c, 'quick')
        qs = [q for q in sorted(c.funcs) if q in job.p.functions]
    else:
        qs = sorted(spec_library(job.p))
        qs = [q for q in qs if q in job.p.functions]
    qs = [q for q in qs if flt in q]
    jobs = [(mode, q, t.__name__) for q in qs for t in TRANSFORMS if only is None or t.__name__ == only]
    with mp.Pool(8, maxtasksperchild=60) as pool:
        res = pool.map(job, jobs, chunksize=8)
    tally = {}
    for q, t, r, m in res:
        tally.setdefault(t, {}).setdefault(r, 0)
        tally[t][r] += 1
        if r in ('ALARM', 'ERROR', 'BROKEN') or (r == 'noverdict' and verbose):
            print(r, t, q)
            if verbose:
                print('      ', m)
    for t in sorted(tally):
        print('%-18s %s' % (t, ' '.join('%s=%d' % kv for kv in sorted(tally[t].items()) if kv[0] != 'skip')))
