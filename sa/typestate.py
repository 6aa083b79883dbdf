"""Acquire / release pairing on every path, exceptional ones included.

States of a function: (held resources, assumptions about unmodified tests).  Statements that can raise
contribute their entry state to the enclosing handlers / finally blocks; a resource still held on any
exit of the function is reported.
"""
import ast


class Outcome:
    __slots__ = ('normal', 'ret', 'exc', 'brk', 'cont')

    def __init__(self):
        self.normal, self.ret, self.exc, self.brk, self.cont = set(), set(), {}, set(), set()

    def throw(self, states, line):
        for s in states:
            self.exc.setdefault(s, line)

    def absorb(self, o, normal=True):
        if normal:
            self.normal |= o.normal
        self.ret |= o.ret
        for s, l in o.exc.items():
            self.exc.setdefault(s, l)
        self.brk |= o.brk
        self.cont |= o.cont


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


class Pairing:
    """acquire(call) / release(call) give the resource key of a call expression or None;
    helper(call) gives the (held-on-exit keys, released keys) of a called helper or None."""

    def __init__(self, acquire, release, helper=lambda c: None):
        self.acquire, self.release, self.helper = acquire, release, helper
        self.acquired = []

    def run(self, fn):
        o = self.block(fn.body, {(frozenset(), frozenset())})
        out = []
        for s in o.normal | o.ret:
            for k in s[0]:
                out.append((k, 'on return', 0))
        for s, l in o.exc.items():
            for k in s[0]:
                out.append((k, 'when an exception is raised', l))
        return out

    # -- statements --------------------------------------------------------
    def block(self, body, states):
        out = Outcome()
        for st in body:
            if not states:
                break
            o = self.stmt(st, states)
            out.absorb(o, normal=False)
            states = o.normal
        out.normal = states
        return out

    def calls(self, node):
        stack, out = [node], []
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, ast.Call):
                out.append(n)
            stack.extend(ast.iter_child_nodes(n))
        return sorted(out, key=lambda c: (c.end_lineno, c.end_col_offset))

    def simple(self, node, states, out):
        """effects of evaluating an expression or simple statement; returns the states after it"""
        risky = False
        for c in self.calls(node):
            k = self.acquire(c)
            if k is not None:
                self.acquired.append((k, c.lineno))
                states = {(s[0] | {k}, s[1]) for s in states}
                continue
            k = self.release(c)
            if k is not None:
                states = {(frozenset(x for x in s[0] if x[0] != k[0] or (x[1] != k[1] and '*' not in (x[1], k[1]))), s[1]) for s in states}
                continue
            h = self.helper(c)
            if h is not None:
                held, rel = h
                for k in rel:
                    states = {(frozenset(x for x in s[0] if x[0] != k[0]), s[1]) for s in states}
                for k in held:
                    self.acquired.append((k, c.lineno))
                    states = {(s[0] | {k}, s[1]) for s in states}
                continue
            if not self.harmless(c):
                risky = True
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Subscript, ast.Await, ast.BinOp)) for n in ast.walk(node)):
            risky = True
        if risky:
            out.throw(states, getattr(node, 'lineno', 0))
        return states

    def harmless(self, c):
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr in ('setLevel', 'setFormatter', 'close', 'flush', 'debug', 'info', 'warning',
                                                       'error', 'getvalue', 'append', 'StreamHandler', 'getLogger'):
            return True
        return isinstance(f, ast.Name) and f.id in ('StringIO', 'BytesIO', 'len', 'set', 'list', 'dict', 'tuple', 'isinstance', 'bool')

    def forget(self, states, names):
        if not names:
            return states
        return {(s[0], frozenset(a for a in s[1] if not (a[2] & names))) for s in states}

    def split(self, test, states):
        """(states when true, states when false); tests over plain names are remembered"""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            neg, test = not neg, test.operand
        plain = not any(isinstance(n, ast.Call) for n in ast.walk(test))
        if isinstance(test, ast.Constant):
            t, f = (states, set()) if test.value else (set(), states)
        elif not plain:
            t, f = states, states
        else:
            d, ns = ast.dump(test), frozenset(names_in(test))
            t = {(s[0], s[1] | {(d, True, ns)}) for s in states if (d, False, ns) not in s[1]}
            f = {(s[0], s[1] | {(d, False, ns)}) for s in states if (d, True, ns) not in s[1]}
        return (f, t) if neg else (t, f)

    def stmt(self, st, states):
        out = Outcome()
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            out.normal = states
        elif isinstance(st, ast.If):
            states = self.simple(st.test, states, out)
            t, f = self.split(st.test, states)
            out.absorb(self.block(st.body, t))
            if st.orelse:
                out.absorb(self.block(st.orelse, f))
            else:
                out.normal |= f
        elif isinstance(st, (ast.While, ast.For)):
            seen = set()
            head = states
            known = isinstance(st, ast.For) and isinstance(st.iter, (ast.Tuple, ast.List)) and st.iter.elts and \
                not any(isinstance(x, ast.Starred) for x in st.iter.elts)
            first = True
            while True:
                new = head - seen
                if not new:
                    break
                seen |= new
                if isinstance(st, ast.While):
                    after = self.simple(st.test, new, out)
                    t, f = self.split(st.test, after)
                else:
                    after = self.simple(st.iter, new, out)
                    if not known:
                        out.throw(after, st.lineno)
                    t, f = self.forget(after, names_in(st.target)), after
                o = self.block(st.body, t)
                out.ret |= o.ret
                for s, l in o.exc.items():
                    out.exc.setdefault(s, l)
                out.normal |= o.brk
                if known and first:
                    f = set()
                first = False
                if st.orelse:
                    out.absorb(self.block(st.orelse, f))
                else:
                    out.normal |= f
                head = o.normal | o.cont
        elif isinstance(st, ast.Try):
            b = self.block(st.body, states)
            inner = Outcome()
            after = b.normal
            if st.orelse:
                e = self.block(st.orelse, after)
                inner.absorb(e)
            else:
                inner.normal |= after
            inner.ret |= b.ret
            inner.brk |= b.brk
            inner.cont |= b.cont
            caught_all = False
            for h in st.handlers:
                inner.absorb(self.block(h.body, set(b.exc)))
                t = h.type
                if t is None or isinstance(t, ast.Name) and t.id == 'BaseException':
                    caught_all = True
            if not caught_all:
                for s, l in b.exc.items():
                    inner.exc.setdefault(s, l)
            if st.finalbody:
                for name in ('normal', 'ret', 'brk', 'cont'):
                    src = getattr(inner, name)
                    if src:
                        o = self.block(st.finalbody, src)
                        getattr(out, name).update(o.normal)
                        out.ret |= o.ret
                        for s, l in o.exc.items():
                            out.exc.setdefault(s, l)
                for s, l in inner.exc.items():
                    o = self.block(st.finalbody, {s})
                    for x in o.normal:
                        out.exc.setdefault(x, l)
                    out.ret |= o.ret
                    for x, l2 in o.exc.items():
                        out.exc.setdefault(x, l2)
            else:
                out.absorb(inner)
        elif isinstance(st, ast.With):
            for i in st.items:
                states = self.simple(i.context_expr, states, out)
            out.absorb(self.block(st.body, states))
        elif isinstance(st, ast.Return):
            if st.value is not None:
                states = self.simple(st.value, states, out)
            out.ret = set(states)
        elif isinstance(st, ast.Raise):
            out.throw(states, st.lineno)
        elif isinstance(st, ast.Break):
            out.brk = set(states)
        elif isinstance(st, ast.Continue):
            out.cont = set(states)
        else:
            states = self.simple(st, states, out)
            names = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            out.normal = self.forget(states, names)
        return out
