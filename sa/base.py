"""Rule-writing helpers: contexts over guarded summaries, term patterns, obligations, reports."""
import ast
import itertools

from .project import AnalysisBroken
from .interp import Analyzer, State, Frame, Summary, callee_name, receiver, arg, walk_own
from .terms import *
from .terms import _vars
from . import terms as TM


def wildcard(name):
    return T('mvar', name)


def unify(pat, t, b):
    """Match a pattern term (metavariables are T('mvar', n)) against t; returns bindings or None."""
    if isinstance(pat, Term):
        if pat.op == 'mvar':
            n = pat.args[0]
            if n == '_':
                return b
            if n in b:
                return b if b[n] is t else None
            b = dict(b)
            b[n] = t
            return b
        if not isinstance(t, Term) or pat.op != t.op:
            return None
        if pat is t:
            return b
        if pat.op == 'call':
            b = unify(pat.args[0], t.args[0], b)
            if b is None:
                return None
            # '...' in the pattern: ignore remaining arguments
            pk, tk = dict(pat.args[2]), dict(t.args[2])
            pa, ta = pat.args[1], t.args[1]
            rest = any(x.op == 'const' and x.args[0] is Ellipsis for x in pa)
            rest = rest or any(v.op == 'const' and v.args[0] is Ellipsis for v in pk.values())
            pk = {k: v for k, v in pk.items() if not (v.op == 'const' and v.args[0] is Ellipsis)}
            pa = [x for x in pa if not (x.op == 'const' and x.args[0] is Ellipsis)]
            if not rest and (len(pa) != len(ta) or set(pk) != set(tk)):
                return None
            if len(pa) > len(ta) or not set(pk) <= set(tk):
                return None
            for x, y in zip(pa, ta):
                b = unify(x, y, b)
                if b is None:
                    return None
            for k in pk:
                b = unify(pk[k], tk[k], b)
                if b is None:
                    return None
            return b
        if len(pat.args) != len(t.args):
            return None
        for x, y in zip(pat.args, t.args):
            b = unify(x, y, b)
            if b is None:
                return None
        return b
    if isinstance(pat, tuple):
        if not isinstance(t, tuple) or len(pat) != len(t):
            return None
        for x, y in zip(pat, t):
            b = unify(x, y, b)
            if b is None:
                return None
        return b
    if isinstance(pat, Node):
        if pat is t:
            return b
        # a guard made of a single atom
        if isinstance(t, Node) and len(support(pat)) == 1 and len(support(t)) == 1:
            pa, ta = support(pat)[0], support(t)[0]
            if (pat is TM.atom(pa)) == (t is TM.atom(ta)):
                return unify(pa, ta, b)
        return None
    return b if pat == t else None


def axioms_for(atoms, project=None):
    """Consequences between atoms that hold by the meaning of the language."""
    ax = TRUE
    by = {}
    for a in atoms:
        if a.op in ('truthy', 'is', 'eq', 'isinst'):
            by.setdefault(a.args[0], []).append(a)
    for x, lst in by.items():
        for p, q in itertools.combinations(lst, 2):
            for a, c in ((p, q), (q, p)):
                if a.op == 'truthy' and c.op == 'is' and c.args[1] is NONE:
                    ax = And(ax, Not(And(TM.atom(a), TM.atom(c))))
                if a.op == 'eq' and a.args[1].op == 'const':
                    if c.op == 'is' and c.args[1] is NONE:
                        ax = And(ax, Not(And(TM.atom(a), TM.atom(c))))
                    if c.op == 'truthy':
                        v = bool(a.args[1].args[0])
                        ax = And(ax, Or(Not(TM.atom(a)), TM.atom(c) if v else Not(TM.atom(c))))
                    if c.op == 'eq' and c.args[1].op == 'const' and c is not a and a.id < c.id:
                        if a.args[1].args[0] != c.args[1].args[0]:
                            ax = And(ax, Not(And(TM.atom(a), TM.atom(c))))
                if a.op == 'isinst' and c.op == 'isinst' and project is not None and a is not c:
                    qa, qc = a.args[1], c.args[1]
                    if qa.op == 'glob' and qc.op == 'glob' and project.is_subclass(qa.args[0], qc.args[0]):
                        ax = And(ax, Or(Not(TM.atom(a)), TM.atom(c)))
                    elif a.id < c.id and qa.op == 'glob' and qc.op == 'glob' and project.disjoint(qa.args[0], qc.args[0]):
                        ax = And(ax, Not(And(TM.atom(a), TM.atom(c))))
                if a.op == 'isinst' and c.op == 'is' and c.args[1] is NONE:
                    ax = And(ax, Not(And(TM.atom(a), TM.atom(c))))
    # forall facts: any(it,g) vs any(it,h) with h => g ; any(it, ..) => truthy(it)
    anys = [a for a in atoms if a.op == 'any']
    for a in anys:
        for b in anys:
            if a is not b and a.args[0] is b.args[0] and (implies(b.args[2], a.args[2]) or implies(
                    And(b.args[2], axioms_for(set(support(a.args[2])) | set(support(b.args[2])), project)), a.args[2])):
                ax = And(ax, Or(Not(TM.atom(b)), TM.atom(a)))
        tr = T('truthy', a.args[0])
        if tr in atoms:
            ax = And(ax, Or(Not(TM.atom(a)), TM.atom(tr)))
        em = T('is', a.args[0], NONE)
        if em in atoms:
            ax = And(ax, Not(And(TM.atom(a), TM.atom(em))))
    lts = [a for a in atoms if a.op == 'lt']
    for a in atoms:
        if a.op == 'in' and T('truthy', a.args[1]) in atoms:
            ax = And(ax, Or(Not(TM.atom(a)), TM.atom(T('truthy', a.args[1]))))
        if a.op == 'eq':
            for x, y in (a.args, a.args[::-1]):
                # a beginning of length n that equals something of length n
                if x.op == 'sub' and x.args[1].op == 'slice' and x.args[1].args[0] is NONE and x.args[1].args[2] is NONE and \
                        is_len_call(x.args[1].args[1]) is y:
                    for l in lts:
                        if is_len_call(l.args[0]) is x.args[0] and l.args[1] is x.args[1].args[1]:
                            ax = And(ax, Not(And(TM.atom(a), TM.atom(l))))
            if a.args[1].op == 'const' and isinstance(a.args[1].args[0], int):
                n = a.args[1].args[0]
                for l in lts:
                    if l.args[0] is a.args[0] and l.args[1].op == 'const' and isinstance(l.args[1].args[0], int):
                        ax = And(ax, Or(Not(TM.atom(a)), TM.atom(l) if n < l.args[1].args[0] else Not(TM.atom(l))))
                    if l.args[1] is a.args[0] and l.args[0].op == 'const' and isinstance(l.args[0].args[0], int):
                        ax = And(ax, Or(Not(TM.atom(a)), TM.atom(l) if l.args[0].args[0] < n else Not(TM.atom(l))))
    for a, b in itertools.permutations(lts, 2):
        if a.args[0] is b.args[0] and a.args[1].op == 'const' and b.args[1].op == 'const':
            try:
                if a.args[1].args[0] < b.args[1].args[0]:
                    ax = And(ax, Or(Not(TM.atom(a)), TM.atom(b)))
            except TypeError:
                pass
    for a in atoms:
        if a.op == 'truthy' and a.args[0].op == 'bin':
            # what both have, each has; what is left was there
            x = a.args[0]
            for y in (x.args[1:] if x.args[0] == 'BitAnd' else x.args[1:2] if x.args[0] == 'Sub' else ()):
                if T('truthy', y) in atoms and (x.args[0] == 'BitAnd' or setlike(x.args[2]) or setlike(y)):
                    ax = And(ax, Or(Not(TM.atom(a)), TM.atom(T('truthy', y))))
        if a.op == 'eq' and is_len_call(a.args[0]) is not None and a.args[1].op == 'const' and isinstance(a.args[1].args[0], int) and \
                a.args[1].args[0] > 0 and T('truthy', is_len_call(a.args[0])) in atoms:
            # as long as that, it is not empty; neither empty nor longer than 1 is of length 1
            some = TM.atom(T('truthy', is_len_call(a.args[0])))
            ax = And(ax, Or(Not(TM.atom(a)), some))
            if a.args[1].args[0] == 1:
                for l in lts:
                    if l.args == (const(1), a.args[0]):
                        ax = And(ax, Or(Not(some), TM.atom(l), TM.atom(a)))
                    elif l.args == (a.args[0], const(2)):
                        ax = And(ax, Or(Not(some), Not(TM.atom(l)), TM.atom(a)))
        if a.op == 'truthy':
            for l in lts:
                # something shorter than 2 or longer than 1 is / is not empty
                if is_len_call(l.args[0]) is a.args[0] and l.args[1].op == 'const' and isinstance(l.args[1].args[0], int) and l.args[1].args[0] >= 1:
                    ax = And(ax, Or(TM.atom(a), TM.atom(l)))
    return ax


def setlike(t):
    return t.op == 'cnew' and t.args[0] == 'set' or t.op == 'bin' and t.args[0] in ('BitAnd', 'BitOr', 'BitXor') or \
        t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('builtins.set', 'builtins.frozenset')


def is_len_call(t):
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'builtins.len' and len(t.args[1]) == 1:
        return t.args[1][0]
    return None


class Ctx:
    """Summary of one entry function plus an expression language over its inputs."""

    def __init__(self, check, qual, inline=(), no_inline=(), inline_pred=None, types=None, func=None):
        self.check = check
        self.p = check.p
        self.func = func or self.p.func(qual)
        self.qual = self.func.qual
        self.an = Analyzer(self.p, inline=[self._q(x) for x in inline], no_inline=no_inline,
                           inline_all_private=inline_pred, entry_types=types)
        from .conform import bounded
        with bounded():
            self.s = self.an.run(self.func)
        self.effects = self.s.effects
        check.analysed(self.func, self.an.inlined)

    def _q(self, x):
        return x

    # -- expression language ---------------------------------------------
    def _state(self, binds):
        env = {}
        f = self.func
        for i, p in enumerate(f.params):
            env[p] = T('self') if (f.is_method and i == 0) else T('param', p)
        for p in f.kwonly + [x for x in (f.vararg, f.kwarg) if x]:
            env[p] = T('param', p)
        for k, v in binds.items():
            env[k] = v if isinstance(v, Term) else (boolean(v) if isinstance(v, Node) else const(v))
        return State(env, {}, TRUE)

    def _eval(self, src, binds, cond):
        an = self.an
        node = ast.parse(src, mode='eval').body
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        st = self._state(binds)
        for n in names:
            if n.startswith('_') and n not in st.env and (n == '_' or n[1:].isupper()):
                st.env[n] = T('mvar', n)
        fr = Frame(self.func, self.func.module, self.func.cls)
        an.frames.append(fr)
        an.mute += 1
        sloops, sout, strys = an.loops, an.outer, an.trys
        an.loops, an.outer, an.trys = [], [], []
        for x in ast.walk(node):
            if hasattr(x, 'lineno'):
                x.lineno = -1 - getattr(x, 'lineno', 0)
        try:
            return an.cond(node, st) if cond else an.ev(node, st)
        finally:
            an.mute -= 1
            an.frames.pop()
            an.loops, an.outer, an.trys = sloops, sout, strys

    def x(self, src, **binds):
        return self._eval(src, binds, False)

    def g(self, src, **binds):
        return self._eval(src, binds, True)

    # -- queries -----------------------------------------------------------
    def implies(self, a, b):
        ats = set(support(a)) | set(support(b))
        return TM.implies(And(a, axioms_for(ats, self.p)), b)

    def equiv(self, a, b):
        return a is b or (self.implies(a, b) and self.implies(b, a))

    def feasible(self, a):
        return And(a, axioms_for(set(support(a)), self.p)) is not FALSE

    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]

    def calls(self, name=None, recv=None, pred=None):
        out = []
        for e in self.effects:
            if e.kind != 'call':
                continue
            if name is not None and callee_name(e.term) != name and not (isinstance(name, (set, tuple)) and callee_name(e.term) in name):
                continue
            if recv is not None and receiver(e.term) is not recv:
                continue
            if pred is not None and not pred(e):
                continue
            out.append(e)
        return out

    def match(self, src, t, **binds):
        pat = self.x(src, **binds) if isinstance(src, str) else src
        return unify(pat, t, {})

    def find(self, src, effects=None, **binds):
        pat = self.x(src, **binds)
        out = []
        for e in (effects if effects is not None else self.of('call')):
            b = unify(pat, e.term, {})
            if b is not None:
                out.append((e, b))
        return out

    def raises(self, exc=None):
        out = []
        for e in self.of('raise'):
            q = self.an.exc_type(e.term)
            if exc is None or (q and q.rsplit('.', 1)[-1] == exc):
                out.append(e)
        return out

    def returns(self):
        return self.of('return')

    def return_truth(self):
        """Guard under which the function returns a truthy value."""
        g = FALSE
        for e in self.returns():
            g = Or(g, And(e.cond, truth_of(e.value, self)))
        return g

    def return_guard(self):
        return Or(*[e.cond for e in self.returns()])

    def content(self, t):
        """All values put in a fresh container: list of (value, effect or None)."""
        out = []
        a = self.an.allocs.get(t)
        if a is not None and a.init:
            out += [(v, None) for v in a.init]
        for e in self.effects:
            if e.kind in ('emit', 'emit_all') and e.target is t:
                out.append((e.value, e))
        return out

    def loc(self, e):
        return e.loc if e is not None else self.func.loc()


def truth_of(t, ctx):
    if t.op == 'new':
        return TM.atom(T('truthy', t))
    return truth(t)


class Violation:
    def __init__(self, rule, key, loc, msg):
        self.rule, self.key, self.loc, self.msg = rule, key, loc, msg


class Check:
    """One property's run: obligations, what was analysed, violations."""

    def __init__(self, pid, project):
        self.pid, self.p = pid, project
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.funcs = {}
        self.rules = {}
        self.notes = []
        self.floor = {}
        self.samples = []
        self.current = None
        self.gave_up = 0

    def analysed(self, f, inlined=()):
        self.funcs[f.qual] = '%s:%d' % (f.module.rel, f.node.lineno)
        for q in inlined:
            g = self.p.functions.get(q)
            if g is not None:
                self.funcs[q] = '%s:%d' % (g.module.rel, g.node.lineno)

    def ctx(self, qual, **kw):
        x = Ctx(self, qual, **kw)
        self.current = x.func
        return x

    def part(self, fn, *args):
        """Run one part of a rule. A function that is gone or whose form the part cannot read gets no verdict from it, and a
        function that was written anew (see conform.restructured) gets none where the part would object."""
        from .conform import restructured, spec_library
        n = len(self.violations)
        self.current = None
        why = None
        try:
            fn(self, *args)
        except AnalysisBroken as exc:
            why = str(exc)
        except Exception as exc:        # the part does not know this form of the code
            why = '%s: %s' % (type(exc).__name__, exc)
        if why is not None:
            self.notes.append('%s: no verdict (%s)' % (' '.join(a for a in args if isinstance(a, str)) or fn.__name__, why))
            self.gave_up += 1
        lib = spec_library(self.p)
        for v in self.violations[n:]:
            if v.func is None or v.func.qual not in lib:
                continue
            far = restructured(self.p, lib[v.func.qual], v.func)
            if far:
                self.violations.remove(v)
                self.notes.append('%s %s: no verdict (%s: %s)' % (v.rule, v.key, v.func.qual, far))

    def ob(self, rule, key, ok, loc, msg=''):
        """One obligation of a rule instance."""
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.discharged += 1
            r[1] += 1
            if len(self.samples) < 12 and r[1] <= 2:
                self.samples.append('%s | %s | %s' % (rule, key, loc))
        else:
            v = Violation(rule, key, loc, msg)
            v.func = self.current
            self.violations.append(v)
        return ok

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def at_least(self, rule, n):
        got = self.rules.get(rule, [0, 0])[0]
        if got < n:
            raise AnalysisBroken('rule %s matched %d instances, fewer than the %d confirmed by hand' % (rule, got, n))
