"""The Root Zone copy each LGR is harmonized with is its own: a copy that was handed to an in-place harmonization is not used for another."""
import ast

EXPLANATION = __doc__


def is_copy(n):
    return isinstance(n, ast.Call) and (getattr(n.func, 'id', None) or getattr(n.func, 'attr', None)) in ('deepcopy', 'copy') and n.args


def in_place(n):
    """A call told not to copy the LGRs it is given."""
    return isinstance(n, ast.Call) and any(k.arg == '_copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords)


class Flow:
    def __init__(self):
        self.calls, self.bad = set(), []

    def expr(self, n, env):
        for s in ast.walk(n):
            if in_place(s):
                self.calls.add((s.lineno, s.col_offset))
                for a in s.args[1:] + [k.value for k in s.keywords]:
                    if isinstance(a, ast.Name) and a.id in env:
                        if env[a.id] == 'spent':
                            self.bad.append((s.lineno, a.id))
                        env[a.id] = 'spent'

    def block(self, body, env):
        for s in body:
            if isinstance(s, (ast.For, ast.While)):
                self.expr(s.iter if isinstance(s, ast.For) else s.test, env)
                for _ in range(2):
                    self.block(s.body, env)
                self.block(s.orelse, env)
            elif isinstance(s, ast.If):
                self.expr(s.test, env)
                a, b = dict(env), dict(env)
                self.block(s.body, a)
                self.block(s.orelse, b)
                env.clear()
                for k in set(a) | set(b):
                    env[k] = 'spent' if 'spent' in (a.get(k), b.get(k)) else 'fresh'
            elif isinstance(s, (ast.With, ast.Try)):
                self.block(s.body, env)
                for h in getattr(s, 'handlers', ()):
                    self.block(h.body, env)
                self.block(getattr(s, 'orelse', []) + getattr(s, 'finalbody', []), env)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                self.expr(s, env)
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            if is_copy(s.value):
                                env[t.id] = 'fresh'
                            elif isinstance(s.value, ast.Name) and s.value.id in env:
                                env[t.id] = env[s.value.id]
                            else:
                                env.pop(t.id, None)


def run(c, tier):
    for q, f in sorted(c.p.functions.items()):
        if f.module.name != 'lgr.tools.harmonize' or f.parent is not None:
            continue
        c.analysed(f)
        fl = Flow()
        fl.block(f.node.body, {})
        loc = f.loc()
        if fl.bad:
            loc = '%s:%d' % (loc.rsplit(':', 1)[0], fl.bad[0][0])
        c.ob('own-copy', q, not fl.bad, loc, '%s was already harmonized in place with another LGR' % fl.bad[0][1] if fl.bad else '')
