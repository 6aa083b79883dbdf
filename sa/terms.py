"""Hash-consed value terms and boolean guards (reduced ordered BDDs over atoms).

A term is the provenance of a value; a guard is the condition, over branch atoms, under which
control reaches a point.  Both are canonical, so two spellings of the same thing compare equal.
"""


class Term:
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __repr__(self):
        return pretty(self)


_terms = {}


class TooBig(Exception):
    """one function takes more work than any function of the repository by two orders of magnitude"""


LIMIT = [float('inf'), float('inf')]


def allow(terms, nodes):
    LIMIT[0], LIMIT[1] = len(_terms) + terms, len(_ite) + nodes


def T(op, *args):
    key = (op, tuple((type(a), a) if op == 'const' else a for a in args))
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_terms)
        _terms[key] = t
        if t.id > LIMIT[0]:
            raise TooBig('too many values')
    return t


# -- BDD ------------------------------------------------------------------
class Node:
    __slots__ = ('var', 'lo', 'hi', 'id')

    def __repr__(self):
        return pretty_guard(self)


_nodes = {}
FALSE = Node()
TRUE = Node()
for _i, _n in enumerate((FALSE, TRUE)):
    _n.var, _n.lo, _n.hi, _n.id = 1 << 60, None, None, _i
_vars = {}        # atom term -> index
_atoms = []


def mk(var, lo, hi):
    if lo is hi:
        return lo
    k = (var, lo.id, hi.id)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.var, n.lo, n.hi, n.id = var, lo, hi, len(_nodes) + 2
        _nodes[k] = n
    return n


def atom(term):
    i = _vars.get(term)
    if i is None:
        i = len(_atoms)
        _vars[term] = i
        _atoms.append(term)
    return mk(i, FALSE, TRUE)


def atom_of(var):
    return _atoms[var]


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(c.var, a.var, b.var)

    def co(n, s):
        if n.var != v:
            return n
        return n.hi if s else n.lo
    r = mk(v, ite(co(c, 0), co(a, 0), co(b, 0)), ite(co(c, 1), co(a, 1), co(b, 1)))
    _ite[k] = r
    if len(_ite) > LIMIT[1]:
        raise TooBig('too many conditions')
    return r


def Not(a):
    return ite(a, FALSE, TRUE)


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def implies(a, b):
    return And(a, Not(b)) is FALSE


def restrict(n, var, val, _memo=None):
    memo = {} if _memo is None else _memo
    if n.var > var:
        return n
    if n.id in memo:
        return memo[n.id]
    if n.var == var:
        r = n.hi if val else n.lo
    else:
        r = mk(n.var, restrict(n.lo, var, val, memo), restrict(n.hi, var, val, memo))
    memo[n.id] = r
    return r


_constr, _care = {}, {}


def constrain(f, c):
    """f simplified under the care set c; c only counts for the atoms f depends on, so that the result does not depend on
    the order in which the atoms were met."""
    if c is TRUE or f is TRUE or f is FALSE or c is FALSE or f is c:
        return _constrain(f, c)
    k = (f.id, c.id)
    if k not in _care:
        mine = set(support(f))
        _care[k] = _constrain(f, exists(c, lambda a: a not in mine))
    return _care[k]


def _constrain(f, c):
    """Generalised cofactor."""
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    if c is FALSE:
        return FALSE
    if f is c:
        return TRUE
    k = (f.id, c.id)
    if k in _constr:
        return _constr[k]
    v = min(f.var, c.var)
    f0, f1 = (f.lo, f.hi) if f.var == v else (f, f)
    c0, c1 = (c.lo, c.hi) if c.var == v else (c, c)
    if c1 is FALSE:
        r = _constrain(f0, c0)
    elif c0 is FALSE:
        r = _constrain(f1, c1)
    else:
        r = mk(v, _constrain(f0, c0), _constrain(f1, c1))
    _constr[k] = r
    return r


def support(n):
    seen, out, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x.id in seen or x is TRUE or x is FALSE:
            continue
        seen.add(x.id)
        out.add(x.var)
        st += [x.lo, x.hi]
    return [_atoms[v] for v in sorted(out)]


def exists(n, pred):
    """Forget every atom for which pred holds."""
    for a in support(n):
        if pred(a):
            v = _vars[a]
            n = Or(restrict(n, v, 0), restrict(n, v, 1))
    return n


def assume(n, a, val):
    """Cofactor of n by atom term a."""
    if a not in _vars:
        return n
    return restrict(n, _vars[a], 1 if val else 0)


def literals(n):
    """Literals entailed by n: list of (atom, polarity)."""
    out = []
    for a in support(n):
        v = _vars[a]
        if restrict(n, v, 0) is FALSE:
            out.append((a, True))
        elif restrict(n, v, 1) is FALSE:
            out.append((a, False))
    return out


# -- terms: constructors ----------------------------------------------------
def const(v):
    return T('const', v)


NONE = const(None)


def is_const(t):
    return t.op == 'const'


def boolean(n):
    if n is TRUE:
        return const(True)
    if n is FALSE:
        return const(False)
    return T('bool', n)


def tite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.op in ('bool',) or b.op in ('bool',):
        if all(x.op == 'bool' or (x.op == 'const' and isinstance(x.args[0], bool)) for x in (a, b)):
            return boolean(ite(c, truth(a), truth(b)))
    if a.op == 'const' and b.op == 'const' and isinstance(a.args[0], bool) and isinstance(b.args[0], bool):
        return boolean(ite(c, truth(a), truth(b)))
    if a.op == 'bool':
        a = boolean(constrain(a.args[0], c))
    if b.op == 'bool':
        b = boolean(constrain(b.args[0], Not(c)))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return tite(Or(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return tite(And(c, a.args[0]), a.args[1], b)
    return T('ite', c, a, b)


def leaves(t, g=TRUE, out=None):
    """Flatten nested ite: list of (guard, leaf)."""
    if out is None:
        out = []
    if t.op == 'ite':
        leaves(t.args[1], And(g, t.args[0]), out)
        leaves(t.args[2], And(g, Not(t.args[0])), out)
    elif g is not FALSE:
        out.append((g, t))
    return out


TRUTHY_OPS = {'closure', 'glob', 'lambda'}


def truth(t):
    if t.op == 'const':
        return TRUE if t.args[0] else FALSE
    if t.op == 'bool':
        return t.args[0]
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('tuple', 'list', 'set', 'dict'):
        if not t.args[0]:
            return FALSE
        if not any(isinstance(x, Term) and x.op == 'star' for x in t.args[0]):
            return TRUE
    if t.op == 'call':
        fn, args = t.args[0], t.args[1]
        if fn.op == 'glob' and len(args) == 1:
            if fn.args[0] in ('builtins.len', 'builtins.bool', 'builtins.list', 'builtins.tuple', 'builtins.set',
                              'builtins.sorted', 'builtins.frozenset'):
                return truth(args[0])
        if fn.op == 'glob' and fn.args[0] in ('re.match', 're.search', 're.fullmatch') or \
                fn.op == 'attr' and fn.args[0].op == 'glob' and fn.args[1] in ('match', 'search', 'fullmatch'):
            return Not(atom(T('is', t, NONE)))      # a match object is true
    if t.op in TRUTHY_OPS:
        return TRUE
    return atom(T('truthy', t))


def subterms(t, seen=None):
    """All sub-terms of t (terms nested in guards included)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Node):
            st.extend(support(x))
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# -- printing ---------------------------------------------------------------
def pretty(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, Node):
            return pretty_guard(t)
        if isinstance(t, tuple):
            return '(' + ', '.join(pretty(x, d + 1) for x in t) + ')'
        return repr(t)
    if d > 9:
        return '…'
    p = lambda x: pretty(x, d + 1)
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[0])
    if o in ('param', 'name'):
        return str(a[0])
    if o == 'glob':
        return a[0].replace('builtins.', '')
    if o == 'attr':
        return '%s.%s' % (p(a[0]), a[1])
    if o == 'call':
        return '%s(%s)' % (p(a[0]), ', '.join([p(x) for x in a[1]] + ['%s=%s' % (k, p(v)) for k, v in a[2]]))
    if o == 'sub':
        return '%s[%s]' % (p(a[0]), p(a[1]))
    if o == 'elem':
        return 'each(%s)' % p(a[0])
    if o == 'index':
        return 'index(%s)' % p(a[0])
    if o in ('eq', 'in', 'is', 'lt', 'bin'):
        if o == 'bin':
            return '(%s %s %s)' % (p(a[1]), a[0], p(a[2]))
        return '(%s %s %s)' % (p(a[0]), {'eq': '==', 'in': 'in', 'is': 'is', 'lt': '<'}[o], p(a[1]))
    if o == 'truthy':
        return p(a[0])
    if o == 'any':
        return 'any %s: {%s}' % (p(a[0]), pretty_guard(a[2], d + 1))
    if o == 'ite':
        return '(%s if %s else %s)' % (p(a[1]), pretty_guard(a[0], d + 1), p(a[2]))
    if o == 'bool':
        return pretty_guard(a[0], d + 1)
    if o in ('tuple', 'list', 'set'):
        return {'tuple': '(%s)', 'list': '[%s]', 'set': '{%s}'}[o] % ', '.join(p(x) for x in a[0])
    if o == 'new':
        return '%s#%s' % (a[0], a[1])
    return '%s(%s)' % (o, ', '.join(p(x) if isinstance(x, (Term, Node, tuple)) else str(x) for x in a))


def pretty_guard(n, d=0):
    if n is TRUE:
        return 'always'
    if n is FALSE:
        return 'never'
    lits = literals(n)
    core = n
    parts = []
    for a, v in lits:
        parts.append(('' if v else 'not ') + pretty(a, d + 1))
        core = restrict(core, _vars[a], 1 if v else 0)
    if core is not TRUE:
        if d > 6:
            parts.append('…')
        else:
            a = _atoms[core.var]
            parts.append('(%s ? %s : %s)' % (pretty(a, d + 1), pretty_guard(core.hi, d + 2), pretty_guard(core.lo, d + 2)))
    return ' and '.join(parts)
