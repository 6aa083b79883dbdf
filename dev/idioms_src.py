import io, re, operator, itertools, collections
def extend__1(X, y):
    r = []
    for x in X:
        r.append(x)
    r.append(y)
    return r
def extend__2(X, y):
    r = list(X)
    r.append(y)
    return r
def extend__3(X, y):
    r = []
    r.extend(X)
    r += [y]
    return r
def extend__4(X, y):
    return list(X) + [y]
def extend__no(X, y):
    r = [y]
    r.extend(X)
    return r
def listcopy__1(X):
    return list(X)
def listcopy__2(X):
    return [x for x in X]
def listcopy__3(X):
    r = []
    for x in X:
        r.append(x)
    return r
def seteq__1(X):
    return set(x.cp for x in X)
def seteq__2(X):
    r = set()
    for x in X:
        r.add(x.cp)
    return r
def seteq__3(X):
    return {x.cp for x in X}
def seteq__4(X):
    r = set()
    r.update(x.cp for x in X)
    return r
def seteq__5(X):
    return set([x.cp for x in X])
def seteq__6(X):
    return set(map(lambda x: x.cp, X))
def attradd__1(self, X):
    for x in X:
        self.s.add(x)
def attradd__2(self, X):
    self.s.update(X)
def attradd__3(self, X):
    self.s.update([x for x in X])
def attradd__4(self, X):
    self.s.update(set(X))
def attrcond__1(self, X):
    for x in X:
        if x.ok:
            self.s.append(x.cp)
def attrcond__2(self, X):
    self.s.extend(x.cp for x in X if x.ok)
def attrcond__3(self, X):
    self.s += [x.cp for x in X if x.ok]
def attrcond__no(self, X):
    self.s += [x.cp for x in X]
def attrone__1(self, x):
    self.s.append(x)
def attrone__2(self, x):
    self.s.extend([x])
def attrone__3(self, x):
    self.s += [x]
def boolne__1(a, b):
    p = not a
    q = b is not None
    if p and not q or (not p and q):
        raise ValueError()
def boolne__2(a, b):
    if (not a) != (b is not None):
        raise ValueError()
def boolne__3(a, b):
    if (not a) == (b is None):
        raise ValueError()
def boolne__no(a, b):
    if (not a) == (b is not None):
        raise ValueError()
def rematch__1(x):
    return 1 if re.match('a', x) is None else 2
def rematch__2(x):
    return 1 if not re.match('a', x) else 2
def rematch__3(x):
    m = re.match('a', x)
    if m:
        return 2
    return 1
def disj__1(a, b):
    if len(a.s & b) > 0:
        return 1
def disj__2(a, b):
    if a.s & b:
        return 1
def disj__3(a, b):
    if not a.s.isdisjoint(b):
        return 1
def disj__4(a, b):
    if a.s.intersection(b):
        return 1
def minstore__1(self, x):
    if x < self.n:
        self.n = x
def minstore__2(self, x):
    self.n = min(self.n, x)
def minstore__3(self, x):
    self.n = min(x, self.n)
def minstore__4(self, x):
    self.n = x if x < self.n else self.n
def minstore__no(self, x):
    self.n = max(x, self.n)
def discard__1(self, X):
    for x in X:
        self.s.discard(x)
def discard__2(self, X):
    self.s.difference_update(X)
def strio__1(X):
    s = io.StringIO()
    for x in X:
        s.write(x.name)
    return s.getvalue()
def strio__2(X):
    return ''.join(x.name for x in X)
def strio__3(X):
    r = ''
    for x in X:
        r += x.name
    return r
def strio__no(X):
    return ','.join(x.name for x in X)
def starsplit__1(d):
    e = d.split('-')
    if len(e) == 3:
        n = [int(x) for x in e]
        return foo(n[0], n[1], n[2])
def starsplit__2(d):
    e = d.split('-')
    if len(e) == 3:
        return foo(*map(int, e))
def starsplit__3(d):
    e = d.split('-')
    if len(e) == 3:
        a, b, c = [int(x) for x in e]
        return foo(a, b, c)
def group__1(X):
    d = {}
    for x in X:
        d.setdefault(x.k, []).append(x)
    return d
def group__2(X):
    d = collections.defaultdict(list)
    for x in X:
        d[x.k].append(x)
    return d
def group__3(X):
    d = {}
    for x in X:
        if x.k not in d:
            d[x.k] = []
        d[x.k].append(x)
    return d
def dup__1(x, y):
    return [x, y, y]
def dup__no(x, y):
    return [x, y]
def attrdel__1(self, k):
    if k in self.d:
        del self.d[k]
def attrdel__2(self, k):
    self.d.pop(k, None)
def attrdel__no(self, k):
    self.d.pop(k)
def nextdef__1(X, k):
    for x in X:
        if x.k == k:
            return x
    return None
def nextdef__2(X, k):
    return next((x for x in X if x.k == k), None)
def nextdef__3(X, k):
    r = None
    for x in X:
        if x.k == k:
            r = x
            break
    return r
def nextdef__no(X, k):
    r = None
    for x in X:
        if x.k == k:
            r = x
    return r
def nextdef__4(X, k):
    found = [x for x in X if x.k == k]
    return found[0] if found else None
def dictmerge__1(a, b):
    d = dict(a)
    d.update(b)
    return d
def dictmerge__2(a, b):
    return {**a, **b}
def dictmerge__no(a, b):
    return {**b, **a}
def ternary__1(a):
    if a is None:
        r = 0
    else:
        r = a.x
    return r
def ternary__2(a):
    return 0 if a is None else a.x
def ternary__3(a):
    r = 0
    if a is not None:
        r = a.x
    return r
def orchain__1(a):
    return a == 1 or a == 2
def orchain__2(a):
    return a in (1, 2)
def orchain__3(a):
    return a in {2, 1}
def fmtstr__1(a, b):
    return '%s: %s' % (a, b)
def fmtstr__2(a, b):
    return '{}: {}'.format(a, b)
def fmtstr__3(a, b):
    return f'{a}: {b}'
def fmtstr__no(a, b):
    return '%s: %s' % (b, a)
def whileidx__1(X):
    i = 0
    r = []
    while i < len(X):
        r.append(X[i].cp)
        i += 1
    return r
def whileidx__2(X):
    return [X[i].cp for i in range(len(X))]
def whileidx__3(X):
    return [x.cp for x in X]
def nestfor__1(X):
    r = []
    for x in X:
        for y in x.ys:
            if y.ok:
                r.append((x, y))
    return r
def nestfor__2(X):
    return [(x, y) for x in X for y in x.ys if y.ok]
def nestfor__3(X):
    r = []
    for x in X:
        good = [y for y in x.ys if y.ok]
        for y in good:
            r.append((x, y))
    return r
def nestfor__4(X):
    r = []
    for x in X:
        r.extend((x, y) for y in x.ys if y.ok)
    return r
def anyflag__1(X):
    f = False
    for x in X:
        if x.ok:
            f = True
    return f
def anyflag__2(X):
    return any(x.ok for x in X)
def anyflag__3(X):
    for x in X:
        if x.ok:
            return True
    return False
def anyflag__4(X):
    return bool([x for x in X if x.ok])
def anyflag__5(X):
    return len([x for x in X if x.ok]) > 0
def anyflag__no(X):
    return all(x.ok for x in X)
def chain__1(X, Y):
    for x in X:
        yield x
    for y in Y:
        yield y
def chain__2(X, Y):
    yield from X
    yield from Y
def chain__3(X, Y):
    for z in itertools.chain(X, Y):
        yield z
def chain__no(X, Y):
    yield from Y
    yield from X
def ctx__1(f):
    with open(f) as h:
        return h.read()
def ctx__no(f):
    h = open(f)
    return h.read()
def isinst__1(x):
    return isinstance(x, int) or isinstance(x, str)
def isinst__2(x):
    return isinstance(x, (int, str))
def lam__1(X):
    return sorted(X, key=lambda v: v.cp)
def lam__2(X):
    return sorted(X, key=operator.attrgetter('cp'))
def lam__3(X):
    r = list(X)
    r.sort(key=lambda v: v.cp)
    return r
def enum__1(X):
    for i, x in enumerate(X):
        if x.ok:
            return i
    return -1
def enum__2(X):
    for i in range(len(X)):
        if X[i].ok:
            return i
    return -1
def enum__3(X):
    i = 0
    for x in X:
        if x.ok:
            return i
        i += 1
    return -1
def zipd__1(K, V):
    return dict(zip(K, V))
def zipd__2(K, V):
    return {k: v for k, v in zip(K, V)}
def zipd__3(K, V):
    d = {}
    for k, v in zip(K, V):
        d[k] = v
    return d
def sliceall__1(X):
    return [x for x in X[1:]]
def sliceall__no(X):
    return [x for x in X]
def chaincmp__1(a, b, c):
    return a <= b <= c
def chaincmp__2(a, b, c):
    return not (b < a or c < b)
def chaincmp__3(a, b, c):
    return a <= b and b <= c
def strjoin__1(X):
    return ', '.join([str(x) for x in X])
def strjoin__2(X):
    return ', '.join(map(str, X))
def strjoin__3(X):
    return ', '.join('{}'.format(x) for x in X)
def kwcall__1(f, a):
    kw = {'x': a}
    f.run(**kw)
def kwcall__2(f, a):
    f.run(x=a)
def tupleret__1(a):
    return (a.x, a.y)
def tupleret__2(a):
    r = (a.x,)
    r += (a.y,)
    return r
def incr__1(self):
    self.n = self.n + 1
def incr__2(self):
    self.n += 1
def dictget__1(self, k):
    return self.d[k] if k in self.d else None
def dictget__2(self, k):
    return self.d.get(k)
def dictget__3(self, k):
    try:
        return self.d[k]
    except KeyError:
        return None
def setop__1(a, b):
    return set(a) - set(b)
def setop__2(a, b):
    return {x for x in a if x not in b}
def setop__3(a, b):
    return set(a).difference(b)
def subset__1(a, b):
    return a.issubset(b.s)
def subset__2(a, b):
    return a <= b.s
def subset__3(a, b):
    return all(x in b.s for x in a)
