"""Hash-consed value terms and their algebraic normal form."""


class Term:
    __slots__ = ('op', 'args', 'id', '_deps', '_atoms')

    def __init__(self, op, args, i):
        self.op, self.args, self.id = op, args, i
        self._deps = None
        self._atoms = None

    def __repr__(self):
        return show(self)


_tab = {}


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = Term(op, args, len(_tab))
    return t


NULL = T('null')
OK = T('ok')


def C(n):
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, float) and n == n and abs(n) < 1e15 and n == int(n):
        n = int(n)
    return T('c', n)


TRUE, FALSE = C(1), C(0)


def is_c(t):
    return t.op == 'c'


# ---- sums: T('sum', ((atom, coef), ...) sorted by id, const) -----------------

def lin(t):
    """-> (dict atom->coef, const)"""
    if t.op == 'c':
        return {}, t.args[0]
    if t.op == 'sum':
        return dict(t.args[0]), t.args[1]
    return {t: 1}, 0


def unlin(d, k):
    d = {a: c for a, c in d.items() if c != 0}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1:
            return a
    return T('sum', tuple(sorted(d.items(), key=lambda x: x[0].id)), k)


def add(a, b, kb=1):
    if a.op == 'c' and b.op == 'c':
        return C(a.args[0] + kb * b.args[0])
    da, ka = lin(a)
    db, k2 = lin(b)
    for x, c in db.items():
        da[x] = da.get(x, 0) + kb * c
    return unlin(da, ka + kb * k2)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if a.op == 'c':
        return C(a.args[0] * k)
    d, c = lin(a)
    return unlin({x: v * k for x, v in d.items()}, c * k)


def mul(a, b):
    if a.op == 'c':
        return scale(b, a.args[0])
    if b.op == 'c':
        return scale(a, b.args[0])
    da, ka = lin(a)
    db, kb = lin(b)
    # pull a common negative unit out so that x*(-y) == -(x*y)
    if len(da) * len(db) <= 16:
        out = C(ka * kb)
        for x, c in da.items():
            if kb:
                out = add(out, scale(x, c * kb))
            for y, e in db.items():
                out = add(out, scale(_mono(x, y), c * e))
        if ka:
            for y, e in db.items():
                out = add(out, scale(y, e * ka))
        return out
    return T('mul', *sorted((a, b), key=lambda t: t.id))


def _mono(x, y):
    fs = []
    for t in (x, y):
        fs += list(t.args) if t.op == 'mul' else [t]
    return T('mul', *sorted(fs, key=lambda t: t.id))


def neg(t):
    return scale(t, -1)


# ---- comparisons -------------------------------------------------------------

def nan(a):
    return a.op == 'fn' and a.args[0] == 'nan' or lin(a)[1] != lin(a)[1]


def lt(a, b, integer):
    if nan(a) or nan(b):
        return FALSE
    d = sub(a, b)
    if d.op == 'c':
        return C(d.args[0] < 0)
    r = boolean(d, lambda x: x < 0)
    if r is not None:
        return r
    return T('lt0', d, integer)


def boolean(d, test):
    """test(d) for a linear term over one truth value"""
    if d.op != 'sum' and d.op not in BOOLS:
        return None
    dd, k = lin(d)
    if len(dd) != 1:
        return None
    (a, c), = dd.items()
    if a.op not in BOOLS:
        return None
    off, on = test(k), test(k + c)
    if off == on:
        return C(off)
    return a if on else NOT(a)


BOOLS = ('lt0', 'le0', 'eq', 'eq0', 'not')


def le(a, b, integer):
    if integer:
        return lt(a, add(b, C(1)), True)
    if nan(a) or nan(b):
        return FALSE
    d = sub(a, b)
    if d.op == 'c':
        return C(d.args[0] <= 0)
    return T('le0', d, False)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return C(a.args[0] == b.args[0])
    if a.op == 'str' and b.op == 'str':
        return C(a.args[0] == b.args[0])
    if (a is NULL and nonnull_shape(b)) or (b is NULL and nonnull_shape(a)):
        return FALSE
    if a.op in ('ok', 'fail') and b.op in ('ok', 'fail') and a.op != b.op:
        return FALSE
    if a is NULL or b is NULL or {a.op, b.op} & {'str', 'agg', 'ok', 'fail'}:
        x, y = sorted((a, b), key=lambda t: t.id)
        return T('eq', x, y)
    d = sub(a, b)
    if d.op == 'c':
        return C(d.args[0] == 0)
    r = boolean(d, lambda x: x == 0)
    if r is not None:
        return r
    dd, k = lin(d)
    first = min(dd, key=lambda t: t.id)
    if dd[first] < 0:
        d = neg(d)
    return T('eq0', d)


def nonnull_shape(t):
    return t.op in ('addr', 'new', 'str', 'func') or (t.op == 'sum' and any(
        a.op in ('addr', 'new') for a, _ in t.args[0]))


def NOT(t):
    if t.op == 'c':
        return C(not t.args[0])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'lt0' and t.args[1]:
        # !(d < 0)  <=>  -d - 1 < 0
        return T('lt0', add(neg(t.args[0]), C(-1)), True)
    return T('not', t)


def ITE(c, a, b):
    if c.op == 'c':
        return a if c.args[0] else b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if c.op == 'not':
        return ITE(c.args[0], b, a)
    return T('ite', c, a, b)


def truth(t):
    """t used as a condition."""
    if t.op in ('lt0', 'le0', 'eq', 'eq0', 'not', 'isok'):
        return t
    if t.op == 'c':
        return C(t.args[0] != 0)
    if t.op == 'ite':
        return ITE(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t is NULL:
        return FALSE
    if nonnull_shape(t):
        return TRUE
    if t.op in ('phi', 'res', 'init', 'sel', 'out', 'm', 'elt', 'fn', 'other'):
        return t          # boolean valued atom (or int tested for non-zero)
    return NOT(eq(t, C(0)))


def isok(v):
    if v is OK:
        return TRUE
    if v.op == 'fail':
        return FALSE
    if v.op == 'ite':
        return ITE(v.args[0], isok(v.args[1]), isok(v.args[2]))
    return T('isok', v)


# ---- generic traversal -------------------------------------------------------

ATOMIC = ('phi', 'res', 'out', 'new', 'undef', 'var', 'tmp', 'ret', 'fail')


def children(t):
    if t.op in ATOMIC:
        return []
    if t.op == 'sum':
        return [a for a, _ in t.args[0]]
    out = []
    for a in t.args:
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Term):
                    out.append(x)
                elif isinstance(x, tuple):
                    out += [y for y in x if isinstance(y, Term)]
    return out


def walk(t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += children(x)
    return seen


def subst(t, m, memo=None):
    """Replace terms by m (Term->Term), renormalising."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    r = t
    if t.op == 'sum':
        r = C(t.args[1])
        for a, c in t.args[0]:
            r = add(r, scale(subst(a, m, memo), c))
    elif any(True for _ in children(t)):
        na = []
        ch = False
        for a in t.args:
            if isinstance(a, Term):
                b = subst(a, m, memo)
                ch |= b is not a
                na.append(b)
            elif isinstance(a, tuple):
                b = tuple(subst(x, m, memo) if isinstance(x, Term) else
                          (tuple(subst(y, m, memo) if isinstance(y, Term) else y for y in x)
                           if isinstance(x, tuple) else x) for x in a)
                ch |= b != a
                na.append(b)
            else:
                na.append(a)
        if ch:
            r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'mul':
        r = C(1)
        for x in a:
            r = mul(r, x)
        return r
    if op == 'lt0':
        return lt(a[0], C(0), a[1])
    if op == 'le0':
        return le(a[0], C(0), a[1])
    if op == 'eq0':
        return eq(a[0], C(0))
    if op == 'eq':
        return eq(a[0], a[1])
    if op == 'not':
        return NOT(truth(a[0]))
    if op == 'ite':
        return ITE(truth(a[0]), a[1], a[2])
    if op == 'isok':
        return isok(a[0])
    if op == 'deref':
        return deref(a[0])
    if op == 'el':
        return el(a[0], a[1])
    if op == 'sel':
        return sel(a[0], a[1])
    if op == 'fn':
        return fn(*a)
    if op == 'ld' and len(a) == 2 and hasattr(a[0], 'op') and hasattr(a[1], 'op'):
        return ld(a[0], a[1])
    return T(op, *a)


def ld(arr, i):
    """the element of an array value at an index"""
    while arr.op == 'st':
        a, j, v = arr.args
        if j is i:
            return v
        d = sub(j, i) if j.op != 'key' and i.op != 'key' else None
        if d is not None and d.op == 'c' and d.args[0] != 0:
            arr = a
            continue
        break
    if arr.op == 'init':
        return T('init', T('el', arr.args[0], i))
    if arr.op == 'agg' and i.op == 'c' and arr.args[0].op == 'list':
        for k, x in arr.args[1]:
            if k == '#%d' % i.args[0]:
                return x
    if arr.op == 'fill':
        return arr.args[0]
    if arr.op == 'list' and i.op == 'c' and 0 <= i.args[0] < len(arr.args):
        return arr.args[i.args[0]]
    return T('ld', arr, i)


def fn(name, *a):
    """a function of the standard library without effects; tests of constants are folded"""
    if len(a) == 1 and isinstance(a[0], Term) and a[0].op == 'c' and name in ('isfinite', 'isnan', 'isinf'):
        import math
        return TRUE if getattr(math, name)(a[0].args[0]) else FALSE
    return T('fn', name, *a)


# ---- locations ---------------------------------------------------------------

def fld(loc, name):
    return T('fld', loc, name)


def el(loc, idx):
    if loc.op == 'view':
        return el(loc.args[0], add(loc.args[1], idx))
    return T('el', loc, idx)


def addr(loc):
    if loc.op == 'deref':
        return loc.args[0]
    if loc.op == 'el' and loc.args[1] is not C(0) and loc.args[1].op != 'pair':
        return add(T('addr', el(loc.args[0], C(0))), loc.args[1])
    return T('addr', loc)


def deref(p):
    if p.op == 'addr':
        return p.args[0]
    if p.op == 'sum':
        d, k = lin(p)
        for a, c in d.items():
            if c == 1 and a.op == 'addr' and a.args[0].op == 'el':
                rest = dict(d)
                del rest[a]
                e = a.args[0]
                return el(e.args[0], add(e.args[1], unlin(rest, k)))
    return T('deref', p)


def sel(v, f):
    if v.op == 'agg':
        for k, x in v.args[1]:
            if k == f:
                return x
        return sel(v.args[0], f)
    if v.op == 'init':
        return T('init', fld(v.args[0], f))
    if v.op == 'ite':
        return ITE(v.args[0], sel(v.args[1], f), sel(v.args[2], f))
    return T('sel', v, f)


def root(loc):
    while loc.op in ('fld', 'el', 'view'):
        loc = loc.args[0]
    return loc


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 7:
        return '..'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == 'c':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'null':
        return 'null'
    if op == 'sum':
        out = []
        for x, c in a[0]:
            out.append(s(x) if c == 1 else '%s*%s' % (c, s(x)))
        if a[1]:
            out.append(str(a[1]))
        return '(' + ' + '.join(out) + ')'
    if op == 'mul':
        return '*'.join(s(x) for x in a)
    if op == 'var':
        return '%s' % (a[2],) if len(a) > 2 else 'v%s' % a[1]
    if op == 'glob':
        return a[0]
    if op == 'fld':
        return s(a[0]) + '.' + a[1]
    if op == 'el':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'deref':
        return '*(' + s(a[0]) + ')'
    if op == 'init':
        return s(a[0]) + "'0"
    if op == 'lt0':
        return s(a[0]) + '<0'
    if op == 'eq0':
        return s(a[0]) + '==0'
    if op == 'eq':
        return s(a[0]) + '==' + s(a[1])
    if op == 'not':
        return '!' + s(a[0])
    if op == 'phi':
        return 'phi%s{%s}' % (a[0], s(a[1]))
    if op in ('res', 'out', 'new', 'undef', 'tmp'):
        return '%s@%s%s' % (op, a[0].name if hasattr(a[0], 'name') else a[0],
                            ''.join('/' + s(x) for x in a[1:]))
    return op + '(' + ', '.join(s(x) if isinstance(x, Term) else
                                ('{%s}' % ', '.join('%s:%s' % (k, s(v)) for k, v in x)
                                 if isinstance(x, tuple) and op == 'agg' else str(x))
                                for x in a) + ')'
