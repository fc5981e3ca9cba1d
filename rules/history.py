"""Closed forms: what a sequence holds after loops have added to it or taken from it."""
from rules.stream import *


def single_exit(F, H):
    ks = [k for k in loops.exits(F, H) if not aborts(F, k)]
    return ks[0] if len(ks) == 1 else None


def tested(F, H):
    """(moving value, bound): the loop at H is left as soon as the value, which moves by one a round, gets to the bound"""
    k = single_exit(F, H)
    if k is None or any(not F.dominates(k[0], l[0]) for l in loops.latches(F, H)):
        return None
    stay = [(k[0], i) for i in range(len(k[0].succs)) if i != k[1] and F.E.get((k[0], i)) is not None]
    for p in F.at(H):
        s = F.steps(p)
        if not s or len(set(s[1])) != 1 or s[1][0].op != 'c' or s[1][0].args[0] not in (1, -1):
            continue
        d = s[1][0].args[0]
        for f in F.E[k]:
            g = f.args[0] if f.op == 'not' else f
            if g.op not in ('lt0', 'eq0'):
                continue
            co, c = lin(g.args[0])
            if abs(co.get(p, 0)) != 1:
                continue
            # where it stops: p = (everything else)
            m = co[p]
            rest = sub(g.args[0], scale(p, m))
            for off in ((0,) if g.op == 'eq0' else (0, -1, 1)):
                hi = scale(add(rest, C(off)), -m)
                if any(F.defnode[x] is H for x in walk(hi) if x.op == 'phi' and x in F.phis):
                    continue
                out = le(hi, p, True) if d > 0 else le(p, hi, True)
                go = lt(p, hi, True) if d > 0 else lt(hi, p, True)
                if g.op == 'eq0':
                    go = NOT(eq(p, hi))
                    out = eq(p, hi)
                if F._prove(out, frozenset(F.E[k]), 3, {}, k[0]) and \
                        all(F._prove(go, frozenset(F.E[q]), 3, {}, q[0]) for q in stay):
                    return p, hi, d
    return None


def is_dim(x):
    """a number of elements, rows or columns (never negative: see M04)"""
    if x.op == 'sel':
        return x.args[1] in DIMS
    return x.op in ('init', 'out') and x.args[-1].op == 'fld' and x.args[-1].args[1] in DIMS


DIMS = ('dim_', 'num_rows_', 'num_cols_')


def trips(F, H, extra=()):
    """number of rounds of the loop at H, or None"""
    t = tested(F, H)
    if t is None:
        return None
    p, hi, d = t
    lo = F.steps(p)[0]
    n = sub(hi, lo) if d > 0 else sub(lo, hi)
    for k in F.phis[p]:
        if k[0] not in F.loops()[H] and F.E.get(k) is not None:
            fs = frozenset(F.E[k]) | frozenset(extra) | {le(C(0), x, True) for x in lin(n)[0] if is_dim(x)}
            if not F._prove(le(C(0), n, True), fs, 3, {}, k[0]):
                return None
    return n


def invariant(F, v, body):
    return all(d not in body for d in F.defnodes(v))


def settled(F, x, extra=()):
    """the value of loop merge x when its loop has been left"""
    H = F.defnode[x]
    body = F.loops()[H]
    vs = {k: v for k, v in F.phis[x].items() if F.E.get(k) is not None}
    pre = {v for k, v in vs.items() if k[0] not in body}
    lat = {v for k, v in vs.items() if k[0] in body}
    if len(pre) != 1:
        return None
    init = pre.pop()
    if lat <= {x, init}:
        return init
    n = trips(F, H, extra)
    if n is None or len(lat) != 1:
        return None
    v = lat.pop()
    s = F.steps(x)
    if s and len(set(s[1])) == 1 and invariant(F, s[1][0], body):
        return add(init, mul(s[1][0], n))
    if v.op == 'popf' and v.args[0] is x:
        return T('erased', init, C(0), n)
    if v.op == 'erased' and v.args[0] is x and v.args[1] is C(0) and invariant(F, v.args[2], body):
        return T('erased', init, C(0), mul(v.args[2], n))
    if v.op != 'st' or v.args[0] is not x:
        return None
    if v.args[2].op == 'st' and v.args[2].args[0] is T('ld', x, v.args[1]) and invariant(F, v.args[1], body):
        # within one row
        r = written(F, H, body, n, T('ld', init, v.args[1]), v.args[2], None)
        return T('st', init, v.args[1], r) if r is not None else None
    return written(F, H, body, n, init, v, x)


def copy_of(v):
    """what v is a copy of"""
    def whole(k, x):
        if x.op == 'sel' and x.args[1] == k:
            return x.args[0]
        if x.op == 'init' and x.args[0].op == 'fld' and x.args[0].args[1] == k:
            return T('init', x.args[0].args[0])
    if v.op == 'agg':
        src = {whole(k, x) for k, x in v.args[1]}
        if len(src) == 1:
            return src.pop()
    return v if v.op == 'ld' else None


def written(F, H, body, n, init, v, x):
    """init after n rounds of writing v = st(x, index, value)"""

    def moving(t):
        a, b = {}, {}
        for p in walk(t):
            if p.op == 'phi' and p in F.phis and F.defnode[p] in body:
                q = F.steps(p)
                if F.defnode[p] is not H or not q or len(set(q[1])) != 1 or not invariant(F, q[1][0], body):
                    return None
                a[p], b[p] = q[0], add(p, q[1][0])
        d = sub(subst(t, b), t)
        return (subst(t, a), d.args[0]) if d.op == 'c' and d.args[0] in (0, 1, -1) else None
    at = moving(v.args[1])
    if at is None or at[1] == 0:
        return None
    lo = at[0] if at[1] == 1 else sub(at[0], sub(n, C(1)))
    X = v.args[2]
    if x is not None and at[1] == 1:
        # elements before the ones written stay as they were; copying the one just before repeats it
        m = {}
        for y in walk(X):
            if y.op == 'ld' and y.args[0] is x:
                if invariant(F, y.args[1], body):
                    d = sub(lo, y.args[1])
                    if d.op == 'c' and d.args[0] >= 1:
                        m[y] = T('ld', init, y.args[1])
                elif sub(v.args[1], y.args[1]) is C(1) and copy_of(X) is y:
                    m[y] = T('ld', init, sub(lo, C(1)))
        X = subst(X, m)
    if invariant(F, X, body):
        return T('rep', init, lo, n, X)

    def elem(X):
        return X.args if X.op == 'ld' else (T('init', X.args[0].args[0]), X.args[0].args[1]) \
            if X.op == 'init' and X.args[0].op == 'el' else None
    if X.op == 'sum':
        # what was there plus a multiple of another element at the same place
        me = T('ld', v.args[0], v.args[1])
        d, c = lin(X)
        if d.get(me) == 1 and len(d) == 2 and c == 0:
            (y, k), = [(y, k) for y, k in d.items() if y is not me]
            src = elem(y)
            if src and invariant(F, src[0], body):
                g = moving(src[1])
                if g is not None and g[1] == at[1] and sub(g[0], at[0]) is C(0):
                    return T('axpyn', init, C(k), src[0], lo, n)
    src = elem(X)
    if src and invariant(F, src[0], body):
        g = moving(src[1])
        if g is not None and g[1] == at[1]:
            return T('put', init, lo, n, T('slice', src[0], g[0] if at[1] == 1 else sub(g[0], sub(n, C(1))), n))
    return None


def closed(F, t, node, extra=()):
    """t, used at `node`, with the loops that are over by then summed up"""
    for _ in range(12):
        t = norm(F, t)
        m = {}
        for x in walk(t):
            if x.op == 'phi' and x in F.phis and F.defnode[x] in F.loops() and node not in F.loops()[F.defnode[x]]:
                v = settled(F, x, extra)
                if v is not None:
                    m[x] = v
        if not m:
            return t
        # the outermost first: what they are made of follows
        top = {x for x in m if not any(x is not y and x in walk(m[y]) for y in m)} or set(m)
        t = subst(t, {x: m[x] for x in top})
    return t


def split(F, ts, node, R=None, extra=(), deep=False):
    """the cases of ts at node, closed"""
    cs = cases(F, ts, node, R=R, deep=deep, extra=extra)
    if cs is None:
        return None
    out, todo = [], [(t, fs, 0) for t, fs in cs]
    while todo:
        t, fs, k = todo.pop()
        u = tuple(closed(F, x, node, fs) for x in t)
        if k < 3 and any(a is not b for a, b in zip(t, u)):
            # what went into the loops may be merged itself
            heads = {x for a in u for x in walk(a) if x.op == 'phi' and x in F.phis and F.defnode[x] in F.loops()}
            more = cases(F, u, node, R=R, deep=deep, extra=fs, keep=heads)
            if more is None:
                return None
            todo += [(v, gs, k + 1) for v, gs in more]
        else:
            out.append((u, fs))
    return out


def same(a, b):
    return a is b or sub(a, b) is C(0)


def queue(F, data, size, d0, s0, whole=None):
    """what was done to a sequence (d0, s0) that is now (data, size): ([(number, value)] added behind, number taken
    from the front), or None when something else happened"""
    segs, drop = [], [C(0)]
    while data.op == 'put' and data.args[1] is C(0) and size is not None and same(data.args[2], size) and \
            data.args[3].op in ('slice', 'put', 'resz'):
        data = data.args[3]

    def total():
        n = s0
        for k, v in segs:
            n = add(n, k)
        return n

    def go(d):
        if d is d0:
            return True
        if d.op == 'copied':
            return go(d.args[0])
        if d.op == 'st':
            if not go(d.args[0]) or not same(add(d.args[1], drop[0]), total()):
                return False
            segs.append((C(1), d.args[2]))
        elif d.op == 'rep':
            if not go(d.args[0]) or not same(add(d.args[1], drop[0]), total()):
                return False
            segs.append((d.args[2], d.args[3]))
        elif d.op == 'ins':
            if not go(d.args[0]) or not same(add(d.args[1], drop[0]), total()):
                return False
            segs.append((d.args[3], T('from', d.args[2])))
        elif d.op == 'put':
            if not go(d.args[0]) or not same(add(d.args[1], drop[0]), total()):
                return False
            segs.append((d.args[2], d.args[3]))
        elif d.op == 'resz':
            return go(d.args[0])
        elif d.op == 'popf':
            if not go(d.args[0]):
                return False
            drop[0] = add(drop[0], C(1))
        elif d.op == 'erased' and d.args[1] is C(0):
            if not go(d.args[0]):
                return False
            drop[0] = add(drop[0], d.args[2])
        elif d.op == 'slice':
            if not go(d.args[0]):
                return False
            drop[0] = add(drop[0], d.args[1])
        else:
            return False
        return True
    if not go(data):
        return None
    if size is not None and not same(size, sub(total(), drop[0])):
        return None
    out = []
    for n, v in segs:
        if n is C(0):
            continue
        if out and out[-1][1] is v:
            out[-1] = (add(out[-1][0], n), v)
        else:
            out.append((n, v))
    return out, drop[0]
