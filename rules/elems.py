"""What becomes of one element of a vector or matrix, as a term over the elements there were.

J (and I for the row) name the element looked at; inside a sum or maximum over a whole row the elements
are named K. Loops are accepted when they treat every index once; branches give alternatives."""
from rules.common import *
from rules.cases import *
from rules import loops

I, J, K = T('sym', 'i'), T('sym', 'j'), T('sym', 'k')
OTHERWISE = 24


class Unclear(Exception):
    pass


def at(v, *idx):
    """the element of a content"""
    if v.op == 'fill':
        return v.args[0]
    return T('at', v, *idx)


class Elems:
    def __init__(self, F, n, rows=None, isvec=None, bufs=()):
        """n: elements of a row; rows: number of rows, or None for a single vector"""
        self.F, self.n, self.rows = F, n, rows
        self.isvec = isvec or (lambda b: True)
        self.bufs = bufs
        self.sums = {}
        self.memo = {}

    # -- contents
    def el(self, v, idx=J, env=()):
        """[(element, facts)] of content v"""
        for a, b in env:
            if a is v:
                return [(renamed(x, idx), frozenset(renamed(f, idx) for f in fs)) for x, fs in b]
        F = self.F
        if v.op == 'phi' and v in F.phis and F.defnode[v] in F.loops():
            key = (v, idx)
            if key not in self.memo:
                self.memo[key] = None
                self.memo[key] = self.loop(v, idx, env)
            if self.memo[key] is None:
                raise Unclear('the elements are computed from themselves')
            return self.memo[key]
        if v.op == 'phi' and v in F.phis:
            return many([self.el(x, idx, env) for x in {norm(F, x) for k, x in F.phis[v].items() if F.E.get(k) is not None}])
        if v.op == 'ite':
            return many([self.el(v.args[1], idx, env), self.el(v.args[2], idx, env)])
        if v.op == 'memset' and v.args[1] is C(0):
            return [(C(0), frozenset())]
        if self.rows is None:
            return [(at(v, idx), frozenset())]
        return [(at(v, I, idx), frozenset())]

    def loop(self, v, idx, env):
        F = self.F
        H = F.defnode[v]
        body = F.loops()[H]
        pre = {norm(F, x) for k, x in F.phis[v].items() if k[0] not in body and F.E.get(k) is not None}
        if len(pre) != 1:
            raise Unclear('what the elements were before depends on the way taken')
        before = self.el(pre.pop(), J, env)
        before = tuple(before)
        env = env + ((v, before),)
        out = []
        for k in loops.latches(F, H):
            cs = cases(F, (F.phis[v][k],), k[0])
            if not cs:
                raise Unclear('a round of the loop could not be followed')
            done, same_ = [], []
            for (w,), fs in cs:
                if w is v:
                    same_.append(fs)
                else:
                    done.append((w, fs))
            ix = {}
            for w, fs in done:
                out += self.written(v, w, fs, idx, env, H, ix)
            for fs in same_:
                for x, g in before:
                    out += [(renamed(x, idx), frozenset(renamed(y, idx) for y in g) | h) for h in self.facts(fs, ix, idx, env)]
        return merged(out)

    def written(self, v, w, fs, idx, env, H, ix):
        """w is the content v had at the start of the round, with something written"""
        F = self.F
        if w.op == 'phi' and w in F.phis and F.defnode[w] in F.loops():
            r = []
            for x, g in self.el(w, idx, env):
                r += [(x, g | h) for h in self.facts(fs, self.known(env, ix), idx, env)]
            return r
        if w.op != 'st':
            raise Unclear('it is replaced by %s' % show(w)[:60])
        if w.args[0] is not v:
            # several writes of one round: all of the same element
            inner = self.written(v, w.args[0], fs, idx, env, H, ix)
            if norm(F, w.args[0].args[1]) is not norm(F, w.args[1]):
                raise Unclear('several elements are written in one round')
            env = env + ((w.args[0], tuple(inner)),)
        i, e = norm(F, w.args[1]), w.args[2]
        if self.rows is not None:
            self.counted(i, self.rows, H, ix, I)
            if e.op == 'st' and e.args[0].op == 'ld':
                self.counted(norm(F, e.args[1]), self.n, H, ix, J)
                e = e.args[2]
                return self.of(e, fs, ix, idx, env)
            r = []
            for x, g in self.row(e, ix, idx, env):
                r += [(x, g | h) for h in self.facts(fs, ix, idx, env)]
            return r
        self.counted(i, self.n, H, ix, J)
        return self.of(e, fs, ix, idx, env)

    def known(self, env, ix):
        return ix

    def of(self, e, fs, ix, idx, env):
        return [(x, h) for x in self.tr(e, ix, idx, env) for h in self.facts(fs, ix, idx, env)]

    def counted(self, i, n, H, ix, name):
        """i takes every index of [0, n) in the loop it belongs to"""
        F = self.F
        p = loops.header_phi(F, i)
        if p is None:
            raise Unclear('the index %s is not counted' % show(i)[:40])
        if i in ix:
            return
        for k in loops.latches(F, F.defnode[p[0]]):
            why = loops.covers(F, k[0], i, C(0), n, lambda x: loops.aborts(F, x))
            if why:
                raise Unclear('the loop over the elements ' + why)
        ix[i] = name

    # -- rows of a matrix
    def row(self, e, ix, idx, env):
        """[(element, facts)] of a row value"""
        if e.op == 'ld':
            return self.el(e.args[0], idx, env)
        if e.op == 'axpy':
            return [(add(x, mul(a, self.vec(e.args[2], idx))), g) for x, g in self.row(e.args[0], ix, idx, env)
                    for a in self.tr(e.args[1], ix, idx, env)]
        if e.op == 'map':
            r = []
            for x, g in self.row(e.args[1], ix, idx, env):
                if e.args[0] in ('Scale', 'Add'):
                    for a in self.tr(e.args[2], ix, idx, env):
                        r.append(((mul if e.args[0] == 'Scale' else add)(x, a), g))
                elif e.args[0] == 'MulElements':
                    r.append((mul(x, self.vec(e.args[2], idx)), g))
                else:
                    r.append((T('op', e.args[0], x, *[y for a in e.args[2:] for y in self.tr(a, ix, idx, env)]), g))
            return r
        if e.op == 'fill':
            return [(e.args[0], frozenset())]
        raise Unclear('a row becomes %s' % show(e)[:60])

    def vec(self, v, idx):
        return at(v, idx)

    # -- terms
    def facts(self, fs, ix, idx, env):
        """[facts] with elements named"""
        out = [frozenset()]
        for f in fs:
            if not any(x.op in ('ld', 'phi') or x.op == 'init' and x.args[0].op == 'el' for x in walk(f)):
                out = [o | {f} for o in out]
                continue
            try:
                ts = self.tr(f, ix, idx, env)
            except Unclear:
                continue
            out = [o | {t} for o in out for t in ts][:OTHERWISE]
        return out

    def tr(self, t, ix, idx, env):
        """[term]: t with the elements it is computed from named"""
        F = self.F
        todo, outs = [norm(F, t)], []
        n = 0
        while todo:
            x = todo.pop()
            n += 1
            if n > 200:
                raise Unclear('too many cases')
            m = self.next(x, ix)
            if m is None:
                outs.append(subst(x, {i: {J: idx}.get(s, s) for i, s in ix.items()}))
                continue
            for y in self.value(m, ix, idx, env):
                todo.append(subst(x, {m: y}))
        return list(dict.fromkeys(outs))

    def next(self, x, ix):
        """a part of x that is still to be named, outermost first"""
        if not isinstance(x, Term):
            return None
        if x.op in ('at', 'Sum', 'Max', 'sym'):
            return None
        if x.op == 'init' and x.args[0].op == 'deref' and T('buf', x.args[0].args[0]) in self.bufs:
            return x
        if x.op == 'ld' or x.op == 'init' and x.args[0].op == 'el' and self.isvec(x.args[0].args[0]):
            return x
        if x.op == 'phi' and x not in ix and x in self.F.phis and self.F.defnode[x] in self.F.loops():
            return x
        def inner(a):
            if isinstance(a, tuple):
                for b in a:
                    m = inner(b)
                    if m is not None:
                        return m
                return None
            return self.next(a, ix)
        return inner(x.args)

    def value(self, m, ix, idx, env):
        F = self.F
        if m.op == 'phi':
            return [self.reduction(m, env)]
        if m.op == 'init' and m.args[0].op == 'deref':
            return [T('at', T('init', T('buf', m.args[0].args[0])), C(0))]
        if m.op == 'init':
            i = norm(F, m.args[0].args[1])
            return [T('at', T('init', m.args[0].args[0]), self.named(i, ix, idx))]
        v, i = m.args[0], norm(F, m.args[1])
        if self.rows is not None and v.op == 'ld':
            if self.named(norm(F, v.args[1]), ix, I, self.rows) is not I:
                raise Unclear('an element of another row is used')
            return [x for x, _ in self.el(v.args[0], self.named(i, ix, idx), env)]
        if self.rows is not None and v.op == 'init':
            return [T('at', v, self.named(i, ix, idx))]
        return [x for x, _ in self.el(v, self.named(i, ix, idx), env)]

    def named(self, i, ix, idx, n=None):
        if i is C(0):
            return i
        s = ix.get(i)
        if s is None and loops.header_phi(self.F, i) is not None:
            self.counted(i, n if n is not None else self.n, None, ix, I if n is not None and n is self.rows else J)
            s = ix[i]
        if s is None:
            raise Unclear('an element is taken at %s' % show(i)[:40])
        return idx if s is J else s

    # -- sums and maxima over the elements
    def reduction(self, s, env):
        key = (s, env)
        if key not in self.sums:
            self.sums[key] = self.reduced(s, env)
        return self.sums[key]

    def reduced(self, s, env):
        F = self.F
        H = F.defnode[s]
        body = F.loops()[H]
        pre = {norm(F, x) for k, x in F.phis[s].items() if k[0] not in body and F.E.get(k) is not None}
        ks = loops.latches(F, H)
        if len(pre) != 1 or len(ks) != 1:
            raise Unclear('%s is not a sum over the elements' % show(s)[:40])
        pre, k = pre.pop(), ks[0]
        cs = cases(F, (F.phis[s][k],), k[0]) or []
        ts = {w for (w,), fs in cs}
        if len(ts) == 1:
            t = sub(next(iter(ts)), s)
            if s not in walk(t) and pre is C(0):
                ix = {}
                env = self.inside(H, env)
                r = self.tr(t, ix, K, env)
                if len(r) == 1 and J in ix.values():
                    return T('Sum', r[0])
                raise Unclear('the sum has several cases')
        # a maximum
        ws = {x for w in ts for x in (w.args if w.op == 'max' else (w,))} - {s}
        if len(ws) == 1:
            x = ws.pop()
            if x.op in ('ld', 'init'):
                i = norm(F, x.args[1] if x.op == 'ld' else x.args[0].args[1])
                ix = {}
                lo, first = C(0), None
                if loops.header_phi(F, i) is not None and not loops.covers(F, k[0], i, C(1), self.n, lambda e: loops.aborts(F, e)):
                    ix[i], lo = J, C(1)
                r = self.tr(x, ix, K, self.inside(H, env))
                if len(r) != 1:
                    raise Unclear('the maximum has several cases')
                if lo is C(1):
                    begin = [y for y in F.phis[s] if y[0] not in body and F.E.get(y) is not None]
                    ws = [(w, fs) for y in begin for (w,), fs in cases(F, (F.phis[s][y],), y[0], extra=F.E[y]) or ()]
                    first = [q for w, fs in ws if not F._prove(le(self.n, C(0), True), frozenset(fs), 3, {}, H)
                             for q in self.tr(w, {}, K, env)]
                    if set(first) != {subst(r[0], {K: C(0)})}:
                        raise Unclear('the first element does not count')
                elif not (pre.op == 'c' and not pre.args[0] > -3e38):
                    first = eq(i, C(0))
                    if not self.takes(H, s, k, [first], x):
                        raise Unclear('the first element does not count')
                rest = [NOT(eq(i, C(0)))] if first is not None and lo is C(0) else []
                if self.takes(H, s, k, rest + [lt(s, x, False)], x) and self.takes(H, s, k, rest + [lt(x, s, False)], s):
                    return T('Max', r[0])
        raise Unclear('%s is not computed over all elements' % show(s)[:40])

    def inside(self, H, env):
        """the contents in a loop as they were before its round"""
        F = self.F
        for v in F.phis:
            if F.defnode[v] is H and self.content(v) and not any(a is v for a, _ in env):
                body = F.loops()[H]
                pre = {norm(F, x) for k, x in F.phis[v].items() if k[0] not in body and F.E.get(k) is not None}
                if len(pre) == 1:
                    env = env + ((v, tuple(self.el(pre.pop(), J, env))),)
        return env

    def content(self, v):
        l = v.args[1]
        return l.op == 'buf' or l.op == 'fld' and l.args[1] == '#v'

    def takes(self, H, s, k, given, want):
        F = self.F
        R = F.assume(H, given)
        if k[0] not in R.nodes:
            return False
        cs = cases(F, (F.phis[s][k],), k[0], R=R) or []
        out = set()
        for (w,), fs in cs:
            if w.op == 'max':
                a, b = w.args
                w = next((y for y, z in ((a, b), (b, a)) if F._prove(le(z, y, False), frozenset(fs) | set(given), 3, {}, k[0])), w)
            out.add(w)
        return out == {want}


def renamed(x, idx):
    return x if idx is J else subst(x, {J: idx})


def many(ls):
    return merged([x for l in ls for x in l])


def merged(out):
    return list(dict.fromkeys(out))
