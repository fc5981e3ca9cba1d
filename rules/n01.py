"""Every layer defines its whole output from its input, and the layers are applied in file order."""
from rules.history import *
from algebra import SUMMARY
from flow import bare


def run(ctx):
    ctx.rule('shape', 'the shape of what a layer gives follows from its input and parameters', 8)
    ctx.rule('rows', 'every row of the output is defined, from its own row of the input', 8)
    ctx.rule('context', 'a context layer takes the frames at its offsets, clamped to the chunk', 1)
    ctx.rule('uses', 'every parameter of a layer enters its output', 4)
    ctx.rule('input', 'a layer leaves its input and its parameters as they are', 8)
    ctx.rule('order', 'the layers are applied once each, in order, each to the output before it', 3)
    ctx.rule('file', 'each layer of the file is kept once, at its place', 3)
    over = set()
    for f in ctx.ours():
        if f['n'].endswith('::Propagate') and any('5Layer9Propagate' in o for o in f.get('overrides', ())):
            over.add(f['key'])
    for k in sorted(over):
        layer(ctx, ctx.prog.functions[k])
    order(ctx)
    order_file(ctx)


class Bad(Exception):
    pass


class Layer:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.F = F = ctx.flow(f, key='n01', extra=SUMMARY)
        self.inn, self.out = F.paramobj(0), F.paramobj(1)
        self.rows = T('init', fld(self.inn, 'num_rows_'))
        self.cols = T('init', fld(self.inn, 'num_cols_'))
        self.v = T('init', fld(self.inn, '#v'))
        self.me = F.field('x').args[0]
        self.chain = set()

    # -- the way an output came about
    def content(self, v, r, c, fs):
        """how often and from what every row of v is written: (base, [update])"""
        F = self.F
        ups = []
        self.chain = {v}
        while v.op == 'phi' and F.defnode.get(v) in F.loops():
            self.chain.add(v)
            H = F.defnode[v]
            body = F.loops()[H]
            pre = {x for k, x in F.phis[v].items() if k[0] not in body and F.E.get(k) is not None}
            if len(pre) != 1:
                raise Bad('what the rows are before the loop depends on the way taken')
            for k, x in F.phis[v].items():
                if k[0] in body and F.E.get(k) is not None:
                    self.writes(v, closed(F, x, k[0]), k[0], body, ups, set())
            v = pre.pop()
        return v, ups

    def writes(self, v, x, node, body, ups, seen):
        F = self.F
        if x is v or (x, node) in seen:
            return
        seen.add((x, node))
        self.chain.add(x)
        if x.op == 'st':
            if not any(u[2] is x for u in ups):
                ups.append((norm(F, x.args[1]), x.args[2], x, node))
            self.writes(v, x.args[0], node, body, ups, seen)
        elif x.op == 'phi' and F.defnode.get(x) in body:
            for k, y in F.phis[x].items():
                if F.E.get(k) is not None:
                    self.writes(v, closed(F, y, k[0]), k[0], body, ups, seen)
        elif x.op == 'ite':
            self.writes(v, x.args[1], node, body, ups, seen)
            self.writes(v, x.args[2], node, body, ups, seen)
        else:
            raise Bad('the output is replaced while its rows are filled')

    def atoms(self, t, node, out=None, seen=None):
        """what t is computed from"""
        F = self.F
        out = set() if out is None else out
        seen = set() if seen is None else seen
        todo = [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                for k, y in F.phis.get(x, {}).items():
                    todo.append(y)
                if x not in F.phis:
                    out.add(x)
            elif x.op in ('init', 'undef', 'fresh', 'out', 'res', 'new'):
                out.add(x)
            elif x.op == 'ld' and self.matrix(x.args[0]):
                out.add(x)
                todo.append(x.args[1])
            else:
                todo += [y for y in x.args if isinstance(y, Term)]
                todo += [z for y in x.args if isinstance(y, tuple) for w in y for z in (w if isinstance(w, tuple) else (w,))
                         if isinstance(z, Term)]
        return out

    def matrix(self, x):
        """x is the output while it is being built"""
        while x.op == 'st':
            x = x.args[0]
        return x in self.chain

    def param(self, x):
        """the field of the layer an initial value comes from"""
        if x.op != 'init':
            return None
        l = x.args[0]
        n = None
        while l is not self.me:
            if l.op not in ('fld', 'el', 'deref'):
                return None
            if l.op == 'deref':
                l = l.args[0]
                if l.op != 'init':
                    return None
                l = l.args[0]
                continue
            n = l.args[1] if l.op == 'fld' else n
            l = l.args[0]
        return n

    def ofinput(self, x):
        return x.op == 'init' and x.args[0] in (fld(self.inn, 'num_rows_'), fld(self.inn, 'num_cols_'), fld(self.inn, '#v')) or \
            x.op == 'init' and x.args[0].op == 'el' and x.args[0].args[0] is fld(self.inn, '#v') or \
            x is T('init', self.inn)


def nest(F, node, want, conditional=False):
    """each (index, low, high) of `want` is counted through completely by one of the loops around node"""
    hs = loops.rounds(F, node)
    left = list(want)
    for i, h in enumerate(hs):
        at = node if i == 0 and not conditional else h if i == 0 else hs[i - 1]
        for w in left:
            p = loops.header_phi(F, w[0])
            if p is not None and F.defnode[p[0]] is h:
                why = loops.covers(F, at, w[0], w[1], w[2], lambda k: aborts(F, k))
                if why:
                    return why
                left.remove(w)
                break
        else:
            return 'runs over something else'
    for w in left:
        why = loops.covers(F, node, *w)
        if why:
            return why
    return ''


def layer(ctx, f):
    L = Layer(ctx, f)
    F, n = L.F, short(f).split('::')[0]
    out = L.out
    terms = (F.final(fld(out, 'num_rows_')), F.final(fld(out, 'num_cols_')), F.final(fld(out, '#v')))
    cs = cases(F, terms, F.exit)
    if not ctx.check('shape', n, bool(cs), f['loc'], 'what the layer gives could not be followed'):
        return
    used = set()
    for (r, c, v), fs in cs:
        known = frozenset(fs)
        same_ = lambda a, b: same(norm(F, a), norm(F, b)) or F._prove(eq(a, b), known, 3, {}, F.exit)
        if same_(r, C(0)) and v.op == 'fill':
            none = any(F._prove(eq(x, C(0)), known, 3, {}, F.exit) for x in (L.rows, L.cols)) or \
                emptied(F, L, known)
            ctx.check('shape', n + '/empty', none, f['loc'], 'the output is empty though the input is not')
            continue
        for t, what in ((r, 'number of rows'), (c, 'number of columns')):
            bad = [x for x in L.atoms(norm(F, t), F.exit) if not (L.ofinput(x) or L.param(x))]
            ctx.check('shape', n + '/from', not bad, f['loc'], 'the %s does not follow from the input: %s' % (what, show(t)[:80]))
            used |= {L.param(x) for x in L.atoms(t, F.exit)} - {None}
        try:
            base, ups = L.content(v, r, c, known)
            whole = definition(ctx, L, n, base, r, c, same_, known, used)
            done = [update(ctx, L, n, u, r, c, base, used) for u in ups]
            if not whole and not any(done):
                raise Bad('not every row of it is written')
            ctx.check('rows', n, True, f['loc'], '')
        except Bad as e:
            ctx.check('rows', n, False, f['loc'], 'the output of the layer: %s' % e)
    for x in fields_of(ctx, f):
        ctx.check('uses', n + '/' + x, x in used, f['loc'], 'the parameter %s does not enter the output' % x)
    for what in ('num_rows_', 'num_cols_', '#v'):
        l = fld(L.inn, what)
        ctx.check('input', n + '/' + what, F.final(l) is T('init', l), f['loc'], 'the layer changes its input')
    for x in fields_of(ctx, f):
        l = F.field(x)
        ok = all(F.final(fld(l, y)) is T('init', fld(l, y)) for y in ('#v', 'dim_', 'num_rows_', 'num_cols_', '#size'))
        ctx.check('input', n + '/' + x, ok, f['loc'], 'the layer changes its parameter ' + x)


def emptied(F, L, known):
    R = F.assume(F.entry, [NOT(eq(L.rows, C(0))), NOT(eq(L.cols, C(0)))])
    cs = cases(F, (F.final(fld(L.out, 'num_rows_')),), F.exit, R=R)
    return bool(cs) and all(r is not C(0) for (r,), fs in cs)


def fields_of(ctx, f):
    r = ctx.prog.records.get(bare(f.get('clst') or f['cls']), {'fields': ()})
    return [x['name'] for x in r['fields']]


def definition(ctx, L, n, b, r, c, same_, known, used):
    """whether b defines every row already"""
    F, f = L.F, L.f
    if b is L.v:
        ok = same_(r, L.rows) and same_(c, L.cols)
        ctx.check('shape', n + '/same', ok, f['loc'], 'the output has another shape than the input it is a copy of')
        if narrow(L):
            cut = [x for x in fields_of(ctx, f)]
            s = [T('init', F.field(x)) for x in cut]
            fits = F._prove(le(L.rows, add(s[0], s[1]), True), known, 3, {}, F.exit) if len(s) == 2 else False
            ctx.check('shape', n + '/short', fits, f['loc'], 'an input that is long enough is not narrowed')
            used |= set(cut) if fits else set()
        return True
    if b.op == 'prod':
        A, B = b.args[1], b.args[2]
        if A is not L.v:
            raise Bad('it is not computed from the input')
        p = L.param(B)
        if p is None:
            raise Bad('the input is multiplied with something else than a parameter')
        used.add(p)
        ctx.check('shape', n + '/product', same_(r, L.rows) and same_(c, T('init', fld(F.field(p), 'num_cols_'))), f['loc'],
                  'the output has another shape than the product')
        return True
    if b.op == 'part':
        A, r0, nr, c0, nc = b.args
        if A is not L.v:
            raise Bad('it is not computed from the input')
        left = L.param(norm(F, r0))
        ctx.check('shape', n + '/part', same_(r, nr) and same_(c, nc) and same_(nc, L.cols) and same_(c0, C(0)), f['loc'],
                  'the output is not the rows that are kept')
        kept(ctx, L, n, left, same_, nr)
        return True
    if b.op == 'fill' or b.op == 'filled' or b.op == 'fresh':
        return False
    if b.op == 'init' and b.args[0] is fld(L.out, '#v'):
        raise Bad('it keeps what was in the output before')
    raise Bad('it comes from %s' % show(b)[:60])


def kept(ctx, L, n, left, same_, nr):
    F, f = L.F, L.f
    others = [x for x in fields_of(ctx, f) if x != left]
    ok = left is not None and len(others) == 1 and same_(nr, sub(sub(L.rows, T('init', F.field(left))), T('init', F.field(others[0]))))
    ctx.check('shape', n + '/kept', ok, f['loc'], 'not exactly the rows between the left and the right margin are kept')
    if left is not None:
        ctx.check('shape', n + '/margin', 'left' in left, f['loc'], 'the margins are taken on the wrong sides')


def narrow(L):
    fs = fields_of(L.ctx, L.f)
    return len(fs) == 2 and all('narrow' in x for x in fs)


def update(ctx, L, n, u, r, c, base, used):
    """one way rows are written; whether it writes all of each row"""
    F = L.F
    i, e, st, node = u
    bad = []
    splice = False
    for x in L.atoms(e, node):
        p = L.param(x)
        if p is not None:
            used.add(p)
        elif x.op == 'ld':
            if not same(norm(F, x.args[1]), i):
                raise Bad('row %s is computed from row %s' % (show(i), show(x.args[1])))
        elif L.ofinput(x):
            if x is L.v or x is T('init', L.inn):
                raise Bad('a row depends on more than a row of the input')
            if x.args[0].op == 'el' and not same(norm(F, x.args[0].args[1]), i):
                splice = True
        else:
            raise Bad('a row depends on %s' % show(x)[:60])
    own = lambda y: y.op == 'ld' and y.args[0] in L.chain and same(norm(F, y.args[1]), i)
    if e.op == 'put':
        old, off, k, val = e.args
        if splice or base.op == 'fill':
            return spliced(ctx, L, n, i, old, off, k, val, node, r, c)
        raise Bad('part of a row is replaced')
    if splice and e.op == 'init' and e.args[0].op == 'el' and narrow(L):
        left = L.param(norm(F, sub(e.args[0].args[1], i)))
        why = nest(F, node, [(i, C(0), r)])
        if left is None or why:
            raise Bad('the loop over its rows ' + why if why else 'a row is taken from another row')
        used.add(left)
        kept(ctx, L, n, left, lambda a, b: same(norm(F, a), norm(F, b)), r)
        return True
    if splice:
        raise Bad('a row is taken from another row')
    if e.op == 'st' and own(e.args[0]):
        why = nest(F, node, [(i, C(0), r), (norm(F, e.args[1]), C(0), c)], conditional=True)
        if why:
            raise Bad('the loop over its elements ' + why)
        return not conditional(F, node)
    why = nest(F, node, [(i, C(0), r)])
    if why and not defined(F, node, e, i, r):
        raise Bad('the loop over its rows ' + why)
    return True


def defined(F, node, e, i, r):
    """every row is treated, except where what it would be divided by is zero"""
    p = loops.header_phi(F, i)
    if p is None or nest(F, node, [(i, C(0), r)], conditional=True):
        return False
    H = F.defnode[p[0]]
    for s in {x.args[0] for x in walk(e) if x.op == 'inv'}:
        D = F.defnode.get(s)
        if D not in F.loops():
            continue
        after = {k[0].succs[k[1]][0] for k in loops.exits(F, D)}
        if len(after) == 1 and all(F.dominates(x, node) for x in after):
            R = F.assume(after.pop(), [lt(C(0), s, False)], stop={node})
            if not any(k[0] in R.nodes for k in loops.latches(F, H)):
                return True
    return False


def conditional(F, node):
    h = loops.rounds(F, node)[0]
    return not all(F.dominates(node, k[0]) for k in loops.latches(F, h))


def spliced(ctx, L, n, i, old, off, k, val, node, r, c):
    F, f = L.F, L.f
    at = f['loc']
    src = val.args[0] if val.op == 'init' and val.args[0].op == 'el' and val.args[0].args[0] is fld(L.inn, '#v') else None
    if src is None or not same(norm(F, k), L.cols):
        raise Bad('a context is not a whole row of the input')
    j = src.args[1]
    cs = cases(F, (j,), node) or []
    ks = {x for (v,), fs in cs for t in [v] + list(fs) for x in walk(t) if x.op == 'init' and x.args[0].op == 'el' and L.param(x)}
    if len(ks) != 1:
        raise Bad('a context is not at one of the offsets')
    idx = ks.pop()
    k_ = norm(F, idx.args[0].args[1])
    field = L.param(idx)
    size = T('init', fld(F.field(field), '#size'))
    why = nest(F, node, [(i, C(0), r), (k_, C(0), size)])
    if why:
        raise Bad('the loop over the contexts ' + why)
    want = mul(k_, L.cols)
    o = norm(F, off)
    place = same(o, want)
    if not place and o.op == 'phi' and F.defnode.get(o) in F.loops():
        h = F.defnode[o]
        p = loops.header_phi(F, k_)
        pre = {x for y, x in F.phis[o].items() if y[0] not in F.loops()[h] and F.E.get(y) is not None}
        lat = {closed(F, x, y[0]) for y, x in F.phis[o].items() if y[0] in F.loops()[h] and F.E.get(y) is not None}
        place = p is not None and F.defnode[p[0]] is h and pre == {C(0)} and all(same(x, add(o, L.cols)) for x in lat)
    if not place:
        raise Bad('the contexts are not put side by side')
    if not same(norm(F, c), norm(F, mul(size, L.cols))):
        raise Bad('a row has not the room of all contexts')
    x = add(i, idx)
    last_ = sub(L.rows, C(1))
    ok = bool(cs)
    for v, known in [y for (v,), fs in cs for y in chosen(v, frozenset(fs))]:
        pr = lambda t: F._prove(t, known, 3, {}, node)
        inside = (same(v, x) or pr(eq(v, x))) and pr(le(C(0), x, True)) and pr(le(x, last_, True))
        low = (same(v, C(0)) or pr(eq(v, C(0)))) and pr(le(x, C(0), True))
        high = (same(v, last_) or pr(eq(v, last_))) and pr(le(last_, x, True))
        ok = ok and (inside or low or high)
    ctx.check('context', n, ok, at, 'a context is not the frame at its offset, clamped to the chunk')
    return True


def chosen(v, known):
    """the values of v with its minima and maxima decided"""
    for m in [m for t in [v] + sorted(known, key=lambda t: t.id) for m in walk(t)]:
        if m.op in ('min', 'max') and len(m.args) == 2:
            a, b = m.args
            if m.op == 'min':
                ways_ = ((a, le(a, b, True)), (b, le(b, a, True)))
            else:
                ways_ = ((a, le(b, a, True)), (b, le(a, b, True)))
            return [y for x, g in ways_ for y in chosen(subst(v, {m: x}), frozenset({subst(z, {m: x}) for z in known} | {g}))]
    return [(v, known)]


def order(ctx):
    f = ctx.fn('Nnet::Propagate')
    F = ctx.flow(f, key='n01', extra=SUMMARY, stop=[PK + 'Layer::Propagate'])
    inn, out = F.paramobj(0), F.paramobj(1)
    evs = [e for e in F.events if e.kind == 'call' and e.name == PK + 'Layer::Propagate' and F.feasible(e.node)]
    if not ctx.check('order', 'applied', len(evs) == 1, f['loc'], 'the layers are not applied at one place'):
        return
    e = evs[0]
    size = T('init', fld(F.field('layers_'), '#size'))
    k = element_of(F, e.obj)
    why = 'is not over the layers' if k is None else loops.covers(F, e.node, k, C(0), size, lambda x: aborts(F, x))
    ctx.check('order', 'each', not why, e.loc, 'the loop over the layers %s' % why)
    st = F.instate[e.node]
    for what in ('#v', 'num_rows_', 'num_cols_'):
        v = F.load(st, fld(e.locs[0], what)) if e.locs and e.locs[0] is not None else None
        ok = v is not None and v.op == 'phi' and F.defnode.get(v) in F.loops()
        if ok:
            body = F.loops()[F.defnode[v]]
            pre = {norm(F, x) for y, x in F.phis[v].items() if y[0] not in body and F.E.get(y) is not None}
            lat = {closed(F, x, y[0]) for y, x in F.phis[v].items() if y[0] in body and F.E.get(y) is not None}
            ok = pre == {T('init', fld(inn, what))} and len(lat) == 1 and given(F, e, lat.pop(), what)
        ctx.check('order', 'chain/' + what, ok, e.loc, 'a layer is not applied to the output of the one before it')
        w = F.final(fld(out, what))
        ctx.check('order', 'result/' + what, w is not None and v is not None and w is v, f['loc'],
                  'the output of the network is not that of the last layer')
        ctx.check('input', 'Nnet/' + what, F.final(fld(inn, what)) is T('init', fld(inn, what)), f['loc'], 'the network changes its input')


def element_of(F, o):
    """the index of the layer a call is for"""
    for x in walk(o):
        if x.op == 'el' and x.args[0] is fld(F.field('layers_'), '#data'):
            return norm(F, x.args[1])
    return None


def given(F, e, v, what):
    """v is what the event left in its output"""
    after = F.endst[e.node]
    return v.op == 'sel' and v.args[0].op == 'out' and v.args[1] == what and F.defnode.get(v.args[0]) is e.node and v.args[0].args[1] == 1


def order_file(ctx):
    f = ctx.fn('Nnet::ReadLayer')
    F = ctx.flow(f, key='n01', extra=SUMMARY, stop=[PK + 'Layer::Read'])
    l = F.field('layers_')
    size = fld(l, '#size')
    cs = cases(F, (F.ret, F.final(size)), F.exit, limit=400)
    adds = [e for e in F.events if e.kind == 'call' and e.obj is l and F.feasible(e.node) and
            last(e.name) in ('push_back', 'emplace_back', 'insert', 'emplace', 'clear', 'pop_back', 'erase', 'resize', 'assign', 'swap')]
    reads = [e for e in F.events if e.kind == 'call' and e.name == PK + 'Layer::Read' and F.feasible(e.node)]
    ok = len(adds) == 1 and last(adds[0].name) in ('push_back', 'emplace_back')
    if ctx.check('file', 'once', ok, f['loc'], 'a layer that was read is not appended once'):
        a = adds[0]
        R = F.assume(F.entry, [], stop=[a.node])
        skipped = [1 for (r,), fs in cases(F, (F.ret,), F.exit, R=R) or () if F.exit in R.nodes and ret_ok(r) and
                   F._prove(isok(r), frozenset(fs), 3, {}, F.exit)]
        ctx.check('file', 'always', not skipped, a.loc, 'a layer may be read without being kept')
        mine = [e for e in reads if F.evdom(e, a)]
        ctx.check('file', 'read', len(reads) == 1 and len(mine) == 1, a.loc, 'the content of the layer is not read before it is kept')
        hs = loops.rounds(F, a.node)
        ctx.check('file', 'single', not hs, a.loc, 'a layer is appended several times')
    g = ctx.fn('Nnet::Read')
    G = ctx.flow(g, key='n01', extra=SUMMARY, stop=[PK + 'Layer::Read', f['n']])
    rd = [e for e in G.events if e.kind == 'call' and e.name == f['n'] and G.feasible(e.node)]
    if ctx.check('file', 'loop', len(rd) == 1, g['loc'], 'the layers are not read at one place'):
        e = rd[0]
        hs = loops.rounds(G, e.node)
        ok, why = False, 'they are not read in a loop'
        if len(hs) == 1:
            fails = lambda k: aborts(G, k) or fails_(G, k)
            for p in idx_phis(G, hs[0]):
                for x in counts(G):
                    why = loops.covers(G, e.node, p, C(0), x, fails)
                    if not why and not G._prove(lt(p, x, True), G.facts(e.node), 3, {}, e.node):
                        why = 'the loop takes another round'
                    ok = ok or not why
        ctx.check('file', 'count', ok, e.loc, 'not exactly the given number of layers is read: %s' % why)


def counts(G):
    """the numbers that were read from the file"""
    out = []
    for e in G.events:
        if e.kind == 'call' and last(e.name) == 'fread' and e.locs and e.locs[0] is not None:
            v = G.load(G.endst[e.node], e.locs[0])
            if v not in out:
                out.append(v)
    return out


def fails_(G, k):
    """leaving here the function reports a failure"""
    n, i = k
    t = n.succs[i][0]
    R = G.assume(t, [])
    if G.exit not in R.nodes:
        return True
    fs = frozenset(G.E[k] or ())
    return any(x.op == 'not' and x.args[0].op == 'isok' for x in fs) or any(
        G._prove(NOT(x), fs, 3, {}, n) for x in {y for z in fs for y in walk(z) if y.op == 'isok'})
