"""State identity and the token index are exact."""
from rules.dec import *

HT = PK + 'HashTable::'


def run(ctx):
    ctx.rule('identity', 'two states are equal exactly when all their fields are equal, and the hash is computed from '
             'those fields only', 3)
    ctx.rule('probe', 'the search for a slot ends only at an empty slot or one with the key, passes over a slot only when '
             'it holds another key, stays inside the table, and its course depends on the key and the size only', 5)
    ctx.rule('find', 'a value is returned only from an occupied slot with the key, the default only for an empty slot', 3)
    ctx.rule('insert', 'after an insertion the slot found for the key is occupied and holds the key and the value', 4)
    ctx.rule('room', 'the elements are counted, and a table that is more than half full grows before the next insertion, '
             'so that every search ends', 4)
    ctx.rule('growth', 'growing carries every element, with its key and value, into a larger table', 6)
    ctx.rule('empty', 'new and cleared tables have no occupied slot', 3)
    ctx.rule('consistent', 'the arrays always have the recorded size, and the size is the one listed at the recorded place', 4)
    ctx.rule('follows', 'the index of the beam is emptied whenever the beam is', 1)
    identity(ctx)
    probe(ctx)
    find(ctx)
    insert(ctx)
    room(ctx)
    growth(ctx)
    empty(ctx)
    consistent(ctx)
    follows(ctx)


# ------------------------------------------------------------------ keys
def fields(ctx, rec):
    r = ctx.prog.records.get(rec)
    if r is None:
        raise AnalysisBroken('no record ' + rec)
    return [f['name'] for f in r['fields']]


def scalars(F, v):
    return {x.args[0] for x in walk(v) if x.op == 'init'}


def identity(ctx):
    rec = D + 'State'
    fs = fields(ctx, rec)
    F = ctx.flow('Decoder::State::operator==')
    at = ctx.fn('Decoder::State::operator==')['loc']
    me, other = F.deref(T("init", F.thisptr(F.frames[0]))), F.paramobj(0)
    a = {n: T('init', fld(me, n)) for n in fs}
    b = {n: T('init', fld(other, n)) for n in fs}
    # equal in all fields: true; different in one: false
    allf = frozenset(eq(a[n], b[n]) for n in fs)
    cs = cases(F, (F.ret,), F.exit)
    def value(extra):
        out = set()
        for (r,), g in cs:
            s = set(g)
            for x in extra:
                F.expand(x, s, None)
            if close(F, s) and not any(F.decide(x, frozenset(g)) is False for x in extra):
                r2 = truth(norm(F, r))
                out.add(True if r2 is TRUE else False if r2 is FALSE else F.decide(r2, frozenset(s)))
        return out
    ctx.check('identity', 'equal', value(allf) == {True}, at, 'states with equal fields are not always equal')
    for n in fs:
        rest = [eq(a[m], b[m]) for m in fs if m != n]
        ctx.check('identity', 'differs/' + n, value(rest + [NOT(eq(a[n], b[n]))]) == {False}, at,
                  'states that differ in %s are taken for the same state' % n)
    for f in ctx.fns('hash'):
        G = ctx.flow(f)
        used = scalars(G, G.ret)
        roots = {root(l) for l in used}
        ok = all(r.op in ('param', 'obj', 'var') or r is G.paramobj(0) for r in roots) and \
            not any(x.op in ('phi', 'call', 'out', 'undef', 'addr') for x in walk(G.ret))
        ctx.check('identity', 'hash/' + f['key'][-20:], ok, f['loc'], 'the hash is not computed from the key alone')


# ------------------------------------------------------------------ tables
def inst(ctx, name):
    return ctx.prog.byname.get(HT + name, [])


def helper(ctx):
    """the functions that search for a slot: they take the key, return an index, and write nothing"""
    if hasattr(ctx, '_probe'):
        return ctx._probe
    out = []
    for f in [g for n, gs in ctx.prog.byname.items() if n.startswith(HT) for g in gs]:
        if f['n'] in (HT + 'Find', HT + 'Insert') or f['ret'] != 'int' or not f['blocks']:
            continue
        if any(keytype(ctx, f, i) for i in range(len(f['params']))) and f['key'] not in [g['key'] for g in out]:
            out.append(f)
    ctx._probe = out
    return out


def ptype(f, i):
    return f['vars'][str(f['params'][i])]['type'] if str(f['params'][i]) in f['vars'] else f['vars'][f['params'][i]]['type']


def keytype(ctx, f, i):
    t = ptype(f, i).replace('const ', '').replace(' &', '')
    return t in {ptype(g, 0).replace('const ', '').replace(' &', '') for g in inst(ctx, 'Find')}


def slot(F, v):
    """v was read from an array behind a pointer: (pointer, index, field path), else None"""
    l = place(F, v)
    path = []
    while l is not None and l.op == 'fld':
        path.append(l.args[1])
        l = l.args[0]
    if l is None or l.op != 'el':
        return None
    p = l.args[0]
    if p.op == 'buf':
        p = p.args[0]
    elif p.op == 'deref':
        p = p.args[0]
    return p, norm(F, l.args[1]), tuple(reversed(path))


def reads(F, g):
    out = {}
    for x in walk_facts(g):
        s = slot(F, x)
        if s is not None:
            out.setdefault((s[1], s[2]), []).append((x, s[0]))
    return out


def walk_facts(fs):
    return {x for f in fs for x in walk(f)}


def keyfields(ctx, F, i):
    """the scalar parts of key parameter i: {path: value}"""
    o = F.paramobj(i) if '&' in ptype(F.root, i) else F.param(i)
    rec = ptype(F.root, i).replace('const ', '').replace(' &', '')
    r = ctx.prog.records.get(rec)
    if r is None:
        return {(): F.paramval(i)}
    return {(f['name'],): T('init', fld(o, f['name'])) for f in r['fields']}


def occupied(F, g, idx, p=None):
    """the slot is occupied (True), empty (False) or unknown"""
    for (i, path), xs in reads(F, g).items():
        if i is idx and not path:
            for x, q in xs:
                if p is None or q is p:
                    r = F.decide(truth(x), g)
                    if r is None:
                        r = F.decide(eq(x, C(1)), g)       # a bool is 0 or 1
                    if r is not None:
                        return not r
    return None


def samekey(F, g, idx, key):
    """the key in the slot equals the key: True, False or unknown"""
    rs = reads(F, g)
    got = {}
    for (i, path), xs in rs.items():
        if i is idx and path and path[0] == 'key':
            for x, q in xs:
                got.setdefault(path[1:], []).append(x)
    eqs = []
    for path, k in key.items():
        r = None
        for x in got.get(path, []):
            d = F.decide(eq(x, k), g)
            if d is not None:
                r = d
        eqs.append(r)
        if r is False:
            return False
    if all(r is True for r in eqs):
        return True
    return None


def differ(F, g, idx, key):
    """the facts exclude that all parts of the keys are equal"""
    return all(differ1(F, d, idx, key) for d in disjuncts(F, g))


def differ1(F, g, idx, key):
    rs = reads(F, g)
    s = set(g)
    n = 0
    for path, k in key.items():
        xs = rs.get((idx, ('key',) + path), [])
        if xs:
            n += 1
            F.expand(eq(xs[0][0], k), s, None)
    # parts whose comparison does not show up are free to be equal
    if n == 0:
        return False
    if not close(F, s):
        return True
    return all(any(f.op != 'c' and F.decide(f, d - {f}) is False for f in d) for d in disjuncts(F, s))


def probe(ctx):
    hs = helper(ctx)
    if not hs:
        raise AnalysisBroken('no function that searches a slot')
    for f in hs:
        F = ctx.flow(f)
        at = f['loc']
        ki = [i for i in range(len(f['params'])) if keytype(ctx, f, i) and
              (ptype(f, i) != 'int' or i == len(f['params']) - 1)][-1]
        key = keyfields(ctx, F, ki)
        for v, g in departures(F):
            v = norm(F, v)
            cand = {i for (i, path) in reads(F, g)} | {v}
            ok = any((i is v or F.decide(eq(i, v), g) is True) and
                     (occupied(F, g, i) is False or samekey(F, g, i, key) is True) for i in cand)
            ctx.check('probe', 'ends', ok, at, 'a slot is returned that may hold another key')
        seqs = [(norm(F, r), g) for (r,), g in cases(F, (F.ret,), F.exit, keep=tuple(F.phis)) or []]
        # passed over
        for k in back_edges(F):
            e = F.E.get(k)
            if e is None:
                continue
            e = frozenset(e)
            read = {i for (i, path) in reads(F, e) if not path}
            ok = bool(read) and all(occupied(F, e, i) is True and
                                    (samekey(F, e, i, key) is False or differ(F, e, i, key)) for i in read)
            ctx.check('probe', 'passes', ok, at, 'a slot is passed over that may be empty or hold the key')
        # course
        used = {l for l in scalars(F, F.ret)}
        bad = [l for l in used if root(l).op not in ('param', 'var') and root(l) is not F.paramobj(ki)]
        arr = [l for l in used if l.op == 'el' or (l.op == 'fld' and any(x.op == 'el' for x in walk(l)))]
        ctx.check('probe', 'course', not arr, at, 'where is looked next depends on what the table holds: %s' %
                  (show(arr[0]) if arr else ''))
        for r, g in seqs:
            ctx.check('probe', 'not-negative', F.decide(le(C(0), r, True), g) is True or bounded(F, r, g)[0], at,
                      'a slot before the table can be returned')
            ctx.check('probe', 'below-size', bounded(F, r, g)[1], at, 'a slot behind the table can be returned')


def departures(F):
    """the edges that leave the search, each with the value returned then and what is known"""
    inloop = {n for b in F.loops().values() for n in b}
    out, todo, n = [], [(F.exit, F.ret, frozenset())], 0
    while todo:
        at, v, more = todo.pop()
        n += 1
        if n > 2000:
            raise AnalysisBroken('too many ways out of the search')
        ks = [k for k in at.preds if F.E.get(k) is not None]
        for k in ks:
            w = subst(v, {p: F.phis[p][k] for p in F.at(at) if k in F.phis[p]})
            fs = set(F.E[k])
            for x in more:
                F.expand(subst(x, {p: F.phis[p][k] for p in F.at(at) if k in F.phis[p]}), fs, None)
            fs = frozenset(fs)
            if k[0] in inloop or k[0] is F.entry:
                if close(F, set(fs)):
                    out.append((w, fs))
            else:
                todo.append((k[0], w, fs))
    return out


def back_edges(F):
    """where the innermost search loop starts over"""
    hs = list(F.loops())
    inner = [H for H in hs if not any(G is not H and G in F.loops()[H] for G in hs)]
    out = [k for H in inner for k in loops.latches(F, H)]
    for H in inner:
        for n in F.loops()[H]:
            for i, (s, c) in enumerate(n.succs):
                # left in the middle, for another round of the loop around it
                if n is not H and s not in F.loops()[H] and any(s in F.loops()[G] for G in hs if G is not H):
                    out.append((n, i))
    return out


def bounded(F, r, g):
    """(0 <= r, r < size) for the ways an index is reduced by the size of the table"""
    size = sizeparam(F)
    if size is None:
        return False, False
    if r.op == 'ite':
        a, b, c = r.args
        x = []
        for cond, v in ((a, b), (NOT(a), c)):
            s = set(g)
            F.expand(cond, s, None)
            x.append(bounded(F, v, frozenset(s)))
        return x[0][0] and x[1][0], x[0][1] and x[1][1]
    if r.op == 'phi' and r in F.phis and F.defnode[r] not in F.loops():
        x = [bounded(F, v, frozenset(F.E[k]) | frozenset(g)) for k, v in F.phis[r].items() if F.E.get(k) is not None]
        return all(y[0] for y in x), all(y[1] for y in x)
    # size + (x mod size) for a negative remainder; a remainder that is not
    d, k = lin(r)
    m = [x for x in d if x.op == 'imod' and x.args[1] is size]
    if len(m) == 1 and d[m[0]] == 1 and k == 0:
        rest = {x: c for x, c in d.items() if x is not m[0]}
        neg = F.decide(lt(m[0], C(0), True), g)
        if not rest:
            return neg is False, True
        if rest == {size: 1}:
            return True, neg is True
    return False, False


def sizeparam(F):
    f = F.root
    ps = [i for i in range(len(f['params'])) if ptype(f, i) == 'int']
    for x in walk(F.ret):
        if x.op == 'imod':
            return x.args[1]
    return F.paramval(ps[0]) if ps else None


# ------------------------------------------------------------------ users of the search
def stops(ctx):
    return sorted({f['n'] for f in helper(ctx)})


def searches(ctx, F):
    ns = set(stops(ctx))
    return [e for e in F.events if e.kind == 'call' and e.name in ns and F.feasible(e.node)]


def field(F, e, n):
    """the current value of a field of this table at an event"""
    return norm(F, F.load(F.endst[e.node], F.field(n)))


def here(F, e, buckets='buckets_', occ='empty_', size='bucket_size_'):
    """the search is made in this table: its arrays and its size as they are at that time"""
    a = [norm(F, x) for x in e.args]
    want = [field(F, e, n) for n in (buckets, occ, size)]
    if len(a) >= 4:
        return all(any(x is w for x in a) for w in want)
    return len(a) == 1 or all(x in want for x in a[:-1])


def search_of(ctx, F, i):
    return [e for e in searches(ctx, F) if norm(F, e.val) is i]


def whole(F, e):
    return [norm(F, a) for a in e.args][-1]


def iskey(F, v, ki=0):
    v = norm(F, v)
    return v is F.paramval(ki) or place(F, v) is F.paramobj(ki) or v is norm(F, T('init', F.paramobj(ki)))


def find(ctx):
    for f in inst(ctx, 'Find'):
        F = ctx.flow(f, stop=stops(ctx))
        at = f['loc']
        hit = miss = 0
        for (r,), g in cases(F, (F.ret,), F.exit) or []:
            r = norm(F, r)
            if r is F.paramval(1):
                ok = False
                for e in searches(ctx, F):
                    if here(F, e) and iskey(F, whole(F, e)) and occupied(F, g, norm(F, e.val), field(F, e, 'empty_')) is False:
                        ok = True
                ctx.check('find', 'missing', ok, at, 'the default is returned although the key may be in the table')
                miss += 1
                continue
            s = slot(F, r)
            if s is None or s[2] != ('value',):
                ctx.bad('find', 'value', at, 'what is returned is %s' % show(r))
                continue
            es = [e for e in search_of(ctx, F, s[1]) if here(F, e) and iskey(F, whole(F, e))]
            ctx.check('find', 'slot', bool(es) and all(s[0] is field(F, e, 'buckets_') for e in es), at,
                      'the value is read from another slot')
            ctx.check('find', 'occupied', bool(es) and occupied(F, g, s[1], field(F, es[0], 'empty_')) is True, at,
                      'the value of an empty slot is returned')
            hit += 1
        ctx.check('find', 'both', hit > 0 and miss > 0, at, 'nothing is ever found, or nothing ever missing')


def insert(ctx):
    grow = [f['n'] for f in growers(ctx)]
    for f in inst(ctx, 'Insert'):
        F = ctx.flow(f, stop=stops(ctx) + grow)
        at = f['loc']
        es = searches(ctx, F)
        ctx.check('insert', 'search', bool(es) and all(here(F, e) and iskey(F, whole(F, e)) for e in es), at,
                  'the slot is searched in another table, or for another key')
        if not es:
            continue
        w = {'key': [], 'value': [], 'occ': []}
        for e in F.events:
            l = e.where if e.kind == 'store' else e.obj if e.kind == 'call' and (e.name or '').endswith('operator=') else None
            if l is None or not F.feasible(e.node):
                continue
            path, q = [], l
            while q.op == 'fld':
                path.append(q.args[1])
                q = q.args[0]
            if q.op != 'el':
                continue
            i = norm(F, q.args[1])
            ss = search_of(ctx, F, i)
            v = norm(F, e.args[0] if e.kind == 'call' else e.val)
            if not ss:
                ctx.bad('insert', 'elsewhere', e.loc, 'another slot is changed')
                continue
            base = q.args[0].args[0]
            if not path:
                if norm(F, base) is field(F, e, 'empty_'):
                    ctx.check('insert', 'occupied', v is C(0) or v is FALSE, e.loc, 'the slot is marked empty')
                    w['occ'].append(e)
                else:
                    w['key'].append(e), w['value'].append(e)
                    ctx.check('insert', 'key', iskey(F, sel(v, 'key')), e.loc, 'another key is stored')
                    ctx.check('insert', 'value', norm(F, sel(v, 'value')) is F.paramval(1), e.loc, 'another value is stored')
            elif path[-1] == 'key':
                ctx.check('insert', 'key', iskey(F, v) or any(v is x for x in keyfields(ctx, F, 0).values()), e.loc,
                          'another key is stored')
                w['key'].append(e)
            elif path[-1] == 'value':
                ctx.check('insert', 'value', v is F.paramval(1), e.loc, 'another value is stored')
                w['value'].append(e)
        # on every way: value always; key and mark unless occupied
        s = es[-1]
        idx = norm(F, s.val)
        for kind, evs in w.items():
            R = F.assume(s.node, [], stop={e.node for e in evs})
            if F.exit not in R.nodes or any(e.node is s.node for e in evs):
                ctx.check('insert', 'always/' + kind, True, at)
                continue
            ok = kind != 'value'
            if ok:
                g = R.N.get(F.exit)
                ok = occupied(F, frozenset(g), idx) is True if g is not None else True
            ctx.check('insert', 'always/' + kind, ok, at, 'an insertion may not store the %s' % kind)


# ------------------------------------------------------------------ room
def known(ctx, t):
    """with the values of the constants of the program"""
    m = {}
    for x in walk(t):
        if x.op == 'init' and x.args[0].op == 'glob':
            g = ctx.prog.globals.get(x.args[0].args[0]) or {}
            if g.get('const') and g.get('v') is not None:
                m[x] = C(float(g['v']))
    return subst(t, m) if m else t


def load(ctx, F, f, size, room):
    """the fact bounds size from above by this part of the room: k such that size <= k * room"""
    f = known(ctx, f)
    if f.op == 'not' and f.args[0].op == 'lt0':
        d, k = lin(f.args[0].args[0])          # d + k >= 0
    elif f.op == 'lt0':
        d, k = lin(f.args[0])
        d, k = {a: -c for a, c in d.items()}, -k
        if f.args[0] is not None and len(f.args) > 1 and f.args[1]:
            k -= 1              # whole numbers
    else:
        return None
    inv = T('inv', room)
    out = {}
    for a, c in d.items():
        fs = list(a.args) if a.op == 'mul' else [a]
        out[frozenset(fs)] = c
    q = out.pop(frozenset([size, inv]), None)
    if q is not None and q < 0 and not out:
        return k / -q
    if q is None:
        d2 = dict(d)
        a, b = d2.pop(size, None), d2.pop(room, None)
        if a is not None and b is not None and a < 0 < b and not d2 and k <= 0:
            return b / -a
    return None


def room(ctx):
    grow = [f['n'] for f in growers(ctx)]
    for f in inst(ctx, 'Insert'):
        F = ctx.flow(f, stop=stops(ctx) + grow)
        at = f['loc']
        n0 = T('init', F.field('size_'))
        gs = [e for e in F.events if e.kind == 'call' and e.name in grow and F.feasible(e.node)]
        es = searches(ctx, F)
        R = F.assume(F.entry, [], stop={e.node for e in gs})
        for e in es:
            if e.node not in R.nodes:
                continue
            ks = [load(ctx, F, x, n0, T('init', F.field('bucket_size_'))) for x in R.N[e.node] or ()]
            ctx.check('room', 'half', any(k is not None and k <= 0.5 for k in ks), e.loc,
                      'an element is added to a table that is more than half full')
        # counted where an empty slot is filled
        occ = [e for e in F.events if e.kind == 'store' and e.where.op == 'el' and F.feasible(e.node) and
               norm(F, e.where.args[0].args[0]) is field(F, e, 'empty_')]
        cnt = [e for e in F.events if e.kind == 'store' and e.where is F.field('size_') and F.feasible(e.node)]
        for e in cnt:
            ctx.check('room', 'one', sub(norm(F, e.val), norm(F, before(F, e))) is C(1), e.loc, 'the number of elements is not one more')
        for e in occ:
            ctx.check('room', 'counted', together(F, e, cnt), e.loc, 'the new element is not counted')
        for e in cnt:
            ctx.check('room', 'filled', together(F, e, occ), e.loc, 'an element is counted although none was added')
    for f in inst(ctx, 'Clear') + inst(ctx, 'HashTable'):
        F = ctx.flow(f, stop=stops(ctx))
        v = F.final(F.field('size_'))
        if v.op == 'init' and len(f['params']) == 0 and not f['n'].endswith('Clear'):
            continue
        ctx.check('room', 'none', v is C(0), f['loc'], 'a table without elements does not count 0')
    for f in growers(ctx):
        F = ctx.flow(f, stop=stops(ctx))
        ctx.check('room', 'kept', F.final(F.field('size_')) is T('init', F.field('size_')), f['loc'],
                  'growing changes the number of elements')


def together(F, e, others):
    """every way through the function with this event has one of the others"""
    if any(o.node is e.node or F.evdom(o, e) for o in others):
        return True
    return F.exit not in F.assume(e.node, [], stop={o.node for o in others}).nodes


def before(F, e):
    """the value a store replaces"""
    v = None
    for x in F.events:
        if x is e:
            break
        if x.kind == 'store' and x.node is e.node and x.where is e.where:
            v = x.val
    return v if v is not None else F.load(F.instate[e.node], e.where)


# ------------------------------------------------------------------ growth
def growers(ctx):
    """members called by Insert, directly or not, that replace the arrays"""
    out = []
    for n, gs in ctx.prog.byname.items():
        if n.startswith(HT):
            for g in gs:
                k = n.split('::')[-1]
                if k in ('Insert', 'Find', 'Clear', 'HashTable', '~HashTable') or g['key'] in [h['key'] for h in helper(ctx)]:
                    continue
                F = ctx.flow(g, stop=stops(ctx))
                if any(e.kind == 'store' and e.where is F.field('buckets_') for e in F.events):
                    out.append(g)
    return out


def growth(ctx):
    gs = growers(ctx)
    if not gs:
        raise AnalysisBroken('no function that lets the table grow')
    primes = ctx.prog.globals.get(PK + 'gPrimeNumbers', {}).get('list')
    if not primes:
        raise AnalysisBroken('the list of sizes vanished')
    ps = [int(x) if x is not None else None for x in primes]
    ctx.check('growth', 'sizes', all(a is not None and b is not None and a < b for a, b in zip(ps, ps[1:])),
              ctx.prog.globals[PK + 'gPrimeNumbers']['loc'], 'the sizes do not increase: %s' % ps[:6])
    for f in gs:
        F = ctx.flow(f, stop=stops(ctx))
        at = f['loc']
        init = lambda n: T('init', F.field(n))
        fin = {n: norm(F, F.final(F.field(n))) for n in ('buckets_', 'empty_', 'bucket_size_', 'prime_idx_')}
        st = sub(fin['prime_idx_'], init('prime_idx_'))
        ctx.check('growth', 'larger', st.op == 'c' and st.args[0] > 0, at, 'the next size is not a larger one')
        es = searches(ctx, F)
        ctx.check('growth', 'search', bool(es) and all({norm(F, x) for x in e.args[:-1]} <= set(fin.values()) for e in es), at,
                  'an element is not placed in the new table')
        got = {'key': 0, 'value': 0, 'occ': 0}
        src = set()
        for e in F.events:
            l = e.where if e.kind == 'store' else e.obj if e.kind == 'call' and (e.name or '').endswith('operator=') else None
            if l is None or not F.feasible(e.node):
                continue
            path, q = [], l
            while q.op == 'fld':
                path.append(q.args[1])
                q = q.args[0]
            if q.op != 'el':
                continue
            i = norm(F, q.args[1])
            base = norm(F, q.args[0].args[0])
            ss = search_of(ctx, F, i)
            if base is init('buckets_') or base is init('empty_'):
                ctx.bad('growth', 'old', e.loc, 'the old table is changed')
                continue
            if not ss:
                continue        # marking the new table empty
            v = norm(F, e.args[0] if e.kind == 'call' else e.val)
            k = whole(F, ss[0])
            if not path and base is fin['empty_']:
                ctx.check('growth', 'occupied', v is C(0), e.loc, 'the new slot is marked empty')
                got['occ'] += 1
                cover(ctx, F, e, k, at)
                continue
            parts = {(): ('key', 'value')}.get(tuple(path)) or (path[-1],)
            for p in parts:
                x = norm(F, sel(v, p)) if not path else v
                s = slot(F, x)
                kk = slot(F, k)
                ok = s is not None and kk is not None and s[0] is init('buckets_') and s[1] is kk[1] and s[2][:1] == (p,) and \
                    kk[0] is init('buckets_') and kk[2][:1] == ('key',)
                ctx.check('growth', 'moved/' + p, ok and base is fin['buckets_'], e.loc,
                          'the %s in the new table is not that of the element' % p)
                got[p] = got.get(p, 0) + 1
                cover(ctx, F, e, k, at)
        for p in ('key', 'value', 'occ'):
            ctx.check('growth', 'all/' + p, got[p] > 0, at, 'the %s of the elements is not carried over' % p)


def cover(ctx, F, e, k, at):
    """every slot of the old table is visited; one is passed over only if it is empty"""
    kk = slot(F, k)
    if kk is None:
        return
    idx = kk[1]
    hs = loops.rounds(F, e.node)
    if not hs:
        ctx.bad('growth', 'visited', e.loc, 'only one element is carried over')
        return
    H = hs[0]
    old = T('init', F.field('empty_'))
    why = loops.covers(F, H, idx, C(0), T('init', F.field('bucket_size_')), lambda k: aborts(F, k))
    ctx.check('growth', 'visited', not why, e.loc, 'the loop over the elements ' + why)
    body = F.loops()[H]
    R = F.assume(H, [], stop={e.node})
    for l in loops.latches(F, H):
        if l not in R.edges or R.E.get(l) is None or l[0] is e.node:
            continue
        g = frozenset(R.E[l])
        ctx.check('growth', 'skipped', occupied(F, g, idx, old) is False, e.loc,
                  'an element may be left behind')


# ------------------------------------------------------------------ empty tables
def empty(ctx):
    roots = [(f, 'empty_') for f in inst(ctx, 'Clear')] + [(f, 'empty_') for f in inst(ctx, 'HashTable')] + \
        [(f, 'empty_') for f in growers(ctx)]
    for f, _ in roots:
        F = ctx.flow(f, stop=stops(ctx))
        nm = f['n'].split('::')[-1] + str(len(f['params']))
        arr, size = norm(F, F.final(F.field('empty_'))), norm(F, F.final(F.field('bucket_size_')))
        if arr.op == 'init' and nm.startswith('HashTable'):
            continue        # delegates
        ok, why = False, 'is not there'
        for e in F.events:
            if e.kind == 'store' and e.where.op == 'el' and e.val is C(1) and norm(F, e.where.args[0].args[0]) is arr:
                why = loops.covers(F, e.node, e.where.args[1], C(0), size, lambda k: aborts(F, k))
                ok = ok or not why
            if e.kind == 'call' and e.name in ('memset', 'std::fill', 'std::fill_n', 'std::memset') and F.feasible(e.node):
                a = [norm(F, x) for x in e.args]
                ok = ok or (a and F.deref(a[0]).op == 'el' and norm(F, F.deref(a[0]).args[0].args[0]) is arr and filled(a, arr, size))
        v = norm(F, F.load(F.endst[F.exit], T('buf', arr))) if not ok else None
        if v is not None and v.op == 'alg' and 'fill' in str(v.args[0]):
            ok = any(x is size for x in v.args) or any(x is size for x in walk(v)) and any(x is C(1) for x in v.args)
        if not ok:
            # filled when it was allocated, or by an algorithm over the whole array
            for e in F.events:
                if e.kind == 'call' and e.name and e.name.split('::')[-1] in ('fill', 'fill_n') and F.feasible(e.node):
                    a = [norm(F, x) for x in e.args]
                    lo = a[0]
                    whole_ = (lo is arr or F.deref(lo) is el(T('buf', arr), C(0))) and a[-1] in (C(1), TRUE)
                    n = a[1] if e.name.endswith('fill_n') else sub(a[1], lo)
                    ok = ok or (whole_ and norm(F, n) is size)
        ctx.check('empty', nm, ok, f['loc'], 'marking the slots empty ' + why)


def filled(a, arr, size):
    return False


def consistent(ctx):
    roots = inst(ctx, 'HashTable') + growers(ctx)
    for f in roots:
        F = ctx.flow(f, stop=stops(ctx))
        nm = f['n'].split('::')[-1] + str(len(f['params']))
        fin = {n: norm(F, F.final(F.field(n))) for n in ('buckets_', 'empty_', 'bucket_size_', 'prime_idx_')}
        if fin['buckets_'].op == 'init':
            continue
        for n in ('buckets_', 'empty_'):
            ns = [e for e in F.events if e.kind == 'new' and norm(F, e.val) is fin[n]]
            ctx.check('consistent', nm + '/' + n, len(ns) == 1 and len(ns[0].args) >= 1 and
                      norm(F, ns[0].args[0]) is fin['bucket_size_'], f['loc'], '%s does not have the recorded size' % n)
        l = place(F, fin['bucket_size_'])
        ctx.check('consistent', nm + '/size', l is not None and l.op == 'el' and 'gPrimeNumbers' in str(l.args[0]) and
                  l.args[1] is fin['prime_idx_'], f['loc'], 'the recorded size is not the one listed')
    for n in ('Find', 'Insert', 'Clear'):
        for f in inst(ctx, n):
            F = ctx.flow(f, stop=stops(ctx) + [g['n'] for g in growers(ctx)])
            bad = [e for e in F.events if e.kind == 'store' and F.feasible(e.node) and e.where in
                   [F.field(x) for x in ('buckets_', 'empty_', 'bucket_size_', 'prime_idx_')]]
            ctx.check('consistent', n, not bad, f['loc'], 'an array or its size is replaced in %s' % n)


# ------------------------------------------------------------------ the beam
def follows(ctx):
    # Initialize is the start of a new decoder, whose index is empty
    for name in ('Decoder::Process',):
        F = process(ctx)
        clears = calls(F, HT + 'Clear')
        ins = calls(F, INSERT)
        for e in F.events:
            if e.kind != 'call' or not F.feasible(e.node) or e.obj is None:
                continue
            op = (e.name or '').split('::')[-1]
            objs = [e.obj] + [x for x in e.args if op == 'swap']
            if op not in ('clear', 'swap') or not any('toks_' in names(o) for o in objs if hasattr(o, 'op')):
                continue
            # between emptying the beam and the next insertion, or since the last one before, the index is emptied
            before = [c for c in clears if F.evdom(c, e) and not any(F.evdom(c, i) and F.evdom(i, e) for i in ins)]
            R = F.assume(e.node, [], stop={c.node for c in clears})
            after = not any(i.node in R.nodes or i.node is e.node and False for i in ins if
                            not any(c.node is i.node for c in clears))
            ctx.check('follows', name.split('::')[-1] + '/' + op, bool(before) or after, e.loc,
                      'the beam is emptied but not the index of its states')
