"""Second language-model scores are exact differences with back-off."""
from rules.dec import *

LM, FST, DL, CF = PK + 'LmFst::', PK + 'Fst::', PK + 'DeltaLmFst::', PK + 'CachedFst::'
FIELDS = ('next_state', 'input_label', 'output_label', 'weight')


def run(ctx):
    ctx.rule('back-off', 'a language-model lookup is the arc of that state and word if there is one, and otherwise '
             'the lookup in the destination of the back-off arc plus the weight of that arc, once', 6)
    ctx.rule('arcs', 'the arcs searched for a state are exactly those of the state; an arc is returned only for the '
             'label asked for; the back-off arc is the one without a label', 6)
    ctx.rule('final', 'a final cost is that of the state or that of the back-off destination plus the back-off weight', 3)
    ctx.rule('difference', 'the correction for a word is the large model\'s weight minus the small model\'s for the '
             'same word; the rest of the arc is unchanged; the final correction is that of the end symbol', 6)
    ctx.rule('cache', 'a cached arc is handed out only for the state and label it was stored for, and only results of '
             'successful lookups are stored, state and arc together', 6)
    ctx.rule('direct', 'the direct table of state 0 holds, under each label, the arc of state 0 with that label', 3)
    lookup(ctx)
    count(ctx)
    getarc(ctx)
    backoff(ctx)
    final(ctx)
    bucket(ctx)
    delta(ctx)
    cache(ctx)


def arcval(F, v, obj):
    """the arc an out parameter holds: one term per field"""
    return [norm(F, sel(v, f)) for f in FIELDS]


def out(F, g, k):
    return [x for x in F.defnode if x.op == 'out' and F.defnode[x] is g.node and x.args[0] is g.val.args[0] and
            x.args[1] == k]


def same_out(F, g, k, vals):
    """vals are the fields of what call g left in its k-th argument"""
    os = out(F, g, k)
    return [any(v is sel(o, f) for o in os) for f, v in zip(FIELDS, vals)]


def backs(F, v):
    """v is the back-off arc of a state: the state, else None"""
    v = norm(F, v)
    if v.op == 'm' and v.args[0] == 'GetBackoffArc':
        return v.args[2]
    for e in F.events:
        if e.kind == 'call' and e.name == LM + 'GetBackoffArc' and norm(F, e.val) is v:
            return norm(F, e.args[0])
    return None


def back_field(F, v, name):
    l = place(F, v)
    if l is not None and l.op == 'fld' and l.args[1] == name and l.args[0].op == 'deref':
        s = backs(F, l.args[0].args[0])
        if s is not None:
            return s, l.args[0].args[0]
    return None, None


def result(ctx, F, ret, obj):
    fs = [F.final(fld(obj, f)) for f in FIELDS]
    cs = cases(F, [ret] + fs, F.exit)
    if cs is None:
        raise AnalysisBroken('too many cases in a lookup')
    for (r, *v), g in cs:
        yield norm(F, r), [norm(F, x) for x in v], g


def success(F, r, g):
    r = truth(r)
    if r is TRUE or r is FALSE:
        return r is TRUE
    return F.decide(r, g)


# ------------------------------------------------------------------ LmFst::GetArc
def lookup(ctx):
    F = ctx.flow('LmFst::GetArc', stop=[LM + 'GetArc', FST + 'GetArc', LM + 'GetBackoffArc'])
    f = ctx.fn('LmFst::GetArc')
    at = f['loc']
    s0, lab, obj = F.paramval(0), F.paramval(1), F.paramobj(2)
    direct, rec = calls(F, FST + 'GetArc'), calls(F, LM + 'GetArc')
    if not direct:
        raise AnalysisBroken('LmFst::GetArc: no lookup of arcs')
    # where a loop follows the back-off arcs, the state and the weight so far are merged at its header
    st = {norm(F, g.args[0]) for g in direct}
    loopst = [s for s in st if s.op == 'phi' and F.defnode.get(s) in F.loops()]
    acc = walkback(ctx, F, loopst[0], s0, at) if loopst else {}
    kinds = set()
    for r, v, g in result(ctx, F, F.ret, obj):
        res = success(F, r, g)
        if res is None:
            # the answer of a lookup passed on
            gs = [x for x in direct + rec if x.val is r]
            if gs and all(same_out(F, gs[0], 2, v)) and gs[0] in direct and right(F, gs[0], s0, lab, loopst):
                kinds.add('direct')
                continue
            ctx.bad('back-off', 'answer', at, 'the answer %s does not follow from the lookups' % show(r))
            continue
        dfail = [x for x in direct if F.decide(truth(x.val), g) is False and right(F, x, s0, lab, loopst)]
        if not res:
            nob = [x for x in walk_facts(g) if backs(F, x) is not None and F.decide(eq(x, NULL), g) is True]
            ok = bool(dfail) and (any(F.decide(truth(x.val), g) is False for x in rec) or bool(nob))
            ctx.check('back-off', 'given-up', ok, at, 'a word is reported missing although the state or a back-off '
                      'state may have it')
            kinds.add('fail')
            continue
        k = kind(ctx, F, v, g, s0, lab, direct, rec, loopst, acc, at, dfail)
        kinds.add(k)
    ctx.check('back-off', 'followed', 'back' in kinds, at, 'the back-off arc is never followed')
    if loopst:
        kinds.add('direct')        # the first round
    ctx.check('back-off', 'own-arc', 'direct' in kinds, at, 'the arcs of the state itself are never used')
    for x in direct:
        ctx.check('back-off', 'direct/label', norm(F, x.args[1]) is lab, x.loc, 'another word is looked up')


def walk_facts(fs):
    return {x for f in fs for x in walk(f)}


def right(F, x, s0, lab, loopst):
    return norm(F, x.args[0]) in ([s0] + loopst) and norm(F, x.args[1]) is lab


def walkback(ctx, F, s, s0, at):
    """s follows the back-off arcs; {merge: True} for sums of their weights"""
    H = F.defnode[s]
    body = F.loops()[H]
    acc = {}
    back = None
    for k, v in F.phis[s].items():
        if F.E.get(k) is None:
            continue
        v = norm(F, v)
        if k[0] not in body:
            ctx.check('back-off', 'from-state', v is s0, at, 'the lookup starts in another state')
            continue
        b, back = back_field(F, v, 'next_state')
        ctx.check('back-off', 'destination', b is s, at, 'the next state tried is not the back-off destination')
    for p in F.at(H):
        ok = True
        for k, v in F.phis[p].items():
            v = norm(F, v)
            if k[0] not in body:
                ok = ok and v is C(0)
            else:
                b, q = back_field(F, sub(v, p), 'weight')
                ok = ok and b is s and q is back
        if ok:
            acc[p] = True
    return acc


def kind(ctx, F, v, g, s0, lab, direct, rec, loopst, acc, at, dfail):
    # the direct table
    l = place(F, v[0])
    if l is not None and l.op == 'fld' and l.args[0].op == 'el' and 'bucket_0_' in names(l.args[0].args[0]):
        item = l.args[0]
        ok = all(place(F, x) is fld(item, n) for x, n in zip(v, FIELDS))
        ctx.check('back-off', 'table/arc', ok, at, 'the arc of the direct table is changed')
        ctx.check('back-off', 'table/index', norm(F, item.args[1]) is lab, at, 'another entry of the direct table is used')
        ctx.check('back-off', 'table/state', F.decide(eq(s0, C(0)), g) is True, at,
                  'the direct table of state 0 is used for other states')
        ctx.check('back-off', 'table/label', any(F.decide(eq(x, lab), g) is True for x in walk_facts(g) | {v[1]}
                  if place(F, x) is fld(item, 'input_label')), at, 'an entry of the direct table is used for another word')
        return 'table'
    # the state's own arc
    for x in direct:
        so = same_out(F, x, 2, v)
        if so[0] and so[1]:
            ctx.check('back-off', 'own/found', F.decide(truth(x.val), g) is True, at, 'an arc is used that was not found')
            rest = sub(v[3], sel(out(F, x, 2)[0], 'weight')) if out(F, x, 2) else v[3]
            if loopst and acc and rest in acc:
                ctx.check('back-off', 'sum', True, at)
                return 'back' if norm(F, x.args[0]) in loopst else 'direct'
            if loopst and norm(F, x.args[0]) in loopst:
                ctx.bad('back-off', 'sum', at, 'the weight is not that of the arc plus the back-off weights: %s' % show(v[3]))
                return 'back'
            ctx.check('back-off', 'own/weight', so[3], at, 'the weight of an arc is changed: %s' % show(v[3]))
            ctx.check('back-off', 'own/state', right(F, x, s0, lab, loopst), at, 'the arc of another state is used')
            return 'direct'
    for x in rec:
        so = same_out(F, x, 2, v)
        if so[0] and so[1]:
            ctx.check('back-off', 'back/found', F.decide(truth(x.val), g) is True, at, 'an arc is used that was not found')
            b, q = back_field(F, norm(F, x.args[0]), 'next_state')
            ctx.check('back-off', 'back/destination', b is s0, at, 'the lookup does not continue in the back-off destination')
            ctx.check('back-off', 'back/label', norm(F, x.args[1]) is lab, at, 'another word is looked up after backing off')
            ctx.check('back-off', 'back/last', bool(dfail), at, 'backing off although the state may have the word')
            d, k = lin(sub(v[3], sel(out(F, x, 2)[0], 'weight')))
            bw = [back_field(F, y, 'weight') for y in d]
            ctx.check('back-off', 'back/weight', k == 0 and len(d) == 1 and list(d.values()) == [1] and
                      bw[0][0] is s0 and bw[0][1] is q, at, 'the weight after backing off is %s' % show(v[3]))
            return 'back'
    ctx.bad('back-off', 'other', at, 'the arc returned is %s' % ', '.join(show(x) for x in v))
    return None


# ------------------------------------------------------------------ arcs of a state
def index_of(F, v):
    """v is state_idx_[s]: s"""
    l = place(F, v)
    return l.args[1] if l is not None and l.op == 'el' and 'state_idx_' in names(l.args[0]) else None


def above(F, p, s):
    """p counts up one by one from the state after s"""
    st = F.steps(p) if p.op == 'phi' and F.defnode.get(p) in F.loops() else None
    return bool(st) and st[0] is add(s, C(1)) and all(y is C(1) for y in st[1])


def count(ctx):
    F = ctx.flow('Fst::CountArcs')
    f = ctx.fn('Fst::CountArcs')
    at = f['loc']
    s = F.paramval(0)
    n = 0
    for (r,), g in cases(F, (F.ret,), F.exit, deep=True) or []:
        r = norm(F, r)
        if any(above(F, p, s) and F.decide(lt(p, C(0), True), g) is True for p in walk_facts(g)):
            continue        # counting up from a state never reaches a negative one
        own = [x for x in walk_facts(g) | set(lin(r)[0]) if index_of(F, x) is s]
        n += 1
        if r is C(0):
            ctx.check('arcs', 'count/none', any(F.decide(lt(x, C(0), True), g) is True for x in own), at,
                      'a state with arcs is taken for one without')
            continue
        d, k = lin(r)
        st = [x for x, c in d.items() if c == -1 and index_of(F, x) is s]
        rest = [x for x in d if x not in st]
        if k or len(st) != 1 or len(rest) != 1 or d[rest[0]] != 1:
            ctx.bad('arcs', 'count/value', at, 'the number of arcs is %s' % show(r))
            continue
        x = rest[0]
        l = place(F, x)
        t = index_of(F, x)
        if t is not None:
            # the next state that has arcs: found going up from the state, one by one
            gs = loops.after(F, F.defnode[t], g) if t.op == 'phi' and F.defnode[t] in F.loops() else []
            ctx.check('arcs', 'count/next-has-arcs', F.decide(le(C(0), x, True), g) is True or
                      (bool(gs) and all(F.decide(le(C(0), x, True), h) is True for h in gs)), at, 'the end of the arcs is taken from a state without arcs')
            ps = [y for y in lin(t)[0]]
            p = t if t.op == 'phi' else None
            ok = p is not None and above(F, p, s)
            ctx.check('arcs', 'count/next', ok, at, 'the end of the arcs is not taken from the next state with arcs')
            if ok:
                # passed over only without arcs
                H = F.defnode[p]
                for k in loops.latches(F, H):
                    y = [z for z in walk_facts(F.E[k]) if index_of(F, z) is p]
                    ctx.check('arcs', 'count/skips', any(F.decide(le(z, C(0), True), frozenset(F.E[k])) is True for z in y),
                              at, 'a state with arcs is passed over')
        elif l is not None and l.op == 'fld' and l.args[1] == '#size' and 'arcs_' in names(l):
            # only after all later states were examined
            ok = False
            for H in F.loops():
                ex = [k for k in loops.exits(F, H) if not aborts(F, k)]
                for p in F.at(H):
                    if above(F, p, s):
                        sz = [y for y in walk_facts(g) if (lambda l: l is not None and l.op == 'fld' and
                              l.args[1] == '#size' and 'state_idx_' in names(l))(place(F, y))]
                        ok = ok or any(F.decide(le(y, p, True), g) is True for y in sz)
            ctx.check('arcs', 'count/last', ok, at, 'the end of all arcs is used although a later state may have arcs')
        else:
            ctx.bad('arcs', 'count/value', at, 'the end of the arcs is %s' % show(x))
    if n < 2:
        raise AnalysisBroken('Fst::CountArcs: %d cases' % n)


def getarc(ctx):
    F = ctx.flow('Fst::GetArc', stop=[FST + 'CountArcs'])
    f = ctx.fn('Fst::GetArc')
    at = f['loc']
    s, lab, obj = F.paramval(0), F.paramval(1), F.paramobj(2)
    cnt = [norm(F, e.val) for e in calls(F, FST + 'CountArcs') if norm(F, e.args[0]) is s]
    search = [e for e in F.events if e.kind == 'call' and e.name in ('std::lower_bound',) and F.feasible(e.node)]
    for r, v, g in result(ctx, F, F.ret, obj):
        res = success(F, r, g)
        l = place(F, v[0])
        if res is None:
            ctx.bad('arcs', 'get/answer', at, 'the answer does not follow from the search')
            continue
        if res:
            item = l.args[0] if l is not None and l.op == 'fld' else None
            ok = item is not None and all(place(F, x) is fld(item, n) for x, n in zip(v, FIELDS))
            ctx.check('arcs', 'get/arc', ok, at, 'the arc returned is put together from different places')
            il = [x for x in walk_facts(g) | {v[1]} if item is not None and place(F, x) is fld(item, 'input_label')]
            ctx.check('arcs', 'get/label', any(F.decide(eq(x, lab), g) is True for x in il), at,
                      'an arc with another label is returned')
            continue
        # not found
        ok = missing(F, g, s, lab, cnt, search)
        ctx.check('arcs', 'get/missing', ok, at, 'a label is reported missing although the state may have it')
    for e in search:
        lo, hi = norm(F, e.args[0]), norm(F, e.args[1])
        a = F.deref(lo)
        good = a.op == 'el' and 'arcs_' in names(a.args[0]) and index_of(F, a.args[1]) is s and \
            any(sub(hi, lo) is c for c in cnt)
        ctx.check('arcs', 'get/range', good, e.loc, 'the arcs searched are not those of the state')
        key = norm(F, e.args[2])
        ctx.check('arcs', 'get/key', norm(F, sel(key, 'input_label')) is lab, e.loc, 'another label is searched')
        ctx.check('arcs', 'get/order', comparator(ctx, F, e.args[3] if len(e.args) > 3 else None), e.loc,
                  'the arcs are not compared by label, ascending')


def missing(F, g, s, lab, cnt, search):
    """under g no arc of the state has the label"""
    if any(F.decide(eq(c, C(0)), g) is True or F.decide(le(c, C(0), True), g) is True for c in cnt):
        return True
    for e in search:
        q = norm(F, e.val)
        if F.decide(eq(q, norm(F, e.args[1])), g) is True:
            return True
        # the first not smaller one, if any, has another label
        R = F.assume(e.node, [NOT(eq(q, norm(F, e.args[1])))])
        cs = cases(F, (F.ret,), F.exit, R=R)
        n = 0
        for (r,), h in cs or []:
            if F.decide(truth(r), h) is True:
                continue
            h = set(h)
            F.expand(NOT(truth(r)), h, None)
            if not close(F, h):
                continue
            h = frozenset(h)
            ls = [x for x in walk_facts(h) if x.op == 'init' and x.args[0].op == 'fld' and
                  x.args[0].args[1] == 'input_label' and x.args[0].args[0] is F.deref(q)]
            if not any(F.decide(eq(x, lab), h) is False for x in ls):
                break
            n += 1
        else:
            return n > 0
    return not search and (scanned(F, g, s, lab, cnt) or halved(F, g, s, lab, cnt))


def comparator(ctx, F, t):
    if t is None or t.op != 'func':
        return False
    fs = [f for f in ctx.prog.functions.values() if f['u'] == t.args[0]] if any('u' in f for f in
         list(ctx.prog.functions.values())[:1]) else []
    fn = ctx.prog.functions.get(t.args[0]) or (fs[0] if fs else None)
    if fn is None:
        return False
    G = ctx.flow(fn)
    a, b = [fld(G.paramobj(i), 'input_label') for i in (0, 1)]
    r = norm(G, G.ret)
    return r is lt(T('init', a), T('init', b), True)


def scanned(F, g, s, lab, cnt):
    """a loop over all arcs of the state that is only left at the end or at a match"""
    for H in F.loops():
        for p in F.at(H):
            for x in {y for t in F.econd.values() for y in walk(t)}:
                l = place(F, x)
                if l is None or l.op != 'fld' or l.args[1] != 'input_label' or l.args[0].op != 'el' or \
                        'arcs_' not in names(l.args[0].args[0]):
                    continue
                i = l.args[0].args[1]
                if p not in walk(i):
                    continue
                base = [y for y in {z for t in F.econd.values() for z in walk(t)} | walk(i) if index_of(F, y) is s]
                for b in base:
                    for c in cnt:
                        w = loops.covers(F, H, i, b, add(b, c), lambda k: aborts(F, k) or
                                         F.decide(eq(x, lab), frozenset(F.E[k])) is True or
                                         F.decide(lt(lab, x, True), frozenset(F.E[k])) is True)
                        if not w:
                            return True
    return False


def halved(F, g, s, lab, cnt):
    """a binary search for the first arc of the state that is not below the label; what it found is another one"""
    label = lambda i: [x for t in list(F.econd.values()) + list(g) for x in walk(t) if (lambda l: l is not None and l.op == 'fld' and
                       l.args[1] == 'input_label' and l.args[0].op == 'el' and 'arcs_' in names(l.args[0].args[0]) and
                       l.args[0].args[1] is i)(place(F, x))]
    for H in F.loops():
        body = F.loops()[H]
        for lo in F.at(H):
            for hi in F.at(H):
                if lo is hi:
                    continue
                ini = lambda p: {norm(F, v) for k, v in F.phis[p].items() if k[0] not in body}
                if len(ini(lo)) != 1 or len(ini(hi)) != 1:
                    continue
                (a,), (b,) = ini(lo), ini(hi)
                if index_of(F, a) is not s or b not in [norm(F, add(a, c)) for c in cnt]:
                    continue
                if not all(F.decide(lt(lo, hi, True), frozenset(F.E[k])) is False for k in loops.exits(F, H) if not aborts(F, k)):
                    continue
                ok = True
                for k in loops.latches(F, H):
                    for (x, y), fs in cases(F, (F.phis[lo][k], F.phis[hi][k]), k[0], extra=F.E[k]) or [((None, None), ())]:
                        mid = y if x is lo else norm(F, sub(x, C(1))) if y is hi and x is not None else None
                        ok = ok and mid is not None and mid in mids(F, lo, hi) and any(
                            F.decide(lt(z, lab, True), frozenset(fs)) is (x is not lo) for z in label(mid))
                if ok and (F.decide(eq(lo, b), g) is True or any(F.decide(eq(z, lab), g) is False for z in label(lo))):
                    return True
    return False


def mids(F, lo, hi):
    """the middle between two indices, as it may be written"""
    seen = set()
    for t in list(F.econd.values()) + list(F.defnode):
        for x in walk(t):
            if x.op == 'el' and x.args[1] not in seen:
                i = x.args[1]
                r = norm(F, sub(i, lo))
                for want, v in ((norm(F, sub(hi, lo)), r), (norm(F, add(lo, hi)), i)):
                    if v.op in ('div', 'idiv', 'shr') and v.args[0] is want and v.args[1] in (C(2) if v.op != 'shr' else C(1),):
                        seen.add(i)
    return seen


def backoff(ctx):
    F = ctx.flow('LmFst::GetBackoffArc', stop=[FST + 'CountArcs'])
    f = ctx.fn('LmFst::GetBackoffArc')
    at = f['loc']
    s = F.paramval(0)
    cnt = [norm(F, e.val) for e in calls(F, FST + 'CountArcs') if norm(F, e.args[0]) is s]
    seen = set()
    for (r,), g in cases(F, (F.ret,), F.exit) or []:
        r = norm(F, r)
        lab = [(x, place(F, x)) for x in walk_facts(g)]
        lab = [(x, l) for x, l in lab if l is not None and l.op == 'fld' and l.args[1] == 'input_label' and
               l.args[0].op == 'el' and 'arcs_' in names(l.args[0].args[0]) and index_of(F, l.args[0].args[1]) is s]
        if r is NULL:
            ok = any(F.decide(eq(c, C(0)), g) is True or F.decide(le(c, C(0), True), g) is True for c in cnt) or \
                any(F.decide(eq(x, C(0)), g) is False for x, _ in lab) or \
                any(index_of(F, x) is s and F.decide(lt(x, C(0), True), g) is True for x in walk_facts(g))
            ctx.check('arcs', 'back-off/none', ok, at, 'the back-off arc is not found although the first arc may be it')
            seen.add(0)
            continue
        l = F.deref(r)
        ok = l.op == 'el' and 'arcs_' in names(l.args[0]) and index_of(F, l.args[1]) is s
        ctx.check('arcs', 'back-off/first', ok, at, 'the back-off arc is not the first arc of the state')
        ctx.check('arcs', 'back-off/epsilon', any(F.decide(eq(x, C(0)), g) is True for x, _ in lab), at,
                  'an arc with a label is used for backing off')
        ctx.check('arcs', 'back-off/exists', any(F.decide(eq(c, C(0)), g) is False for c in cnt) or
                  any(index_of(F, x) is s and F.decide(le(C(0), x, True), g) is True for x in walk_facts(g)), at,
                  'an arc is used for backing off from a state without arcs')
        seen.add(1)
    ctx.check('arcs', 'back-off/cases', seen == {0, 1}, at, 'there is never, or always, a back-off arc')


# ------------------------------------------------------------------ final costs
def final(ctx):
    F = ctx.flow('LmFst::Final', stop=[LM + 'Final', FST + 'Final', LM + 'GetBackoffArc'])
    at = ctx.fn('LmFst::Final')['loc']
    s0 = F.paramval(0)

    def own(x):
        return any(x is norm(F, e.val) for e in calls(F, FST + 'Final') if norm(F, e.args[0]) is s0)
    recs = calls(F, LM + 'Final')
    n = set()
    for (r,), g in cases(F, (F.ret,), F.exit) or []:
        r = norm(F, r)
        infin = [x for x in walk_facts(g) if x.op == 'fn' and x.args[0] == 'isfinite']
        if own(r):
            n.add('own')
            continue
        notfin = any(own(x.args[1]) and F.decide(x, g) is False for x in infin) or \
            any(own(x) and F.decide(eq(x, C(float('inf'))), g) is True for x in walk_facts(g))
        ctx.check('final', 'own-first', notfin, at, 'backing off although the state may be final')
        if r.op == 'inf' or (r.op == 'c' and r.args[0] == float('inf')):
            nob = any(backs(F, x) is s0 and F.decide(eq(x, NULL), g) is True for x in walk_facts(g))
            rf = any(F.decide(x, g) is False and not own(x.args[1]) for x in infin)
            ctx.check('final', 'none', nob or rf, at, 'no final cost although a back-off state may have one')
            n.add('none')
            continue
        d, k = lin(r)
        rc = [x for x in d if any(x is norm(F, e.val) for e in recs)]
        bw = [(x, back_field(F, x, 'weight')) for x in d if x not in rc]
        ok = k == 0 and len(rc) == 1 and len(bw) == 1 and all(c == 1 for c in d.values()) and bw[0][1][0] is s0
        if ok:
            e = [e for e in recs if norm(F, e.val) is rc[0]][0]
            b, q = back_field(F, norm(F, e.args[0]), 'next_state')
            ok = b is s0 and q is bw[0][1][1]
        ctx.check('final', 'backed-off', ok, at, 'the final cost after backing off is %s' % show(r))
        n.add('back')
    ctx.check('final', 'cases', {'own', 'back'} <= n, at, 'cases handled: %s' % sorted(n))
    G = ctx.flow('Fst::Final')
    l = place(G, G.ret)
    ctx.check('final', 'read', l is not None and l.op == 'el' and 'final_' in names(l.args[0]) and
              l.args[1] is G.paramval(0), ctx.fn('Fst::Final')['loc'], 'the final cost read is that of another state')


# ------------------------------------------------------------------ the direct table
def bucket(ctx):
    F = ctx.flow('LmFst::InitBucket0', stop=[FST + 'IterateArcs', FST + 'ArcIterator::Next'])
    at = ctx.fn('LmFst::InitBucket0')['loc']
    its = calls(F, FST + 'IterateArcs')
    ctx.check('direct', 'state', bool(its) and all(norm(F, e.args[0]) is C(0) for e in its), at,
              'the table is filled from another state')
    n = clear = 0
    for e in F.events:
        if not F.feasible(e.node):
            continue
        w = e.where if e.kind == 'store' else e.obj if e.kind == 'call' and (e.name or '').endswith('::operator=') else None
        if w is None or 'bucket_0_' not in names(w):
            continue
        while w.op == 'fld' and w.args[0].op != 'el' and w.args[1] != 'bucket_0_':
            w = w.args[0]
        if w.op == 'el':
            # a whole arc
            v = norm(F, e.args[0] if e.kind == 'call' else e.val)
            l = place(F, v)
            key = place(F, w.args[1])
            p = l.args[0] if l is not None and l.op == 'deref' else None
            ok = p is not None and key is fld(deref(p), 'input_label') and any(norm(F, c.val) is p for c in
                                                                            calls(F, FST + 'ArcIterator::Next'))
            ctx.check('direct', 'entry', ok, e.loc, 'an entry of the table is not the arc with that label')
            n += 1
            hs = loops.rounds(F, e.node)
            if hs:
                done = list(loops.exits(F, hs[0]))
                ctx.check('direct', 'all', all(aborts(F, k) or any(F.decide(eq(norm(F, c.val), NULL), frozenset(F.E[k])) is
                          True for c in calls(F, FST + 'ArcIterator::Next')) for k in done), e.loc,
                          'the table is filled with some of the arcs only')
        elif w.op == 'fld' and w.args[0].op == 'el':
            # no word has the label 0
            ok = w.args[1] == 'input_label' and e.kind == 'store' and e.val.op == 'c' and e.val.args[0] <= 0
            ctx.check('direct', 'unused', ok, e.loc, 'an entry of the table is changed to %s' % show(e.val))
            size = [norm(F, add(x, C(0))) for x in (F.load(F.endst[e.node], fld(w.args[0].args[0].args[0], '#size')),)]
            why = loops.covers(F, e.node, w.args[0].args[1], C(0), size[0], lambda k: aborts(F, k))
            ctx.check('direct', 'cleared', not why, e.loc, 'the entry marked unused ' + why)
            clear += 1
    if not n:
        ctx.bad('direct', 'entry', at, 'the table is never filled')
    if not clear:
        # made with a label that is none
        d = norm(F, F.final(fld(F.field("bucket_0_"), "#data")))
        clear = any(x.op == 'c' and isinstance(x.args[0], int) and x.args[0] < 0 for y in walk(d)
                    for x in (norm(F, sel(y, 'input_label')),) if y.op in ('agg', 'fill'))
    ctx.check('direct', 'marked', bool(clear), at, 'entries without an arc are not marked unused')


# ------------------------------------------------------------------ differences
def small(F, v):
    """v is the small model's weight of a word: the word"""
    l = place(F, v)
    return l.args[1] if l is not None and l.op == 'el' and 'small_lm_' in names(l.args[0]) else None


def delta(ctx):
    F = ctx.flow('DeltaLmFst::GetArc', stop=[LM + 'GetArc'])
    at = ctx.fn('DeltaLmFst::GetArc')['loc']
    s, lab, obj = F.paramval(0), F.paramval(1), F.paramobj(2)
    gs = calls(F, LM + 'GetArc')
    ctx.check('difference', 'lookup', len(gs) == 1 and norm(F, gs[0].args[0]) is s and norm(F, gs[0].args[1]) is lab, at,
              'the large model is asked for another state or word')
    if len(gs) != 1:
        return
    e = gs[0]
    for r, v, g in result(ctx, F, F.ret, obj):
        found = F.decide(truth(e.val), g)
        res = success(F, r, g)
        ctx.check('difference', 'answer', found is not None and res is found or r is e.val, at,
                  'the answer is not that of the large model')
        if res is False:
            continue
        os = out(F, e, 2)
        so = same_out(F, e, 2, v)
        ctx.check('difference', 'arc', bool(os) and so[0] and so[1] and so[2], at,
                  'more than the weight of the large model\'s arc is changed')
        d, k = lin(sub(v[3], sel(os[0], 'weight')) if os else v[3])
        ctx.check('difference', 'weight', k == 0 and len(d) == 1 and list(d.values()) == [-1] and
                  small(F, list(d)[0]) is lab, at, 'the correction is %s' % show(v[3]))
    # final
    F = ctx.flow('DeltaLmFst::Final', stop=[LM + 'GetArc', LM + 'Final'])
    at = ctx.fn('DeltaLmFst::Final')['loc']
    gs = calls(F, LM + 'GetArc')
    eos = T('init', F.field('eos_symbol_'))
    ctx.check('difference', 'final/end-symbol', len(gs) == 1 and norm(F, gs[0].args[0]) is F.paramval(0) and
              norm(F, gs[0].args[1]) is eos, at, 'the final correction is not that of the end symbol in this state')
    if len(gs) == 1:
        e = gs[0]
        for (r,), g in cases(F, (F.ret,), F.exit) or []:
            r = norm(F, r)
            found = F.decide(truth(e.val), g)
            if r.op == 'inf' or (r.op == 'c' and r.args[0] == float('inf')):
                ctx.check('difference', 'final/none', found is False, at, 'no final correction although there is one')
                continue
            d, k = lin(r)
            o = out(F, e, 2)[0]
            fin = [x for x in d if any(norm(F, c.val) is x and norm(F, c.args[0]) is sel(o, 'next_state')
                                       for c in calls(F, LM + 'Final'))]
            w = [x for x in d if x is sel(o, 'weight')]
            sm = [x for x in d if small(F, x) is eos]
            ok = found is True and k == 0 and len(d) == 3 and len(fin) == len(w) == len(sm) == 1 and \
                d[fin[0]] == 1 and d[w[0]] == 1 and d[sm[0]] == -1
            ctx.check('difference', 'final/value', ok, at, 'the final correction is %s' % show(r))
    # start
    F = ctx.flow('DeltaLmFst::StartState', stop=[LM + 'GetArc'])
    at = ctx.fn('DeltaLmFst::StartState')['loc']
    gs = calls(F, LM + 'GetArc')
    bos = T('init', F.field('bos_symbol_'))
    ok = len(gs) == 1 and norm(F, gs[0].args[1]) is bos and startstate(F, norm(F, gs[0].args[0]))
    ctx.check('difference', 'start/begin-symbol', ok, at, 'the search does not start after the begin symbol')
    for (r,), g in cases(F, (F.ret,), F.exit) or []:
        found = F.decide(truth(gs[0].val), g) if gs else None
        r = norm(F, r)
        ctx.check('difference', 'start/state', (found is True and any(r is sel(o, 'next_state') for o in out(F, gs[0], 2)))
                  or (found is False and startstate(F, r)), at, 'the start state is %s' % show(r))
    # what the fields are
    F = ctx.flow('DeltaLmFst::DeltaLmFst')
    at = ctx.fn('DeltaLmFst::DeltaLmFst')['loc']

    want = {'small_lm_': lambda v: v is F.paramval(0), 'lm_': lambda v: v is F.paramval(1),
            'bos_symbol_': lambda v: symbol(F, v, 'bos_id_'), 'eos_symbol_': lambda v: symbol(F, v, 'eos_id_')}
    for n, ok in want.items():
        v = norm(F, F.final(F.field(n)))
        ctx.check('difference', 'field/' + n, ok(v), at, '%s is set to %s' % (n, show(v)))


def symbol(F, v, name):
    l = place(F, v)
    return l is not None and l.op == 'fld' and l.args[1] == name and l.args[0] is deref(F.paramval(2))


def startstate(F, v):
    l = place(F, v)
    return (l is not None and l.op == 'fld' and l.args[1] == 'start_state_' and 'lm_' in names(l.args[0])) or \
        (v.op == 'm' and v.args[0] == 'StartState')


# ------------------------------------------------------------------ the cache
def cache(ctx):
    F = ctx.flow('CachedFst::GetArc')
    f = ctx.fn('CachedFst::GetArc')
    at = f['loc']
    s, lab, obj = F.paramval(0), F.paramval(1), F.paramobj(2)
    gs = [e for e in F.events if e.kind == 'call' and (e.name or '').endswith('Fst::GetArc') and F.feasible(e.node) and
          e.frame.fn['n'].endswith('CachedFst::GetArc')]
    if not gs:
        raise AnalysisBroken('CachedFst::GetArc: no lookup behind the cache')
    hits = []
    for e in gs:
        ctx.check('cache', 'miss', norm(F, e.args[0]) is s and norm(F, e.args[1]) is lab and
                  'fst_' in names(e.obj), e.loc, 'behind the cache another state or word is looked up')
    for r, v, g in result(ctx, F, F.ret, obj):
        l = place(F, v[0])
        if l is not None and 'buckets_' in names(l):
            item = l.args[0].args[0] if l.op == 'fld' and l.args[0].op == 'fld' and l.args[0].args[1] == 'second' else None
            ok = item is not None and all(place(F, x) is fld(fld(item, 'second'), n) for x, n in zip(v, FIELDS))
            hits.append(g)
            ctx.check('cache', 'hit/whole', ok, at, 'a cached arc is handed out changed')
            fx = walk_facts(g)
            ctx.check('cache', 'hit/state', item is not None and any(
                place(F, x) is fld(item, 'first') and F.decide(eq(x, s), g) is True for x in fx), at,
                'a cached arc of another state is handed out')
            ctx.check('cache', 'hit/label', item is not None and any(
                place(F, x) is fld(fld(item, 'second'), 'input_label') and F.decide(eq(x, lab), g) is True for x in fx), at,
                'a cached arc of another word is handed out')
            ctx.check('cache', 'hit/answer', truth(r) is TRUE, at, 'a hit is reported as missing')
            continue
        e = [x for x in gs if truth(r) is truth(x.val) or (F.decide(truth(x.val), g) is not None and
             success(F, r, g) is F.decide(truth(x.val), g))]
        e = [x for x in e if all(same_out(F, x, 2, v))] or ([x for x in e if success(F, r, g) is False])
        ctx.check('cache', 'miss/result', bool(e), at, 'what is returned is not what the lookup delivered')
    # what is stored
    ws = []
    for e in F.events:
        w = e.where if e.kind == 'store' else e.obj if e.kind == 'call' and (e.name or '').endswith('::operator=') else None
        if w is not None and 'buckets_' in names(w) and F.feasible(e.node):
            ws.append((e, w))
    firsts = [(e, w) for e, w in ws if w.op == 'fld' and w.args[1] == 'first']
    seconds = [(e, w) for e, w in ws if w.op == 'fld' and w.args[1] == 'second']
    whole = [(e, w) for e, w in ws if w.op == 'el']
    ctx.check('cache', 'store/parts', len(ws) == len(firsts) + len(seconds) + len(whole), at, 'a part of a cached arc is changed')
    for e, w in firsts + whole:
        v = norm(F, e.args[0] if e.kind == 'call' else e.val)
        k = v if w.op == 'fld' else norm(F, sel(v, 'first'))
        ctx.check('cache', 'store/state', k is s, e.loc, 'an arc is cached for another state')
        ctx.check('cache', 'store/found', any(F.decide(truth(x.val), frozenset(F.facts(e.node))) is True for x in gs), e.loc,
                  'a failed lookup is cached')
    for e, w in seconds + whole:
        v = norm(F, e.args[0] if e.kind == 'call' else e.val)
        a = v if w.op == 'fld' else norm(F, sel(v, 'second'))
        ok = any(all(same_out(F, x, 2, [norm(F, sel(a, n)) for n in FIELDS])) and
                 F.decide(truth(x.val), frozenset(F.facts(e.node))) is True for x in gs)
        ctx.check('cache', 'store/arc', ok, e.loc, 'what is cached is not the arc just found')
    for e, w in firsts:
        pair = [y for y, z in seconds if z.args[0] is w.args[0]]
        R = F.assume(e.node, [], stop={y.node for y in pair})
        ok = any(y.node is e.node or F.evdom(y, e) for y in pair) or (bool(pair) and F.exit not in R.nodes)
        ctx.check('cache', 'store/together', ok, e.loc, 'the state is recorded without the arc')
    for y, z in seconds:
        pair = [e for e, w in firsts if z.args[0] is w.args[0]]
        R = F.assume(y.node, [], stop={e.node for e in pair})
        ok = any(y.node is e.node or F.evdom(e, y) for e in pair) or (bool(pair) and F.exit not in R.nodes)
        ctx.check('cache', 'store/together', ok, y.loc, 'the arc is recorded without its state')
    # empty at first
    # a state never looked up in the cache marks an entry as unused
    zero = bool(hits) and all(F.decide(eq(s, C(0)), g) is False for g in hits)
    G = ctx.flow('CachedFst::CachedFst')
    at = ctx.fn('CachedFst::CachedFst')['loc']
    ok = False
    for e in G.events:
        if e.kind == 'store' and e.where is not None and e.where.op == 'fld' and e.where.args[1] == 'first' and \
                e.where.args[0].op == 'el' and 'buckets_' in names(e.where) and e.val.op == 'c' and (e.val.args[0] < 0 or (zero and e.val.args[0] == 0)):
            n = G.load(G.endst[e.node], fld(e.where.args[0].args[0].args[0], '#size'))
            ok = ok or not loops.covers(G, e.node, e.where.args[0].args[1], C(0), norm(G, n), lambda k: aborts(G, k))
    for v in [norm(G, G.load(G.endst[G.exit], fld(G.field('buckets_'), '#data')))]:
        if v.op in ('fill', 'resized') and norm(G, sel(v.args[-1], 'first')).op == 'c':
            ok = True
    ctx.check('cache', 'starts-empty', ok, at, 'the cache does not start empty')
    for nm in ('Final', 'StartState'):
        G = ctx.flow('CachedFst::' + nm, stop=[])
        r = norm(G, G.ret)
        ctx.check('cache', 'passes/' + nm, r.op in ('m', 'res') and (r.op == 'res' or (r.args[0] == nm and (
            nm != 'Final' or r.args[2] is G.paramval(0)))), ctx.fn('CachedFst::' + nm)['loc'], 'not passed on: %s' % show(r))
