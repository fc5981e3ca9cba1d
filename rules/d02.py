"""Which tokens and arcs may be dropped, and which must survive."""
from rules.dec import *
from rules import d01, e01


def run(ctx):
    ctx.rule('keep-cheaper', 'inserting into an occupied state replaces its token exactly when the new one is cheaper, '
             'into a free state always stores it, and the answer says whether it was stored', 7)
    ctx.rule('drop', 'every branch that leaves out an arc or a token is taken only for arcs of the other kind or for '
             'a cost above the current limit', 4)
    ctx.rule('limit', 'every value the limit can take is the cost of a real path plus the beam, or no limit', 6)
    ctx.rule('visit', 'every token of the beam and every arc of it is considered, and a state whose token changed '
             'is expanded again', 8)
    ctx.rule('frame', 'a frame is consumed once: emitting arcs leave tokens of the previous beam, other arcs those '
             'of the current one', 6)
    insert(ctx)
    F = process(ctx)
    arcs(ctx, F)
    tokens(ctx, F)
    queue(ctx, F)
    frame(ctx, F)
    phases(ctx, F)
    cutoff(ctx)


# ------------------------------------------------------------------ insertion
def insert(ctx):
    F = insertion(ctx)
    f = ctx.fn('Decoder::InsertTok')
    ns, cost = F.paramval(0), F.paramval(3)
    finds = calls(F, PK + 'HashTable::Find')
    if len(finds) != 1:
        raise AnalysisBroken('Decoder::InsertTok: %d lookups' % len(finds))
    g = finds[0]
    ctx.check('keep-cheaper', 'looked-up', norm(F, g.args[0]) is ns, g.loc, 'another state is looked up')
    none = norm(F, g.args[1])
    res = g.val
    news = {norm(F, e.val) for e in F.events if e.kind == 'new' and 'Token' in (e.name or '')}
    push = [e for e in F.events if e.kind == 'call' and (e.name or '').endswith(('::push_back', '::emplace_back')) and
            e.obj is not None and 'toks_' in names(e.obj) and norm(F, e.args[0]) in news]
    index = calls(F, PK + 'HashTable::Insert')
    repl = [e for e in F.events if e.kind == 'store' and e.where is not None and e.where.op == 'el' and
            'toks_' in names(e.where) and norm(F, e.val) in news]
    old = [x for t in F.econd.values() for x in walk(t)
           if x.op in ('init', 'sel', 'phi') and (lambda P: P is not None and (lambda l: l is not None and
               l.op == 'el' and l.args[1] is res)(place(F, P)))(of_token(F, x, ['cost_']))]
    if not push or not index or not repl or not old:
        raise AnalysisBroken('Decoder::InsertTok: push %d, index %d, replace %d, compare %d' % (
            len(push), len(index), len(repl), len(old)))
    old = old[0]
    stores = {e.node for e in push + repl}
    for nm, conds, want in (('free', [eq(res, none)], push), ('cheaper', [NOT(eq(res, none)), lt(cost, old, False)], repl)):
        R = F.assume(g.node, conds, stop={e.node for e in want})
        ctx.check('keep-cheaper', nm + '/stored', F.exit not in R.nodes and any(e.node in R.nodes for e in want),
                  f['loc'], 'the new token is not stored although %s' % (
                      'the state is free' if nm == 'free' else 'it is cheaper'))
        R = F.assume(g.node, conds)
        ctx.check('keep-cheaper', nm + '/answer', R.returns() == {TRUE}, f['loc'],
                  'a stored token is reported as refused')
    R = F.assume(g.node, [NOT(eq(res, none)), lt(old, cost, False)])
    ctx.check('keep-cheaper', 'dearer/kept', not any(n in R.nodes for n in stores), f['loc'],
              'a token is replaced by a dearer one')
    ctx.check('keep-cheaper', 'dearer/answer', R.returns() == {FALSE}, f['loc'], 'a refused token is reported as stored')
    R = F.assume(g.node, [eq(res, none)], stop={e.node for e in index})
    ctx.check('keep-cheaper', 'free/indexed', F.exit not in R.nodes, f['loc'], 'a new token is not entered in the index')
    for e in index:
        # the position: where push_back puts it
        p = push[0]
        n0 = [x for x in (F.load(F.endst.get(e.node), fld(p.obj, '#size')),)]
        pos = norm(F, e.args[1])
        l = place(F, pos)
        good = norm(F, e.args[0]) is ns and (
            (l is not None and l.op == 'fld' and l.args[1] == '#size' and l.args[0] is locnorm(F, p.obj)) or
            any(norm(F, sub(x, C(1))) is pos for x in n0))
        if good and not F.evdom(e, p) and l is not None:
            # taken before the push?
            good = pos.op == 'init'
        ctx.check('keep-cheaper', 'free/position', good, e.loc, 'the index records position %s' % show(pos))
    ctx.check('keep-cheaper', 'other-stores', all(e.where.args[1] is res for e in repl), repl[0].loc,
              'the token of another state is replaced')


# ------------------------------------------------------------------ arcs
def arcloops(F):
    """(insertion, arc, node where the arc is read, loop header)"""
    for e in calls(F, INSERT):
        arc = arc_field(F, norm(F, e.args[1]), 'olabel')
        if arc is None:
            continue
        src = [x for x in F.events if x.kind == 'call' and x.name == 'fst::ArcIterator::Value' and
               F.dominates(x.node, e.node) and x.val is not None and arc in walk(x.val)]
        hs = loops.rounds(F, e.node)
        if not src or not hs:
            raise AnalysisBroken('the loop over the arcs at %s is not found' % e.loc)
        yield e, arc, max(src, key=lambda x: F.rpoi[x.node]), hs[0]


def total(F, d, arc, frame):
    """is this linear sum the cost of a path over arc? (token, emitting, lm part) or None"""
    d = {norm(F, x): c for x, c in d.items()}
    toks = [x for x, c in d.items() if c == 1 and of_token(F, x, ['cost_']) is not None]
    w = [x for x, c in d.items() if c == 1 and arc_field(F, x, 'weight') is arc]
    ac = [x for x, c in d.items() if c == -1 and d01.acoustic(F, x, arc, frame)]
    rest = [x for x in d if x not in toks + w + ac]
    if len(toks) != 1 or len(w) != 1 or len(ac) > 1:
        return None
    lm = [x for x in rest if d[x] == 1 and (any(d01.lm_weight(F, x, g) for g in calls(F, GETARC)) or x.op == 'phi')]
    if len(rest) > len(lm):
        return None
    return of_token(F, toks[0], ['cost_']), bool(ac), lm


def lims(F, e, arc, frame):
    """limits the cost of this arc is compared with: [(limit, total)]"""
    out = []
    for (n, i), t in F.econd.items():
        for a in walk(t):
            if a.op not in ('lt0', 'le0'):
                continue
            d, k = lin(a.args[0])
            for s in (1, -1):
                for x in d:
                    # limit - total < 0
                    if d[x] * s != 1 or k:
                        continue
                    r = unlin_({y: -c * s for y, c in d.items() if y is not x})
                    tts = [total(F, lin(v)[0], arc, frame) for (v,), _ in cases(F, (r,), n) or []]
                    if tts and all(tts):
                        out.append((x, r, tts))
    return out


def unlin_(d):
    r = C(0)
    for x, c in d.items():
        r = add(r, scale(x, c))
    return r


def arcs(ctx, F):
    fr = F.paramobj(0)
    for e, arc, N, h in arcloops(F):
        em = d01.emitting(F, e)
        nm = short(e.frame.fn) + ('@emitting' if em else '@epsilon')
        body = F.loops()[h]
        il = [x for x in d01.ilabels(F) if arc_field(F, x, 'ilabel') is arc]
        base = [NOT(eq(x, C(0))) if em else eq(x, C(0)) for x in il]
        L = lims(F, e, arc, fr)
        R = F.assume(N.node, base, stop={e.node} | set(F.inloops(N.node)))
        can = set()
        todo = [e.node]
        back = {}
        for k in R.edges:
            back.setdefault(e01.F_tgt(F, k), []).append(k)
        while todo:
            n = todo.pop()
            if n in can:
                continue
            can.add(n)
            todo += [k[0] for k in back.get(n, ()) if k[0] in R.nodes]
        drops = [k for k in R.edges if k[0] in can and k[0] is not e.node and e01.F_tgt(F, k) not in can and
                 not dead(F, R, e01.F_tgt(F, k))]
        n = 0
        for k in drops:
            n += 1
            fs = frozenset(R.E[k])
            ok = any(F.decide(lt(l, tt, False), fs) is True for l, tt, _ in L)
            ctx.check('drop', nm, ok, e.loc, 'an arc is left out at block %s although its cost is not above the '
                      'limit' % (k[0],))
        if not can & {N.node}:
            ctx.bad('drop', nm, e.loc, 'no arc is ever followed')
        if not drops:
            ctx.bad('drop', nm + '/pruned', e.loc, 'no arc is pruned by its cost')
        # the limit itself
        for l, _, _ in L:
            limit(ctx, F, e, nm, l, em, fr)
        visit_arcs(ctx, F, e, nm, N, h)


def dead(F, R, n):
    """only aborts follow"""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if getattr(x, 'dead', False):
            continue
        nxt = [e01.F_tgt(F, k) for k in R.edges if k[0] is x]
        if not nxt:
            return False
        todo += nxt
    return True


def limit(ctx, F, e, nm, l, em, fr):
    gs = calls(F, GETCUT)
    ab = [x for g in gs for x in d01.outvar(F, g, 0)] + [x for g in gs for x in outs_by_arg(F, g)]
    for v, fs in options(F, norm(F, l)):
        v = norm(F, v)
        if v.op == 'inf' or (v.op == 'c' and v.args[0] == float('inf')):
            continue
        d, k = lin(v)
        a = [x for x in d if x in ab and d[x] == 1]
        rest = {x: c for x, c in d.items() if x not in a}
        ok = False
        if len(a) == 1 and not k:
            for x in rest:
                arc = arc_field(F, norm(F, x), 'weight')
                if arc is not None:
                    tt = total(F, rest, arc, fr)
                    ok = tt is not None and tt[1]
                    il = [y for y in d01.ilabels(F) if arc_field(F, y, 'ilabel') is arc]
                    if ok and not any(F.decide(eq(y, C(0)), fs or frozenset(F.facts(e.node))) is False for y in il):
                        ctx.bad('limit', nm + '/emits', e.loc, 'the limit can come from an arc that consumes no frame')
        ctx.check('limit', nm + '/' + ('beam' if a else 'other'), ok, e.loc,
                  'the limit can be %s, which is not the cost of a path plus the beam' % show(v))


def outs_by_arg(F, g):
    return [x for x in F.defnode if x.op == 'out' and F.defnode[x] is g.node and x.args[0] is g.val.args[0]
            and x.args[1] in (0,)]


def visit_arcs(ctx, F, e, nm, N, h):
    body = F.loops()[h]
    nxt = [x for x in F.events if x.kind == 'call' and x.name == 'fst::ArcIterator::Next' and x.node in body and
           F.inloops(x.node) == F.inloops(N.node)]
    R = F.assume(N.node, [], stop={x.node for x in nxt} | {h})
    bad = any(e01.F_tgt(F, k) is h and k[0] not in {x.node for x in nxt} for k in R.edges)
    ctx.check('visit', nm + '/next', len(nxt) > 0 and not bad, e.loc, 'the same arc is taken again')
    R = F.assume(h, [], stop=set())
    ends = True
    for k in loops.exits(F, h):
        fs = frozenset(F.E[k])
        done = [x for x in walk_facts(fs) if x.op == 'm' and x.args[0] == 'Done']
        if aborts(F, k):
            continue
        ends = ends and any(F.decide(x, fs) is True for x in done)
    ctx.check('visit', nm + '/all-arcs', ends, e.loc, 'the arcs of a token are left before the last one')
    twice = any(F.dominates(a.node, b.node) and a is not b for a in nxt for b in nxt)
    ctx.check('visit', nm + '/one-step', not twice, e.loc, 'an arc is stepped over')


def walk_facts(fs):
    return {x for f in fs for x in walk(f)}


# ------------------------------------------------------------------ tokens
def tokens(ctx, F):
    for e, arc, N, h in arcloops(F):
        if not d01.emitting(F, e):
            continue
        nm = short(e.frame.fn)
        P = of_token(F, norm(F, e.args[2]), ['olabel_'])
        if P is None:
            raise AnalysisBroken('token at %s' % e.loc)
        l = place(F, P)
        if l is None or l.op != 'el':
            ctx.bad('visit', nm + '/beam', e.loc, 'the token followed is not an element of the beam')
            continue
        ctx.check('frame', nm + '/previous', 'prev_toks_' in names(l.args[0]), e.loc,
                  'emitting arcs leave tokens of the current beam')
        idx = l.args[1]
        rs = [x for x in loops.rounds(F, h) if x is not h]
        r = loops.header_phi(F, idx)
        if not rs or r is None:
            ctx.bad('visit', nm + '/beam', e.loc, 'the tokens of the beam are not enumerated')
            continue
        H = F.defnode[r[0]]
        body = F.loops()[H]
        size = beamsize(F, l, H)
        w = 'its size is unknown'
        if size is not None:
            w = loops.covers(F, H, idx, C(0), size, lambda k: aborts(F, k))
        ctx.check('visit', nm + '/beam', not w, e.loc, 'the token followed %s' % w)
        # a token whose arcs are not followed
        it = [x for x in F.events if x.kind == 'ctor' and x.name == 'fst::ArcIterator::ArcIterator' and
              x.node in body and F.dominates(x.node, N.node)]
        if not it:
            raise AnalysisBroken('no arc iterator in the token loop')
        it = max(it, key=lambda x: F.rpoi[x.node])
        R = F.assume(H, [], stop={it.node} | {H})
        drops = [k for k in R.edges if e01.F_tgt(F, k) is H and k[0] in body]
        cut = [g.val for g in calls(F, GETCUT)]
        cost = [x for t in F.econd.values() for x in walk(t) if x.op in ('init', 'sel', 'phi') and
                of_token(F, x, ['cost_']) is P]
        for k in drops:
            fs = frozenset(R.E[k])
            ok = any(F.decide(lt(c, x, False), fs) is True for c in cut for x in cost)
            ctx.check('drop', nm + '/token', ok, e.loc, 'a token is left out although its cost is not above the limit')
        ctx.check('drop', nm + '/token-limit', bool(cut), e.loc, 'no limit on tokens')


def beamsize(F, l, H):
    """number of elements of the container of l on entry to the loop"""
    c = l.args[0]
    if c.op == 'fld' and c.args[1] == '#data':
        for k in F.phis[next(iter(F.at(H)))] if F.at(H) else ():
            if k[0] not in F.loops()[H]:
                return norm(F, F.load(F.endst[k[0]], fld(c.args[0], '#size')))
    return None


# ------------------------------------------------------------------ the queue of states to expand
def queue(ctx, F):
    for e, arc, N, h in arcloops(F):
        if d01.emitting(F, e):
            continue
        nm = short(e.frame.fn)
        hs = loops.rounds(F, h)
        outer = [x for x in hs if x is not h]
        if not outer:
            ctx.bad('visit', nm + '/again', e.loc, 'new tokens are not expanded again')
            continue
        H = outer[0]
        # inserted -> queued
        st = e.args[0]
        pushes = [x for x in F.events if x.kind == 'call' and (x.name or '').endswith(
            ('::push_back', '::push', '::emplace_back', '::push_front', '::emplace')) and x.node in F.loops()[h]]
        good = [x for x in pushes if x.args and same_state(F, x.args[0], st)]
        R = F.assume(e.node, [truth(e.val)], stop={x.node for x in good if x.node is not e.node} | {h})
        lost = any(e01.F_tgt(F, k) is h for k in R.edges) or not good
        if any(x.node is e.node for x in good):
            lost = False
        ctx.check('visit', nm + '/again', not lost, e.loc, 'a state whose token changed is not expanded again')
        q = good[0].obj if good else None
        if q is None:
            continue
        # the queue ends only when empty
        for k in loops.exits(F, H):
            if aborts(F, k):
                continue
            sz = norm(F, F.load(F.endst[k[0]], fld(q, '#size')))
            ctx.check('visit', nm + '/until-empty', F.decide(eq(sz, C(0)), frozenset(F.E[k])) is True or
                      pastall(F, H, q, sz, arc, k), e.loc,
                      'the expansion stops before the queue is empty')
        # the state expanded is the one taken from the queue, and the queue starts with every token
        it = iterator(F, arc)
        s = norm(F, it[1]) if it else None
        l = place(F, s) if s is not None else None
        fromq = l is not None and l.op == 'fld' and any(x.op == 'fld' and x.args[1] == '#data' and
                                                        x.args[0] is q for x in walk(l))
        ctx.check('visit', nm + '/queued-state', fromq, e.loc, 'the state expanded was not taken from the queue: %s' % (
            show(s) if s is not None else '?'))
        fill = [x for x in F.events if x.kind == 'call' and (x.name or '').endswith(('::push_back', '::push',
                '::emplace_back')) and x.obj is q and x.node not in F.loops()[H] and F.feasible(x.node)]
        ok, why = False, 'it starts empty'
        for x in fill:
            v = x.args[0]
            p = of_token(F, norm(F, sel(v, 'hclg_state_')), ['state_', 'hclg_state_'])
            pl = place(F, p) if p is not None else None
            if pl is None or pl.op != 'el' or 'toks_' not in names(pl.args[0]) or \
                    of_token(F, norm(F, sel(v, 'lm_state_')), ['state_', 'lm_state_']) is not p:
                why = 'it starts with something else than the states of the beam'
                continue
            r = loops.header_phi(F, pl.args[1])
            if r is None:
                why = 'its start is not a loop over the beam'
                continue
            size = beamsize(F, pl, F.defnode[r[0]])
            why = loops.covers(F, x.node, pl.args[1], C(0), size, lambda k: aborts(F, k)) if size is not None else 'unknown size'
            if not why:
                ok = True
                break
        ctx.check('visit', nm + '/all-tokens', ok, e.loc, 'the queue of states to expand: %s' % why)
        P = of_token(F, norm(F, e.args[2]), ['olabel_'])
        pl = place(F, P) if P is not None else None
        ctx.check('frame', nm + '/current', pl is not None and pl.op == 'el' and 'toks_' in names(pl.args[0]) and
                  'prev_toks_' not in names(pl.args[0]), e.loc, 'other arcs do not leave tokens of the current beam')


def pastall(F, H, q, sz, arc, k):
    """the queue is only walked: every element is taken in turn, up to the last one there is then"""
    it = iterator(F, arc)
    l = place(F, norm(F, it[1])) if it else None
    i = next((x for x in walk(l) if x.op == 'el' and x.args[0] is fld(q, '#data')), None) if l is not None else None
    if i is None:
        return False
    r = loops.header_phi(F, i.args[1])
    if r is None or r[1] != 1 or F.defnode[r[0]] is not H or [norm(F, s) for s in F.steps(r[0])[1]] != [C(1)]:
        return False
    starts = [norm(F, v) for j, v in F.phis[r[0]].items() if j[0] not in F.loops()[H]]
    if not starts or any(v is not C(0) for v in starts) or i.args[1] is not r[0]:
        return False
    if any(x.kind == 'call' and x.obj is not None and place_is(F, x.obj, q) and x.node in F.loops()[H] and
           x.name.split('::')[-1] in ('pop_back', 'pop', 'pop_front', 'clear', 'erase', 'resize', 'insert', 'swap')
           for x in F.events):
        return False
    return F.decide(lt(r[0], sz, True), frozenset(F.E[k])) is False


def place_is(F, a, q):
    return a is q or norm(F, a) is q


def same_state(F, a, b):
    return norm(F, a) is norm(F, b) or all(
        norm(F, sel(a, f)) is norm(F, sel(b, f)) for f in ('hclg_state_', 'lm_state_'))


# ------------------------------------------------------------------ frames
def frame(ctx, F):
    f = ctx.fn('Decoder::Process')
    sw = [e for e in F.events if e.kind == 'call' and ((e.name or '').endswith('::swap')) and F.feasible(e.node) and
          e.obj is not None and {'toks_', 'prev_toks_'} <= names(e.obj) | {y for l in e.locs if l is not None
                                                                       for y in names(l)}]
    sw += [e for e in F.events if e.kind == 'call' and e.name in ('std::swap',) and F.feasible(e.node) and
           {'toks_', 'prev_toks_'} <= {y for l in e.locs if l is not None for y in names(l)}]
    em = [e for e, *_ in arcloops(F) if d01.emitting(F, e)]
    ep = [e for e, *_ in arcloops(F) if d01.emitting(F, e) is False]
    at = f['loc']
    ctx.check('frame', 'advance', len(sw) == 1 and all(F.evdom(sw[0], e) for e in em + ep) and
              not F.inloops(sw[0].node), at, 'the beam is not advanced exactly once before a frame is decoded')
    clr = calls(F, PK + 'HashTable::Clear')
    ctx.check('frame', 'index-cleared', any(all(F.evdom(c, e) for e in em) and not F.inloops(c.node) for c in clr), at,
              'the index of the previous frame is not cleared before the new one is filled')
    cl = [e for e in F.events if e.kind == 'call' and (e.name or '').endswith(('::clear',)) and e.obj is not None and
          e.obj.op == 'fld' and e.obj.args[1] == 'prev_toks_' and F.feasible(e.node)]
    after = None
    for e in em:
        R = F.assume(e.node, [], stop={c.node for c in cl})
        after = F.exit not in R.nodes
        ctx.check('frame', 'previous-cleared', bool(cl) and after, at,
                  'the tokens of the previous frame stay in the beam')
    # emitting first, then the others, on every path that reports success
    R = F.assume(F.entry, [], stop=set())
    ctx.check('frame', 'order', all(not F.evdom(b, a) for a in em for b in ep) and
              all(b.node not in set(F.inloops(a.node)) for a in em for b in ep), at, 'other arcs are followed first')
    cnt = [e for e in F.events if e.kind == 'store' and e.where is not None and e.where.op == 'fld' and
           e.where.args[1] == 'num_frames_decoded_' and F.feasible(e.node)]
    ok = bool(cnt)
    for e in cnt:
        ok = ok and eq(e.val, add(e.old if e.old is not None else T('init', e.where), C(1))) is TRUE and \
            not F.inloops(e.node)
    ctx.check('frame', 'counted', ok and not any(F.evdom(a, b) for a in cnt for b in cnt if a is not b), at,
              'the number of frames decoded does not grow by one')
    R = F.assume(F.entry, [], stop={e.node for e in cnt})
    ctx.check('frame', 'counted-always', not any(F.exit in R.nodes and v is TRUE for v in R.returns()), at,
              'a decoded frame is not counted')


def phases(ctx, F):
    """each frame follows the emitting arcs of all tokens, then the other arcs, unless nothing is left"""
    em = [round_of(F, h) for e, arc, N, h in arcloops(F) if d01.emitting(F, e)]
    ep = [round_of(F, h) for e, arc, N, h in arcloops(F) if d01.emitting(F, e) is False]
    at = F.root['loc']
    if not em or not ep:
        return
    gets = calls(F, GETCUT)

    beam = T('init', fld(F.field('toks_'), '#size'))
    R = F.assume(F.entry, [NOT(eq(beam, C(0)))], stop={g.node for g in gets})
    ok = bool(gets) and F.exit not in R.nodes
    for g in gets:
        ok = ok and F.exit not in F.assume(g.node, finite(norm(F, g.val)) + [filled(F, g.node, n) for n in ('toks_', 'prev_toks_')], stop=set(em)).nodes
    ctx.check('frame', 'tokens-reached', ok, at,
              'a frame can end before the tokens of the beam are followed, although the limit is finite')
    for H in em:
        given = [x for p in F.phis if F.defnode[p] is H for x in finite(p) + [NOT(eq(y, C(0))) for y in held(F, p)]]
        R = F.assume(H, given, stop=set(ep))
        ctx.check('frame', 'others-reached', F.exit not in R.nodes, at,
                  'a frame can end before the arcs that consume nothing are followed')
    for H in ep:
        given = [NOT(eq(y, C(0))) for p in F.phis if F.defnode[p] is H for y in held(F, p)]
        R = F.assume(H, given)
        ctx.check('frame', 'given-up', FALSE not in R.returns(), at, 'decoding is given up although there are tokens')
    f = ctx.fn('Decoder::Initialize')
    S = ctx.flow('Decoder::Initialize', stop=STOPS)
    ep = {round_of(S, h) for e, arc, N, h in arcloops(S) if d01.emitting(S, e) is False}
    first = [e for e in calls(S, INSERT) if not S.inloops(e.node)]
    ok = bool(ep) and S.exit not in S.assume(S.entry, [], stop=ep | {e.node for e in first}).nodes
    for e in first:
        ok = ok and S.exit not in S.assume(e.node, [filled(S, e.node, 'toks_')], stop=ep).nodes
    ctx.check('frame', 'start/others-reached', ok, f['loc'],
              'the search can start without following the arcs that consume nothing')


def round_of(F, h):
    rs = [x for x in loops.rounds(F, h) if x is not h]
    return rs[0] if rs else h


def finite(x):
    """x is a number"""
    inf = C(float('inf'))
    return [T('fn', 'isfinite', x), NOT(T('fn', 'isinf', x)), NOT(T('fn', 'isnan', x)), lt(x, inf, False), NOT(eq(x, inf))]


def filled(F, n, beam):
    """the beam has a token after n"""
    return NOT(eq(norm(F, F.load(F.endst[n], fld(F.field(beam), '#size'))), C(0)))


def held(F, p):
    """the number of tokens of the beam held in p"""
    l = p.args[1]
    if l.op != 'fld' or not l.args[1] == 'toks_':
        return []
    return [T('sel', p, '#size')]


# ------------------------------------------------------------------ the limit on tokens
def cutoff(ctx):
    F = ctx.flow('Decoder::GetCutoff')
    f = ctx.fn('Decoder::GetCutoff')
    ab = F.paramobj(0)
    vals = cases(F, (F.ret, F.final(ab)), F.exit)
    if vals is None:
        raise AnalysisBroken('Decoder::GetCutoff: too many cases')
    beam = T('init', F.field('beam_'))
    big = None
    n = 0
    for (v, a), fs in vals:
        v, a = norm(F, v), norm(F, a)
        n += 1
        if is_inf(v):
            best = [x for x in walk_facts(fs) if x.op == 'fn' and x.args[0] == 'isfinite']
            sz = [x for x in walk_facts(fs) | {y for t in F.econd.values() for y in walk(t)}
                  if (lambda l: l is not None and l.op == 'fld' and l.args[1] == '#size' and
                      'prev_toks_' in names(l))(place(F, x) if x.op in ('init', 'sel', 'phi', 'out') else None)]
            ok = any(F.decide(x, fs) is False for x in best) or any(F.decide(eq(x, C(0)), fs) is True for x in sz)
            ctx.check('limit', 'cutoff/none', ok, f['loc'], 'decoding is given up although the beam has a finite token')
            continue
        d, k = lin(v)
        b = [x for x in d if x is not beam]
        if d.get(beam) == 1 and len(b) == 1 and d[b[0]] == 1 and not k:
            ctx.check('limit', 'cutoff/beam', a is beam, f['loc'], 'the beam used later is not the full beam: %s' % show(a))
            best_is(ctx, F, f, b[0])
        else:
            sz = [x for x in walk_facts(fs) if x.op in ('init', 'sel', 'phi', 'out') and
                  (lambda l: l is not None and l.op == 'fld' and l.args[1] == '#size' and
                   'prev_toks_' in names(l))(place(F, x))]
            kb = beam_size(ctx)
            ok = any(F.prove(lt(C(kb), x, True), F.exit, extra=fs) for x in sz)
            ctx.check('limit', 'cutoff/over-full', ok, f['loc'],
                      'the limit is %s although the beam is not over-full' % show(v))
    # best token handed out
    ctx.notes['cutoff cases'] = n


def is_inf(v):
    return v.op == 'inf' or (v.op == 'c' and v.args[0] == float('inf'))


def beam_size(ctx):
    g = ctx.prog.globals.get(D + 'kBeamSize')
    if not g or g.get('v') is None:
        raise AnalysisBroken('kBeamSize')
    return int(g['v'])


def best_is(ctx, F, f, b):
    """b is the smallest cost in prev_toks_"""
    ok, why = best_value(F, b, lambda l: 'prev_toks_' in names(l))
    ctx.check('limit', 'cutoff/best', ok, f['loc'], 'the cost the beam is measured from %s' % why)


def best_value(F, b, container):
    heads = F.loops()
    if b.op != 'phi' or F.defnode[b] not in heads:
        return False, 'is not computed over the beam: %s' % show(b)
    H = F.defnode[b]
    body = heads[H]
    for k, v in F.phis[b].items():
        if F.E.get(k) is None:
            continue
        if k[0] not in body:
            if not is_inf(norm(F, v)):
                return False, 'starts at %s' % show(v)
            continue
        for (x,), fs in cases(F, (v,), k[0]) or [((v,), frozenset())]:
            x = norm(F, x)
            cs = [y for y in walk_facts(fs) if y.op in ('init', 'sel', 'phi') and cost_of(F, y, container)]
            if x is b:
                if not any(F.decide(lt(y, b, False), fs) is False for y in cs):
                    return False, 'can miss a cheaper token'
            elif not cost_of(F, x, container):
                return False, 'can be %s' % show(x)
            elif F.decide(lt(x, b, False), fs) is not True:
                return False, 'is replaced by a dearer one'
            idx = [place(F, of_token(F, y, ['cost_'])) for y in (cs or [x])]
            if not idx or idx[0].op != 'el':
                return False, 'is not taken from the beam'
            size = beamsize(F, idx[0], H)
            w = loops.covers(F, H, idx[0].args[1], C(0), size, lambda k: aborts(F, k)) if size is not None else 'has an unknown range'
            if w:
                return False, 'the token examined ' + w
    return True, ''


def cost_of(F, y, container):
    p = of_token(F, y, ['cost_'])
    l = place(F, p) if p is not None else None
    return l is not None and l.op == 'el' and container(l.args[0])
