"""A token costs exactly what it is made of."""
from rules.dec import *


def run(ctx):
    ctx.rule('cost', 'at every insertion of a token the cost is, term by term: cost of the token it comes from + '
             'weight of the arc - scaled acoustic score of that arc (emitting arcs only) + the weight the second '
             'language model returned (when there is one)', 4)
    ctx.rule('parts', 'label, graph state and language-model state of the new token come from the same arc and '
             'the same token', 10)
    ctx.rule('insert', 'the insertion stores exactly the state, the cost and the label chain it was given', 6)
    ctx.rule('start', 'the search starts in the start states with cost 0 and no label', 4)
    P = process(ctx)
    sites(ctx, P)
    store(ctx)
    start(ctx)
    immutable(ctx, [P, initialize(ctx), insertion(ctx)])


def sites(ctx, F):
    evs = calls(F, INSERT)
    ctx.notes['insertions'] = [e.loc for e in evs]
    frame = F.paramobj(0)
    kinds = set()
    for e in evs:
        nm = '%s@%s' % (short(e.frame.fn), 'emitting' if emitting(F, e) else 'epsilon')
        kinds.add(emitting(F, e))
        if emitting(F, e) is None:
            ctx.bad('cost', nm, e.loc, 'neither the emitting nor the other arcs are singled out before a token is '
                    'inserted')
            continue
        cs = cases(F, e.args, e.node)
        if cs is None:
            raise AnalysisBroken('too many cases at the insertion at %s' % e.loc)
        for (state, label, prev, cost), fs in cs:
            site(ctx, F, e, nm, norm(F, state), norm(F, label), norm(F, prev), norm(F, cost), fs, frame)
        corrected(ctx, F, e, nm)
    if kinds < {True, False}:
        raise AnalysisBroken('Decoder::Process: insertions found: %s' % sorted(map(str, kinds)))


def ilabels(F):
    return {x for t in F.econd.values() for x in walk(t) if arc_field(F, x, 'ilabel') is not None and x.op != 'm'}


def emitting(F, e):
    """True: the input label is non-zero here, False: it is zero"""
    fs = frozenset(F.facts(e.node))
    lab = e.args[1]
    arc = arc_field(F, lab, 'olabel')
    for x in ilabels(F):
        if arc is not None and arc_field(F, x, 'ilabel') is not arc:
            continue
        r = F.decide(eq(x, C(0)), fs)
        if r is not None:
            return not r
    return None


def site(ctx, F, e, nm, state, label, prev, cost, fs, frame):
    where_ = e.loc
    arc = arc_field(F, label, 'olabel')
    ctx.check('parts', nm + '/label', arc is not None, where_, 'the label of the new token is not the output label '
              'of the arc: %s' % show(label))
    if arc is None:
        return
    P = of_token(F, prev, ['olabel_'])
    ctx.check('parts', nm + '/history', P is not None, where_, 'the word history of the new token is not that of a '
              'token: %s' % show(prev))
    if P is None:
        return
    # state
    hs, ls = norm(F, sel(state, 'hclg_state_')), norm(F, sel(state, 'lm_state_'))
    ctx.check('parts', nm + '/destination', arc_field(F, hs, 'nextstate') is arc, where_,
              'the graph state of the new token is not the destination of that arc: %s' % show(hs))
    it = iterator(F, arc)
    src = it is not None and source(F, P, norm(F, it[1]), 'hclg_state_', e)
    ctx.check('parts', nm + '/source', bool(src), where_, 'the arcs followed do not leave the graph state of the token')
    ctx.check('parts', nm + '/graph', it is not None and graph(F, it[0]), where_,
              'the arcs followed are not those of the decoding graph')
    # cost
    d, k = lin(cost)
    d = dict(d)
    why = []
    if k:
        why.append('constant %s' % k)
    d = {norm(F, x): c for x, c in d.items()}
    tok = [x for x in d if of_token(F, x, ['cost_']) is P]
    w = [x for x in d if arc_field(F, x, 'weight') is arc]
    take(d, tok, 1, 'the cost of the token it comes from', why)
    take(d, w, 1, 'the weight of the arc', why)
    ac = [x for x in d if acoustic(F, x, arc, frame)]
    if emitting(F, e):
        take(d, ac, -1, 'the negated scaled acoustic score of the arc', why)
    elif ac:
        why.append('an acoustic score on an arc that consumes no frame')
    lm = [(x, g) for x in d for g in calls(F, GETARC) if lm_weight(F, x, g)]
    lmst = [g for g in calls(F, GETARC) if lm_next(F, ls, g)]
    if lm:
        g = lm[0][1]
        take(d, [lm[0][0]], 1, 'the language-model weight', why)
        lab = norm(F, g.args[1])
        if arc_field(F, lab, 'olabel') is not arc:
            why.append('the language-model weight is that of another label')
        if not lmsource(F, P, norm(F, g.args[0]), e):
            why.append('the language-model weight is that of another language-model state')
        if F.decide(truth(g.val), fs) is not True:
            why.append('the language-model weight is used although the lookup may have failed')
        if not lmst or lmst[0] is not g:
            why.append('the language-model state does not follow the language-model arc')
    else:
        if lmst or not lmsource(F, P, ls, e):
            why.append('the language-model state changes without its weight being added: %s' % show(ls))
    for x, c in d.items():
        why.append('%+d times %s' % (c, show(x)))
    ctx.check('cost', nm + '/' + ('with' if lm else 'without') + '-lm', not why, where_,
              'cost of the new token: ' + '; '.join(why))


def corrected(ctx, F, e, nm):
    """with a second language model, an arc that carries a word is looked up, and a successful
    lookup is what the token is charged"""
    arc = arc_field(F, norm(F, e.args[1]), 'olabel')
    gs = [g for g in calls(F, GETARC) if arc_field(F, norm(F, g.args[1]), 'olabel') is arc]
    if arc is None or not gs:
        ctx.bad('cost', nm + '/looked-up', e.loc, 'the second language model is not consulted')
        return
    N = F.defnode.get(arc) or next((x.node for x in F.events if x.kind == 'call' and x.val is not None and
                                    x.node and F.dominates(x.node, e.node) and arc in walk(x.val)), None)
    if N is None:
        raise AnalysisBroken('the arc inserted at %s is not read' % e.loc)
    hs = set(F.inloops(N))
    lab = [x for x in alllabels(F) if arc_field(F, x, 'olabel') is arc]
    on = [x for x in delta(F)]
    R = F.assume(N, [x for x in on] + [NOT(eq(x, C(0))) for x in lab], stop={g.node for g in gs} | hs)
    ctx.check('cost', nm + '/looked-up', bool(on) and bool(lab) and e.node not in R.nodes - {g.node for g in gs},
              e.loc, 'a token for an arc with a word is inserted without consulting the second language model')
    for g in gs:
        R = F.assume(g.node, [truth(g.val)], stop=hs)
        if e.node not in R.nodes:
            ctx.bad('cost', nm + '/charged', e.loc, 'a successful lookup leads to no token')
            continue
        vs = cases(F, (e.args[3],), e.node, R=R)
        ctx.check('cost', nm + '/charged', bool(vs) and all(any(lm_weight(F, norm(F, x), g) for x in lin(v)[0])
                                                            for (v,), _ in vs), e.loc,
                  'the language-model correction is left out')


def alllabels(F):
    out = {x for t in F.econd.values() for x in walk(t) if x.op in ('init', 'sel', 'phi', 'ld')}
    return out | {a for e in calls(F, INSERT) for a in (norm(F, e.args[1]),)}


def take(d, xs, c, what, why):
    if len(xs) != 1:
        why.append('%s is %s' % (what, 'missing' if not xs else 'added more than once'))
        return
    if d[xs[0]] != c:
        why.append('%s is counted %+d times' % (what, d[xs[0]]))
    del d[xs[0]]


def source(F, P, v, field, e):
    """v is the state of token P: read from it, or the state P was looked up with"""
    if of_token(F, v, ['state_', field]) is P:
        return True
    if P.op == 'ld' or P.op == 'init':
        l = place(F, P)
        if l is not None and l.op == 'el':
            for g in calls(F, PK + 'HashTable::Find'):
                if g.val is l.args[1]:
                    return norm(F, sel(g.args[0], field)) is v
    return False


def lmsource(F, P, v, e):
    return source(F, P, v, 'lm_state_', e)


def graph(F, v):
    l = place(F, v)
    return l is not None and l.op == 'deref' and (lambda q: q is not None and q.op == 'fld' and
                                                   q.args[1] == 'fst_')(place(F, l.args[0]))


def acoustic(F, x, arc, frame):
    """am_scale_ * frame(pdf of the input label of arc)"""
    if x.op != 'mul':
        return False
    fs = list(x.args)
    if len(fs) == 1 and isinstance(fs[0], tuple):
        fs = list(fs[0])
    sc = [a for a in fs if (lambda l: l is not None and l.op == 'fld' and l.args[1] == 'am_scale_')(place(F, a))]
    rest = [a for a in fs if a not in sc]
    if len(sc) != 1 or len(rest) != 1:
        return False
    l = place(F, rest[0])
    if l is None or l.op != 'el' or not in_buffer(F, l.args[0], frame):
        return False
    m = place(F, l.args[1])
    if m is None or m.op != 'el' or 'transtion_pdf_id_map_' not in names(m.args[0]):
        return False
    return arc_field(F, m.args[1], 'ilabel') is arc


def in_buffer(F, l, obj):
    return any(x is obj for x in walk(l)) and 'data_' in names(l)


def outvar(F, g, k):
    return [x for x in F.defnode if x.op == 'out' and F.defnode[x] is g.node and x.args[0] is g.val.args[0] and
            x.args[1] == k]


def lm_weight(F, x, g):
    return x.op == 'sel' and x.args[1] == 'weight' and x.args[0] in outvar(F, g, 2)


def lm_next(F, x, g):
    return x.op == 'sel' and x.args[1] == 'next_state' and x.args[0] in outvar(F, g, 2)


def store(ctx):
    F = insertion(ctx)
    f = F.root if isinstance(getattr(F, 'root', None), dict) else ctx.fn('Decoder::InsertTok')
    ns, lab, prev, cost = [F.paramval(i) for i in range(4)]
    n = 0
    for e in F.events:
        if e.kind != 'store' or not F.feasible(e.node) or e.where is None or e.where.op != 'fld':
            continue
        owner = e.frame.fn['n']
        if owner == D + 'Token::Token':
            fldn = e.where.args[1]
            want = {'cost_': cost, 'state_': ns}.get(fldn)
            if want is not None:
                n += 1
                ctx.check('insert', 'token/' + fldn, norm(F, e.val) is want, e.loc,
                          'a new token does not store the given %s but %s' % (fldn, show(e.val)))
            elif fldn == 'olabel_':
                n += 1
                for (v,), fs in cases(F, (e.val,), e.node, keep={norm(F, x.val) for x in F.events if x.kind == 'new'}) or []:
                    chain(ctx, F, e, v, fs, lab, prev)
        if owner == D + 'OLabel::OLabel':
            want = {'previous_': prev, 'olabel_': lab}.get(e.where.args[1])
            if want is not None:
                n += 1
                ctx.check('insert', 'label/' + e.where.args[1], norm(F, e.val) is want, e.loc,
                          'a new word-history node does not store the given %s' % e.where.args[1])
    if n < 5:
        raise AnalysisBroken('Decoder::InsertTok: the stores of a new token were not found')
    # the index of successors: what is registered under a label is the node of that label
    for e in F.events:
        if e.kind == 'store' and e.where is not None and e.where.op == 'el' and 'nexts_' in names(e.where):
            key = e.where.args[1]
            ok = key.op == 'key' and norm(F, key.args[0]) is lab and from_pool(F, e.val) and \
                any(x is prev for x in walk(e.where))
            ctx.check('insert', 'successor', ok, e.loc,
                      'the successor registered is not the node of that label after that history')


def chain(ctx, F, e, v, fs, lab, prev):
    z = F.decide(eq(lab, C(0)), fs)
    v = norm(F, v)
    if v is prev:
        ctx.check('insert', 'chain/same', z is True, e.loc,
                  'the history is not extended although the arc carries a word')
    elif from_pool(F, v):
        ctx.check('insert', 'chain/new', z is False, e.loc, 'the history is extended although the arc has no word')
    elif mapped(F, v, lab, prev):
        ctx.check('insert', 'chain/shared', z is False and F.decide(eq(v, NULL), fs) is False, e.loc,
                  'the shared history node is used without being there')
    else:
        ctx.bad('insert', 'chain/other', e.loc, 'the history of the new token is %s' % show(v))


def from_pool(F, v):
    """a node of the pool, constructed here"""
    v = norm(F, v)
    return any(e.kind == 'new' and 'OLabel' in (e.name or '') and
               (norm(F, e.val) is v or v in leaves(F, norm(F, e.val))) for e in F.events)


def mapped(F, v, lab, prev):
    l = place(F, v)
    if l is not None and l.op == 'fld' and l.args[1] == 'second' and l.args[0].op == 'deref':
        p = l.args[0].args[0]
        return p.op == 'mfind' and norm(F, p.args[1]) is lab and any(x is prev for x in walk(p.args[0])) and \
            'nexts_' in names(p.args[0])
    return False


def start(ctx):
    F = initialize(ctx)
    evs = [e for e in calls(F, INSERT) if e.frame.fn['n'] == D + 'Initialize' or emitting(F, e) is None]
    if len(evs) != 1:
        evs = evs[:1]
    if not evs:
        raise AnalysisBroken('Decoder::Initialize inserts no token')
    e = evs[0]
    on = delta(F)
    ctx.check('start', 'model-tested', len(on) > 0, e.loc, 'the search starts alike with and without a second '
              'language model')
    for has in (True, False):
        R = F.assume(F.entry, [x if has else NOT(x) for x in on])
        if e.node not in R.nodes:
            ctx.bad('start', 'reached-%s' % has, e.loc, 'no first token is inserted')
            continue
        for (state, label, prev, cost), fs in cases(F, e.args, e.node, R=R) or []:
            hs, ls = norm(F, sel(state, 'hclg_state_')), norm(F, sel(state, 'lm_state_'))
            ctx.check('start', 'label', label is C(0), e.loc, 'the first token carries a label')
            ctx.check('start', 'history', prev is NULL, e.loc, 'the first token has a history')
            ctx.check('start', 'cost', cost is C(0), e.loc, 'the first token costs %s' % show(cost))
            ctx.check('start', 'graph-state', hs.op == 'm' and hs.args[0] == 'Start', e.loc,
                      'the search does not start in the start state of the graph: %s' % show(hs))
            if has:
                ctx.check('start', 'lm-state', any(g.val is ls for g in F.events if g.kind == 'call' and
                                                   (g.name or '').endswith('StartState')), e.loc,
                          'the search does not start in the start state of the language model: %s' % show(ls))
            else:
                ctx.check('start', 'no-lm-state', ls is C(0), e.loc, 'language-model state without a language model')


def immutable(ctx, flows):
    """fields of a token are written by its constructor only"""
    ok, at, n = True, '', 0
    for F in flows + [ctx.flow('Decoder::BestPath', stop=STOPS)]:
        for e in F.events:
            if e.kind != 'store' or e.where is None or e.where.op != 'fld':
                continue
            if e.where.args[1] in ('cost_',) or (e.where.args[1] == 'olabel_' and 'OLabel' not in e.frame.fn['n']):
                n += 1
                if not e.frame.fn['n'].endswith('Token::Token'):
                    ok, at = False, e.loc
    ctx.check('insert', 'immutable', ok, at or ctx.fn('Decoder::InsertTok')['loc'],
              'the cost or history of an existing token is changed')
