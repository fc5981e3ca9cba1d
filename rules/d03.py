"""The reported result is the best path, in spoken order."""
from rules.dec import *
import rules.m02 as m02
import rules.m05 as m05

OL, TOK = PK + 'Decoder::OLabel', PK + 'Decoder::Token'
FINAL = PK + 'CachedFst::Final'


def run(ctx):
    ctx.rule('score', 'the score of a token at the end is its cost, plus, after the end of stream only and once each, '
             'the final cost of its graph state and the final correction of its language-model state', 4)
    ctx.rule('select', 'the token reported is the one with the smallest score, chosen together with it; tokens of '
             'infinite score are never chosen; without any the result is empty', 8)
    ctx.rule('trace', 'the words are the labels of that token\'s history, every one once, from the last to the first', 4)
    ctx.rule('result', 'words and score of the result belong to that token', 2)
    ctx.rule('text', 'the text is the words in spoken order, each looked up in the symbol table and set apart by one '
             'space, and the score reported is that of the same result per frame', 6)
    ctx.rule('history', 'the history of a new token is that of the token it comes from, with the label of the arc behind it', 8)
    m02.index(As(ctx, 'index', 'history'))
    taken(ctx)
    F = ctx.flow('Decoder::BestPath', stop=STOPS + [FINAL])
    n = trace(ctx, F)
    text(ctx, n)
    whole(ctx)


def taken(ctx):
    """the history given to the new token"""
    MAKE = PK + 'GCPool::Alloc'
    F = ctx.flow('Decoder::InsertTok', stop=STOPS + [MAKE, OL + '::next', OL + '::set_next'], key='taken')
    prev, lab = F.paramval(2), F.paramval(1)
    made = [e for e in F.events if e.kind == 'enter' and e.name == TOK + '::Token' and F.feasible(e.node)]
    # where the node is found or made
    look = {norm(F, e.val) for e in calls(F, OL + '::next') if norm(F, e.args[0]) is lab and m02.isobj(F, e, prev)}
    new = {norm(F, e.val) for e in calls(F, MAKE) if norm(F, e.args[1]) is lab and
           (norm(F, e.args[0]) is prev or norm(F, e.args[0]) is NULL and F.decide(eq(prev, NULL), F.facts(e.node)) is True)}
    ctx.check('history', 'token', bool(made), F.root['loc'], 'no token is made')
    for e in made:
        for (v,), fs in cases(F, (e.args[2],), e.node) or ():
            none = F.decide(eq(lab, C(0)), frozenset(fs) | F.facts(e.node))
            ok = v is prev and none is True or none is False and v in look | new
            ctx.check('history', 'token/node', ok, e.loc, 'the history of the new token is %s' % show(v)[:80])


def flag(F, name):
    return {x for t in F.econd.values() for x in walk(t) if x.op in ('init', 'sel', 'phi') and
            (lambda l: l is not None and l.op == 'fld' and l.args[1] == name)(place(F, x))}


def lininf(F, v):
    return v.op == 'inf' or (v.op == 'c' and v.args[0] == float('inf'))


# ------------------------------------------------------------------ the word history
def trace(ctx, F):
    f = ctx.fn('Decoder::BestPath')
    at = f['loc']
    rets = returned(F)
    full = [r for r in rets if r[1] is not C(0)]
    if not full:
        ctx.bad('trace', 'words', at, 'no words are ever reported')
        return 0
    par = None
    for data, size, weight, fs, edge in full:
        flips = 0
        while data.op == 'rev':
            if data.args[1] is not C(0) or data.args[2] is not size:
                ctx.bad('trace', 'words', at, 'a part of the words is reversed')
            flips += 1
            data = data.args[0]
        if data.op != 'phi' or F.defnode.get(data) not in F.loops():
            ctx.bad('trace', 'words', at, 'the words reported are not collected from the history: %s' % show(data))
            return 0
        W = F.defnode[data]
        body = F.loops()[W]
        pushes = [e for e in F.events if e.kind == 'call' and e.node in body and e.obj is not None and
                  (e.name or '').split('::')[-1] in ('push_back', 'emplace_back', 'push_front', 'insert') and
                  any(v in walk(x) for k, x in F.phis[data].items() if k[0] in body for v in [norm(F, e.args[-1])])]
        if len(pushes) != 1:
            ctx.bad('trace', 'once', at, 'a word is recorded %d times per step' % len(pushes))
            return 0
        e = pushes[0]
        if e.name.split('::')[-1] in ('push_front', 'insert'):
            flips += 1
        ctx.check('trace', 'every-step', all(F.dominates(e.node, k[0]) for k in loops.latches(F, W)) and
                  loops.rounds(F, e.node)[0] is W, e.loc, 'a word of the history is left out')
        l = place(F, e.args[-1])
        L = l.args[0].args[0] if l is not None and l.op == 'fld' and l.args[1] == 'olabel_' and \
            l.args[0].op == 'deref' else None
        if L is None or L.op != 'phi' or F.defnode.get(L) is not W:
            ctx.bad('trace', 'label', e.loc, 'what is recorded is not the label of the current history node: %s' %
                    show(e.args[-1]))
            return 0
        src = None
        for k, v in F.phis[L].items():
            if F.E.get(k) is None:
                continue
            l = place(F, v)
            if k[0] in body:
                ctx.check('trace', 'follows', l is not None and l.op == 'fld' and l.args[1] == 'previous_' and
                          l.args[0] is deref(L), e.loc, 'the step is not to the previous node but to %s' % show(v))
            else:
                src = of_token(F, v, ['olabel_'])
                ctx.check('trace', 'starts', src is not None, e.loc, 'the history does not start at a token')
        for k in loops.exits(F, W):
            if not aborts(F, k):
                ctx.check('trace', 'to-the-end', F.decide(eq(L, NULL), frozenset(F.E[k])) is True, e.loc,
                          'the trace stops before the first word')
        if src is None:
            return 0
        par = flips
        best(ctx, F, f, src, W, weight, fs, rets)
    return par


def returned(F):
    """[(#data, #size, weight, facts, edge)] of every hypothesis returned"""
    out = []
    r = T('ret', 0, F.fid)
    v = F.ret
    if v is None:
        raise AnalysisBroken('Decoder::BestPath: no result')
    w, words = norm(F, sel(v, 'weight_')), norm(F, sel(v, 'words_'))
    ts = (sel(words, '#data'), sel(words, '#size'), w)
    for (d, s, x), fs in cases(F, ts, F.exit) or []:
        out.append((norm(F, d), norm(F, s), norm(F, x), fs, None))
    return out


# ------------------------------------------------------------------ the selection
def best(ctx, F, f, src, W, weight, fs, rets):
    at = f['loc']
    l = place(F, src)
    # through an index, or a pointer kept along
    q = None
    if src.op == 'phi' and F.defnode.get(src) in F.loops():
        q = src
    elif l is not None and l.op == 'el' and 'toks_' in names(l.args[0]):
        i = l.args[1]
        if i.op == 'phi' and F.defnode.get(i) in F.loops():
            q = i
    if q is None:
        ctx.bad('select', 'searched', at, 'the token reported is not the result of a search: %s' % show(src))
        return
    H = F.defnode[q]
    B = weight
    if B.op != 'phi' or F.defnode.get(B) is not H:
        ctx.bad('result', 'score', at, 'the score reported is not the smallest one found: %s' % show(B))
        return
    ctx.check('result', 'score', True, at)
    # not chosen
    none = {v for k, v in F.phis[q].items() if k[0] not in F.loops()[H]}
    for v in none:
        vv = norm(F, v)
        empty = [r for r in rets if r[1] is C(0)]
        ctx.check('select', 'empty-result', bool(empty), at, 'there is no empty result')
        for r in empty:
            ctx.check('select', 'empty-result', F.decide(eq(q, vv), r[3]) is True or nobody(F, r[3]), at,
                      'an empty result although a token was chosen')
        ctx.check('result', 'exists', F.decide(eq(q, vv), frozenset(fs)) is False, at,
                  'words are reported although no token was chosen')
    body = F.loops()[H]
    eos, dl = flag(F, 'is_end_of_stream_'), delta(F)
    ys = sorted({y for t in F.econd.values() for a in walk(t) if a.op in ('lt0', 'le0') for y in other(a, B)},
                key=lambda x: x.id)
    for e in (True, False):
        for d in (True, False):
            conds = [truth(x) if e else NOT(truth(x)) for x in eos] + [x if d else NOT(x) for x in dl]
            R = F.assume(F.entry, conds)
            nm = '%s/%s-lm' % ('end' if e else 'running', 'with' if d else 'without')
            chosen = kept = 0
            for k in F.phis[B]:
                if R.E.get(k) is None:
                    continue
                vb, vq = norm(F, F.phis[B][k]), norm(F, F.phis[q][k])
                if k[0] not in body:
                    ctx.check('select', 'from-infinity', lininf(F, vb), at, 'the search starts at score %s' % show(vb))
                    continue
                cs = cases(F, (vb, vq) + tuple(ys), k[0], R=R, keep={B, q})
                if cs is None:
                    raise AnalysisBroken('Decoder::BestPath: too many cases')
                for (b, i, *yv), g in cs:
                    yv = [y for y in yv if parts(F, y) is not None]
                    if b is B:
                        kept += 1
                        ctx.check('select', 'kept-together', i is q, at, 'the token changes without its score')
                        ctx.check('select', 'kept', any(F.decide(lt(y, B, False), g) is False or
                                                        F.decide(eq(y, C(float('inf'))), g) is True for y in yv), at,
                                  'a cheaper token can be passed over')
                        for y in yv:
                            score(ctx, F, nm, y, e, d, at)
                        continue
                    chosen += 1
                    p = score(ctx, F, nm, b, e, d, at)
                    if p is None:
                        continue
                    pl = place(F, p)
                    ctx.check('select', 'chosen-together', i is p or (pl is not None and pl.op == 'el' and pl.args[1] is i),
                              at, 'the token recorded is not the one whose score was recorded')
                    ctx.check('select', 'cheaper', F.decide(lt(b, B, False), g) is True, at,
                              'a token is chosen that is not cheaper')
                    if pl is None or pl.op != 'el' or 'toks_' not in names(pl.args[0]) or 'prev_toks_' in names(pl.args[0]):
                        ctx.bad('select', 'all', at, 'the tokens compared are not those of the beam')
                        continue
                    size = norm(F, F.load(F.endst[H], fld(pl.args[0].args[0], '#size')))
                    w = loops.covers(F, H, pl.args[1], C(0), size, lambda k: aborts(F, k))
                    ctx.check('select', 'all', not w, at, 'the token compared ' + w)
            ctx.check('select', nm + '/chosen', chosen > 0, at, 'no token is ever chosen')


def nobody(F, fs):
    return any(x.op == 'init' and x.args[0].op == 'fld' and x.args[0].args[1] == '#size' and 'toks_' in names(x.args[0])
               and F.decide(eq(x, C(0)), fs) is True for t in fs for x in walk(t))


def other(a, B):
    d, k = lin(a.args[0])
    if B not in d or abs(d[B]) != 1:
        return []
    s = -d[B]
    r = C(k * s)
    for x, c in d.items():
        if x is not B:
            r = add(r, scale(x, c * s))
    return [r]


def parts(F, y):
    """(token, [graph finals], [model finals], rest) of a score"""
    d, k = lin(y)
    d = {norm(F, x): c for x, c in d.items()}
    toks = [x for x, c in d.items() if of_token(F, x, ['cost_']) is not None]
    if len(toks) != 1:
        return None
    g = [x for x in d if x not in toks and final_of(F, x, 'fst_')]
    m = [x for x in d if x not in toks + g and final_of(F, x, 'delta_lm_fst_')]
    rest = [x for x in d if x not in toks + g + m] + ([C(k)] if k else [])
    return toks[0], g, m, rest, d


def final_of(F, x, owner):
    """the state whose final cost x is"""
    if x.op == 'init' and x.args[0].op == 'deref':
        x = x.args[0].args[0]
    if x.op == 'm' and x.args[0] == 'Value':
        x = x.args[1]
    if x.op != 'm' or x.args[0] != 'Final' or len(x.args) != 3:
        return None
    o = x.args[1]
    l = place(F, o)
    if l is None or l.op != 'deref':
        return None
    q = place(F, l.args[0])
    return x.args[2] if q is not None and q.op == 'fld' and q.args[1] == owner else None


def score(ctx, F, nm, y, e, d, at):
    ps = parts(F, y)
    if ps is None:
        ctx.bad('score', nm, at, 'the score is not built on the cost of one token: %s' % show(y))
        return None
    t, g, m, rest, co = ps
    P = of_token(F, t, ['cost_'])
    why = []
    if co[t] != 1:
        why.append('the cost is counted %+d times' % co[t])
    for what, xs, want, own, fld_ in (('final cost of the graph', g, e, 'fst_', 'hclg_state_'),
                                      ('final correction of the language model', m, e and d, 'delta_lm_fst_', 'lm_state_')):
        if want and (len(xs) != 1 or co[xs[0]] != 1):
            why.append('the %s is %s' % (what, 'missing' if not xs else 'counted differently than once'))
        elif xs and not want:
            why.append('the %s is added although it must not be' % what)
        elif xs and of_token(F, final_of(F, xs[0], own), ['state_', fld_]) is not P:
            why.append('the %s is that of another state' % what)
    if rest:
        why.append('plus ' + ', '.join(show(x) for x in rest))
    ctx.check('score', nm, not why, at, 'score at the end: ' + '; '.join(why))
    return P


# ------------------------------------------------------------------ the text
def text(ctx, flips):
    F = ctx.flow('StoreHypText', stop=STOPS + [D + 'BestPath'])
    f = ctx.fn('StoreHypText')
    at = f['loc']
    hyps = calls(F, D + 'BestPath')
    if len(hyps) != 1:
        ctx.check('text', 'one-result', False, at, 'the best path is determined %d times' % len(hyps))
        return
    h = hyps[0].val
    words = sel(h, 'words_')
    n = sel(words, '#size')
    done = 0
    for p in list(F.phis):
        if F.defnode[p] not in F.loops():
            continue
        H = F.defnode[p]
        body = F.loops()[H]
        lat = [(k, norm(F, v)) for k, v in F.phis[p].items() if k[0] in body and F.E.get(k) is not None]
        if not lat or not any(x.op == 'cat' for _, v in lat for x in [v] + sorted(leaves(F, v, stop={p}), key=lambda t: t.id)):
            continue
        lat = [(k, norm(F, x), frozenset(fs)) for k, v in lat for (x,), fs in cases(F, (v,), k[0], keep={p}) or []]
        style = set()
        done += 1
        ini = [norm(F, v) for k, v in F.phis[p].items() if k[0] not in body]
        ctx.check('text', 'empty-start', all(v.op == 'str' and v.args[0] == '' for v in ini), at, 'the text starts with something')
        for k, v, fs in lat:
            ps = flat(v)
            if v is p:
                ctx.bad('text', 'all-words', at, 'a word can be left out')
                continue
            if len(ps) not in (2, 3) or ps[0] is not p:
                ctx.bad('text', 'word', at, 'a round appends %s' % ', '.join(show(x) for x in ps[1:]))
                continue
            w, gap = ps[1], ps[2] if len(ps) == 3 else None
            if isblank(w):
                w, gap = gap, 'before'
            elif gap is None:
                gap = 'first'
            style.add(gap if isinstance(gap, str) else 'after')
            while w.op in ('m', 'fn') and w.args[0] in ('c_str', 'data', 'string'):
                w = w.args[1]
            l = place(F, w)
            if l is None or l.op != 'el' or 'symbol_table' not in names(l.args[0]) or 'words_' not in names(l.args[0]):
                ctx.bad('text', 'word', at, 'what is appended is not a word of the symbol table: %s' % show(w))
                continue
            i = l.args[1]
            r = element(F, i, words, n)
            if r is None:
                ctx.bad('text', 'word', at, 'the word appended is not a word of the result: %s' % show(i))
                continue
            idx, revs = r
            first = F.decide(eq(idx, C(0)), fs)
            ok = {'before': first is False, 'first': first is True}.get(gap) if isinstance(gap, str) else isblank(gap)
            ctx.check('text', 'space', ok and (len(style) == 1 or 'after' not in style), at, 'a word is not separated by one space')
            why = loops.covers(F, k[0], idx, C(0), n, lambda k: aborts(F, k))
            ctx.check('text', 'all-words', not why, at, 'the word appended ' + why)
            hp = loops.header_phi(F, idx)
            if hp is not None and F.steps(hp[0]) and all(s.op == 'c' for s in F.steps(hp[0])[1]):
                if F.steps(hp[0])[1][0].args[0] * hp[1] < 0:
                    revs += 1
            ctx.check('text', 'order', (revs + (flips or 0)) % 2 == 1, at, 'the words are not in spoken order')
    if not done:
        raise AnalysisBroken('StoreHypText: the text is not built in a loop')
    # what is stored
    utt = F.paramobj(0)
    ll = [e for e in F.events if e.kind == 'store' and e.where is not None and e.where.op == 'fld' and
          e.where.args[1] == 'loglikelihood_per_frame' and F.feasible(e.node)]
    ctx.check('text', 'score-stored', bool(ll), at, 'no score is reported')
    for e in ll:
        ok = False
        v = norm(F, e.val)
        if v.op == 'mul':
            a = list(v.args[0]) if len(v.args) == 1 and isinstance(v.args[0], tuple) else list(v.args)
            w = [x for x in a if x is sel(h, 'weight_')]
            iv = [x for x in a if x.op == 'inv' and (lambda l: l is not None and l.op == 'fld' and
                  l.args[1] == 'num_frames_decoded_')(place(F, x.args[0]))]
            ok = len(a) == 2 and len(w) == 1 and len(iv) == 1
        ctx.check('text', 'score-per-frame', ok, e.loc, 'the score reported is %s' % show(v))
        R = F.assume(F.entry, [])
    R = F.assume(hyps[0].node, [NOT(eq(n, C(0)))], stop={e.node for e in ll})
    ctx.check('text', 'score-always', F.exit not in R.nodes or any(e.node is F.exit for e in ll), at,
              'a result with words is stored without its score')
    hyp = fld(utt, 'hyp')
    for nm, cond in (('some', NOT(eq(n, C(0)))), ('none', eq(n, C(0)))):
        R = F.assume(hyps[0].node, [cond])
        vs = R.values(norm(F, F.final(hyp)))
        for v in vs:
            ok = False
            bad = show(v)
            for e in F.events:
                if e.kind == 'new' and norm(F, e.val) is v and e.node in R.nodes:
                    ok = filled(F, R, v, nm == 'some')
                    bad = 'a buffer with other contents'
            ctx.check('text', 'stored-' + nm, ok, at, 'the text reported is %s' % bad)


def isblank(x):
    return x is C(32) or x is not None and x.op == 'str' and x.args[0] == ' '


def whole(ctx):
    """the text reported is not cut short"""
    F = ctx.flow('StoreHypText', stop=STOPS + [D + 'BestPath', 'pasco_strlcpy'], key='whole')
    for m in F.events:
        if m.kind == 'new' and m.name == 'char' and F.feasible(m.node):
            m05.buffer(Only(ctx, {'complete': 'text'}), F, 'StoreHypText', m)


def filled(F, R, buf, some):
    """everything stored into the buffer is a terminator or the byte of the text at the same offset"""
    n = 0
    for e in F.events:
        if e.node not in R.nodes and e.node is not R.start:
            continue
        if e.kind == 'call' and e.name in ('memcpy', 'strcpy', 'strncpy', 'std::memcpy', 'strlcpy', 'memmove',
                                           'std::strcpy', 'std::strncpy', 'snprintf', 'std::copy', 'std::copy_n') and e.args:
            ds = [a for a in e.args if buf in walk(a)]
            if not ds:
                continue
            srcs = [a for a in e.args if is_text(a)]
            if not srcs:
                return False
            n += 1
        if e.kind != 'store' or e.where is None or buf not in walk(e.where):
            continue
        v = e.val
        off = e.where.args[1] if e.where.op == 'el' else C(0)
        if v is C(0):
            continue
        l = place(F, v)
        if l is not None and l.op == 'el' and is_text(l.args[0]):
            o = l.args[1]
            if norm(F, o) is norm(F, off) or F._prove(eq(o, off), F.facts(e.node), 3, {}, e.node):
                n += 1
                continue
        return False
    return n > 0 if some else n == 0


def is_text(a):
    return any(x.op == 'm' and x.args[0] in ('data', 'c_str', '#data') for x in walk(a)) or \
        any(x.op == 'cat' for x in walk(a))


def flat(v):
    if v.op == 'cat':
        out = []
        for x in v.args:
            out += flat(x)
        return out
    return [v]


def element(F, v, words, n):
    """v is an element of the words: (index, number of reversals)"""
    v = norm(F, v)
    if v.op == 'phi':
        return None
    if v.op == 'ld':
        A, i = v.args
    elif v.op == 'init' and v.args[0].op == 'el':
        return None
    else:
        return None
    revs = 0
    while A.op == 'rev':
        if A.args[1] is not C(0) or A.args[2] is not n:
            return None
        revs += 1
        A = A.args[0]
    return (i, revs) if A is sel(words, '#data') else None
