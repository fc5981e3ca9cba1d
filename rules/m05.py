"""The hypothesis text is always a valid string."""
from rules.history import *

HYP = 'hyp'
KEEP = [WAVE + 'Process', FBANK + 'Process', AM + 'Process', AM + 'EndOfStream', D + 'Process', D + 'EndOfStream', D + 'BestPath',
        D + 'Initialize', D + 'Decoder', 'pasco_strlcpy']
API = ('ce_utt_init', 'ce_utt_destroy', 'ce_stt_process', 'ce_stt_end_of_stream')
# how many bytes a call writes, and whether the last of them is the terminator
TEXTS = ('strcpy', 'std::strcpy', 'stpcpy')
BYTES = ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', 'strncpy', 'std::strncpy')


def run(ctx):
    ctx.rule('sites', 'every place that changes the hypothesis is known', 3)
    ctx.rule('fits', 'a new buffer has room for the text and its terminator', 3)
    ctx.rule('complete', 'a new buffer is always filled with the whole text', 3)
    ctx.rule('ended', 'a new buffer is always terminated inside its bounds', 3)
    ctx.rule('released', 'the previous buffer is released once, when it is replaced', 4)
    ctx.rule('present', 'there is a hypothesis from creation to destruction', 3)
    ctx.rule('copy', 'the bounded copy writes inside its bound, keeps every character that fits, and terminates', 4)
    seen = set()
    for n in API:
        seen |= function(ctx, n)
    for f in ctx.ours():
        for b in f['blocks']:
            for e in b['elems']:
                if e['k'] == 'assign' and is_hyp(e.get('l')) or e['k'] in ('un',) and is_hyp(e.get('a')):
                    ctx.check('sites', where(f), (f['m'], e.get('loc')) in seen, e.get('loc') or f['loc'],
                              'the hypothesis is changed outside creation, destruction and decoding')
    strlcpy(ctx)


def is_hyp(l):
    while isinstance(l, dict) and l.get('k') in ('cast', 'paren'):
        l = l.get('a')
    return isinstance(l, dict) and l.get('k') == 'member' and l.get('field') == HYP and (l.get('rec') or '').startswith('ce_utt')


def hyp_of(l):
    return l is not None and l.op == 'fld' and l.args[1] == HYP


# ------------------------------------------------------------------ the owners
def function(ctx, n):
    f = ctx.fn(n)
    F = ctx.flow(f, key='m05', stop=KEEP + (['ce_utt_destroy'] if n != 'ce_utt_destroy' else []))
    live = [e for e in F.events if F.feasible(e.node)]
    stores = [e for e in live if e.kind == 'store' and hyp_of(e.where)]
    locs = {e.where for e in stores}
    frees = [e for e in live if e.kind == 'delete' and e.args]
    gone = [e for e in frees if e.name == 'delete'] + [e for e in live if e.kind == 'call' and e.name == 'ce_utt_destroy']
    made = [e for e in live if e.kind == 'new' and e.name == 'char']
    seen = set()
    for e in stores:
        seen.add((e.frame.fn['m'], e.e.get('loc')))
    if n == 'ce_utt_destroy':
        destroyed(ctx, F, f, stores, frees)
        return seen
    ctx.check('sites', n, len(locs) == 1, f['loc'], '%s does not set the hypothesis of one utterance' % n)
    for H in locs:
        fresh = n == 'ce_utt_init'
        for s in [s for s in stores if s.where is H]:
            v = norm(F, s.val)
            replaced(ctx, F, n, s, H, frees, fresh)
            if none(v):
                later = [x for x in stores if x.where is H and not none(norm(F, x.val))]
                ctx.check('present', n + '/again', must(F, s, [], later + gone), s.loc, 'there may be no hypothesis afterwards')
                continue
            ok = any(x.val is v for x in made) and array(F, v, made)
            ctx.check('present', n + '/buffer', ok, s.loc, 'the hypothesis is set to something other than a new buffer')
        for m in made:
            mine = [s for s in stores if norm(F, s.val) is m.val]
            if not mine:
                continue
            ctx.check('released', n + '/kept', must(F, m, [], mine), m.loc, 'the new buffer may be lost')
            buffer(ctx, F, n, m)
        for d in frees:
            dangling(ctx, F, n, d, H, stores, gone)
        if fresh:
            created(ctx, F, n, H, stores, gone)
    return seen


def none(v):
    return v.op == 'null' or v is C(0)


def array(F, v, made):
    return all(x.e.get('array') for x in made if x.val is v)


def before(F, s, H):
    """what the location holds right before the store"""
    older = [e for e in F.events if e.kind == 'store' and e.where is H and e.node is s.node and e.seq < s.seq]
    if older:
        return older[-1].val
    return F.load(F.instate[s.node], H)


def replaced(ctx, F, n, s, H, frees, fresh):
    old = before(F, s, H)
    for (o,), fs in cases(F, (old,), s.node) or [((old,), ())]:
        if none(o) or fresh and (o.op in ('fresh', 'undef') or o.op == 'sel' and o.args[0].op == 'fresh'):
            continue
        ds = [d for d in frees if norm(F, d.args[0]) is o]
        good = [d for d in ds if d.name == 'delete[]']
        ok = any(F.evdom(d, s) for d in good) or must(F, s, list(fs), good)
        ctx.check('released', n + '/old', bool(good) and ok, s.loc, 'the previous hypothesis is not released')


def dangling(ctx, F, n, d, H, stores, gone):
    v = norm(F, d.args[0])
    mine = v is T('init', H) or any(norm(F, s.val) is v for s in stores if s.where is H)
    if not mine:
        return
    ctx.check('released', n + '/form', d.name == 'delete[]', d.loc, 'the hypothesis is released in the wrong way')
    others = [s for s in stores if s.where is H and norm(F, s.val) is not v]
    ok = any(F.evdom(s, d) for s in others) or must(F, d, [], others + gone)
    ctx.check('released', n + '/replaced', ok, d.loc, 'a released hypothesis may stay in place')
    R = F.assume(d.node, [], stop={s.node for s in others if norm(F, s.val) is not v} if v.op != 'init' else ())
    for x in F.events:
        if x is d or not F.feasible(x.node):
            continue
        later = x.node is d.node and x.seq > d.seq or x.node is not d.node and R.reached(x)
        if not later:
            continue
        if x.kind == 'delete' and x.args and norm(F, x.args[0]) is v:
            ctx.check('released', n + '/twice', False, x.loc, 'a hypothesis is released twice')
        elif x.kind == 'call' and any(norm(F, a) is v for a in (x.args or ()) if a is not None):
            ctx.check('released', n + '/used', False, x.loc, 'a hypothesis is used after its release')


def created(ctx, F, n, H, stores, gone):
    mine = [s for s in stores if s.where is H]
    for g in gone:
        if g.kind == 'call':
            ctx.check('present', n + '/destroyed', any(F.evdom(s, g) for s in mine), g.loc,
                      'an utterance is destroyed before it has a hypothesis')
    for (r, h), fs in cases(F, (F.ret, F.final(H)), F.exit) or []:
        if none(r):
            continue
        ctx.check('present', n + '/returned', any(norm(F, s.val) is h for s in mine), F.root['loc'],
                  'an utterance is returned without a hypothesis')


def destroyed(ctx, F, f, stores, frees):
    u = F.paramobj(0)
    H = fld(u, HYP)
    n = 'ce_utt_destroy'
    v = T('init', H)
    mine = [d for d in frees if norm(F, d.args[0]) is v]
    objs = [d for d in frees if norm(F, d.args[0]) is F.paramval(0)]
    known = [NOT(eq(F.paramval(0), NULL)), NOT(eq(v, NULL))]
    ctx.check('released', n + '/form', all(d.name == 'delete[]' for d in mine), f['loc'], 'the hypothesis is released in the wrong way')
    ctx.check('released', n + '/always', bool(mine) and must_entry(F, known, mine), f['loc'], 'the hypothesis is not released')
    for d in mine:
        later = F.assume(d.node, []).nodes - {d.node}
        ctx.check('released', n + '/once', not any(x is not d and (x.node in later or x.node is d.node) for x in mine), d.loc,
                  'a hypothesis is released twice')
        for o in objs:
            ctx.check('released', n + '/order', not F.evdom(o, d), d.loc, 'the hypothesis is looked up in a released utterance')
    for s in stores:
        ctx.check('present', n + '/cleared', none(s.val), s.loc, 'a hypothesis is created at destruction')
    ctx.check('present', n + '/object', bool(objs) and must_entry(F, known, objs), f['loc'],
              'the utterance may live on without its hypothesis')


# ------------------------------------------------------------------ the contents
def length(F, v):
    """length of a text: linear in the lengths of its parts"""
    if v.op == 'str':
        return C(len(v.args[0]))
    if v.op == 'cat':
        r = length(F, v.args[0])
        for x in v.args[1:]:
            r = add(r, C(1) if x.op == 'c' else length(F, x))
        return r
    if v.op == 'm' and v.args[0] in ('c_str', 'data') and len(v.args) == 2:
        return length(F, v.args[1])
    return T('m', 'size', v)


def text_of(v):
    if v.op == 'm' and v.args[0] in ('c_str', 'data') and len(v.args) == 2:
        return v.args[1]
    return None


def nonempty(F, T_, node):
    """T_ holds at least one character"""
    if F._prove(lt(C(0), length(F, T_), True), F.facts(node), 3, {}, node):
        return True
    for x in (T('m', 'empty', T_), T('empty', T_)):
        if F._prove(eq(x, C(0)), F.facts(node), 3, {}, node):
            return True
    if T_.op == 'phi' and T_ in F.phis and F.defnode[T_] in F.loops():
        H = F.defnode[T_]
        init, steps = entries(F, T_)
        if not steps or not all(grows(F, s, T_) for s in steps):
            return False
        # the loop ran: leaving it at once contradicts what is known here
        at = {p: entries(F, p)[0] for p in F.phis if F.defnode[p] is H}
        one = {p: v[0] for p, v in at.items() if len(v) == 1}
        fs = [subst(x, one) for x in F.facts(node)]
        return impossible(F, set(fs), node)
    return False


def impossible(F, fs, node):
    fs = {x for x in fs if not (x.op == 'c' and x.args[0])}
    return any(x.op == 'c' for x in fs) or close(F, set(fs)) is False or \
        any(F._prove(NOT(x), frozenset(fs - {x}), 3, {}, node) for x in fs)


def entries(F, p):
    H = F.defnode[p]
    body = F.loops().get(H, ())
    ins, steps = [], []
    for k, v in F.phis[p].items():
        (steps if k[0] in body else ins).append(norm(F, v))
    return ins, steps


def grows(F, v, p):
    """v is p with at least one more character"""
    more = False
    while v.op == 'cat':
        more |= any(x.op == 'c' and x is not C(0) or x.op == 'str' and x.args[0] for x in v.args[1:])
        v = v.args[0]
    return v is p and more


def blank_end(F, v):
    """the last character, if there is one, is a space"""
    if v.op == 'cat':
        return v.args[-1] is C(32)
    if v.op == 'str':
        return v.args[0] == '' or v.args[0].endswith(' ')
    if v.op == 'phi' and v in F.phis and F.defnode[v] in F.loops():
        i, s = entries(F, v)
        return all(x.op == 'str' and blank_end(F, x) for x in i) and all(blank_end(F, x) for x in s)
    return False


def buffer(ctx, F, n, m):
    b = m.val
    size = C(1) if not m.args else norm(F, m.args[0])
    at = T('buf', b)
    live = [e for e in F.events if F.feasible(e.node)]
    whole, ends = [], []
    if m.e.get('init') is not None and m.e.get('array'):
        ends.append(m)
    for e in live:
        if e.kind == 'call':
            w = written(F, e, b)
            if w is None:
                continue
            bytes_, text, stop = w
            known = F.facts(e.node)
            ok = F._prove(le(bytes_, size, True), known, 3, {}, e.node)
            ctx.check('fits', n + '/' + last(e.name), ok, e.loc, '%s bytes may be written to a buffer of %s' % (show(bytes_), show(size)))
            full, closed = amount(F, e, bytes_, text, stop)
            ctx.check('complete', n + '/' + last(e.name), full, e.loc, 'not the whole text is copied')
            if full:
                whole.append(e)
            if closed:
                ends.append(e)
        elif e.kind == 'store' and e.where is not None and e.where is not at and e.where.op == 'el' and e.where.args[0] is at or \
                e.kind == 'store' and e.where is not None and e.where is deref(b):
            i = norm(F, e.where.args[1]) if e.where.op == 'el' else C(0)
            wr = [x for x in (written(F, w, b) for w in live if w.kind == 'call') if x is not None]
            known = F.facts(e.node) | {lt(C(0), length(F, x[1]), True) for x in wr if nonempty(F, x[1], e.node)}
            fits = F._prove(le(C(0), i, True), known, 3, {}, e.node) and F._prove(lt(i, size, True), known, 3, {}, e.node)
            ctx.check('fits', n + '/element', fits, e.loc, 'byte %s of %s is written' % (show(i), show(size)))
            if e.val is C(0):
                if i is C(0) and nothing(F, n, e.node):
                    whole.append(e)
                    ends.append(e)
                for w in live:
                    x = written(F, w, b) if w.kind == 'call' else None
                    if x is not None and (same(i, length(F, x[1])) or same(i, x[0])) and not x[2]:
                        ends.append(e)
            else:
                t = each(F, e, i)
                if t is not None:
                    whole.append(e)
    head = [loops.rounds(F, e.node)[-1] if loops.rounds(F, e.node) else e for e in whole]
    ctx.check('complete', n + '/always', bool(whole) and must(F, m, [], head), m.loc, 'the new buffer may be left unfilled')
    ctx.check('ended', n + '/always', bool(ends) and (m in ends or must(F, m, [], ends)), m.loc, 'the new buffer may be left unterminated')


def each(F, e, i):
    """one character of a text at its own place, for all of them"""
    v = norm(F, e.val)
    if not (v.op == 'ld' and same(norm(F, v.args[-1]), i)):
        return None
    src = v.args[0]
    for x in walk(src):
        if x.op == 'phi' and x in F.phis and entries(F, x)[1] and all(s.op == 'cat' for s in entries(F, x)[1]):
            if not counted(F, e.node, length(F, x)):
                return x
    return None


def written(F, e, b):
    """(bytes, text, whether the last byte is always the terminator) of a copy into b"""
    name, a = last(e.name), [norm(F, x) if x is not None else None for x in (e.args or ())]
    if not a or a[0] is not b:
        return None
    if name == 'pasco_strlcpy' and len(a) == 3:
        return a[2], text_of(a[1]) or a[1], True
    if name in ('snprintf', 'std::snprintf') and len(a) == 4 and a[2].op == 'str' and a[2].args[0] == '%s':
        return a[1], text_of(a[3]) or a[3], True
    if name in TEXTS and len(a) == 2:
        t = text_of(a[1]) or a[1]
        return add(length(F, t), C(1)), t, False
    if name in BYTES and len(a) == 3:
        return a[2], text_of(a[1]) or a[1], False
    return None


def amount(F, e, k, t, cut):
    """(the whole text arrives, the terminator arrives)"""
    n = length(F, t)
    known = F.facts(e.node)
    room = F._prove(le(add(n, C(1)), k, True), known, 3, {}, e.node)
    if room:
        return True, True
    if cut:
        # the terminator replaces a trailing space
        full = same(k, n) and blank_end(F, t)
        return full, nonempty(F, t, e.node) and same(k, n) or F._prove(le(C(1), k, True), known, 3, {}, e.node)
    return same(k, n) or same(k, sub(n, C(1))) and blank_end(F, t), False


def nothing(F, n, node):
    """there are no words here"""
    if n == 'ce_utt_init':
        return True
    fs = F.facts(node)
    for x in {y for f in fs for y in walk(f)}:
        if (x.op == 'sel' and x.args[1] == '#size' and any(y.op == 'res' and 'BestPath' in str(y.args) for y in walk(x))) or \
                x.op == 'm' and x.args[0] == 'size' and any('cat' == s.op for y in walk(x) if y.op == 'phi' and y in F.phis
                                                            for s in entries(F, y)[1]):
            if F._prove(eq(x, C(0)), fs, 3, {}, node) or F._prove(le(x, C(0), True), fs, 3, {}, node):
                return True
    return False


# ------------------------------------------------------------------ the bounded copy
def strlcpy(ctx):
    f = ctx.fn('pasco_strlcpy')
    F = ctx.flow(f, key='m05')
    dst, src, siz = (F.paramval(i) for i in range(3))
    D_, S_ = T('buf', dst), T('buf', src)
    live = [e for e in F.events if F.feasible(e.node)]
    stores = [e for e in live if e.kind == 'store' and e.where is not None and D_ in walk(e.where) or
              e.kind == 'store' and e.where is deref(dst)]
    if not ctx.check('copy', 'stores', bool(stores), f['loc'], 'nothing is copied'):
        return
    zero = [e for e in stores if norm(F, e.val) is C(0)]
    chars = [e for e in stores if e not in zero]
    blocks = [e for e in live if e.kind == 'call' and written(F, e, dst)]
    for e in stores:
        i = index(F, e)
        ok = i is not None and all(
            holds(F, lt(j, siz, True), set(fs) | F.facts(e.node), e.node) for (j,), fs in cases(F, (i,), e.node) or [((i,), ())])
        ctx.check('copy', 'bound/%s' % ('end' if e in zero else 'character'), ok, e.loc, 'a byte beyond the bound may be written')
    for e in chars:
        i, v = index(F, e), norm(F, e.val)
        t = timed(F)
        ok = i is not None and v.op == 'init' and v.args[0].op == 'el' and v.args[0].args[0] is S_ and \
            same(subst(i, t), subst(norm(F, v.args[0].args[1]), t))
        ctx.check('copy', 'same', ok, e.loc, 'a character is not copied to its own place')
        h = loops.header_phi(F, i) if i is not None else None
        if not ctx.check('copy', 'each', h is not None and not isnt(F.steps(h[0])), e.loc, 'not every character is copied'):
            continue
        H = F.defnode[h[0]]
        first = all(subst(i, {h[0]: x}) is C(0) for x in entries(F, h[0])[0])
        ctx.check('copy', 'each', first, e.loc, 'the first character is not copied')
        for k in loops.exits(F, H):
            for fs in loops.ways(F, F, k):
                fs = set(fs) | F.facts(k[0])
                ok = holds(F, eq(v, C(0)), fs, k[0]) or holds(F, le(siz, add(i, C(2)), True), fs, k[0]) or \
                    holds(F, le(siz, add(i, C(1)), True), fs, k[0])
                ctx.check('copy', 'fits', ok, e.loc, 'copying may end although there is room for more')
    for e in blocks:
        k, t, c = written(F, e, dst)
        for (x,), fs in cases(F, (k,), e.node) or [((k,), ())]:
            g = set(fs) | F.facts(e.node)
            ctx.check('copy', 'bound/block', holds(F, lt(x, siz, True), g, e.node), e.loc, 'a byte beyond the bound may be written')
            ctx.check('copy', 'fits', same(x, sub(siz, C(1))) or 'strlen' in show(x), e.loc, 'not all that fits is copied')
    ctx.check('copy', 'copied', bool(chars or blocks), f['loc'], 'no character is copied')
    room = NOT(eq(siz, C(0)))
    R = F.assume(F.entry, [room], stop={e.node for e in zero})
    if F.exit in R.nodes and F.entry not in {e.node for e in zero}:
        ways = [g for k in R.edges if k[0].succs[k[1]][0] is F.exit for g in loops.ways(F, R, k)]
        for g in ways:
            ctx.check('copy', 'ended', any(holds(F, eq(norm(F, e.val), C(0)), set(g) | {room}, F.exit) for e in chars), f['loc'],
                      'the copy may be left unterminated')
    else:
        ctx.check('copy', 'ended', True)


def isnt(s):
    return not (s and len(set(s[1])) == 1 and s[1][0] is C(1))


def index(F, e):
    if e.where.op == 'el':
        return norm(F, e.where.args[1])
    return C(0) if e.where is deref(F.paramval(0)) else None


def timed(F):
    """every merge that advances evenly, in terms of the rounds made"""
    out = {}
    for p in F.phis:
        H = F.defnode[p]
        if H in F.loops():
            s = F.steps(p)
            if s and len(set(s[1])) == 1 and s[1][0].op == 'c':
                out[p] = add(s[0], scale(T('round', H.id if hasattr(H, 'id') else id(H)), s[1][0].args[0]))
    return out


def nonzero(F, more):
    """counters that are never zero where they merge"""
    out = set()
    for p in F.phis:
        H = F.defnode[p]
        if H not in F.loops():
            continue
        if all(F._prove(NOT(eq(v, C(0))), frozenset(F.E[k] or ()) | more, 3, {}, k[0]) for k, v in F.phis[p].items() if F.E.get(k) is not None):
            out.add(p)
    return out


def holds(F, g, fs, node):
    """g, with the merges of a loop expressed by its rounds; the sizes involved are unsigned"""
    if F._prove(g, frozenset(fs), 3, {}, node):
        return True
    t = timed(F)
    siz = F.paramval(2)
    more = set(fs) | {lt(C(0), p, True) for p in nonzero(F, frozenset({NOT(eq(siz, C(0)))} & set(fs)))}
    for p in F.phis:
        more.add(le(C(0), p, True)) if p in t else None
    more |= {le(C(0), siz, True)}
    more = {subst(x, t) for x in more}
    more |= {le(C(0), v, True) for p in t for v in [T('round', F.defnode[p].id if hasattr(F.defnode[p], 'id') else id(F.defnode[p]))]}
    if impossible(F, set(more), node):
        return True
    return F._prove(subst(g, t), frozenset(more), 3, {}, node)
