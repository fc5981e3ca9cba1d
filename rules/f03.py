"""Accepted audio formats are exactly the decoded ones."""
from rules.stream import *

WIDTH = {8: ('signed char', 'int8_t', 'char'), 16: ('short', 'int16_t'), 32: ('int', 'int32_t')}


def run(ctx):
    ctx.rule('accepted', 'mono audio at 16 kHz with 8, 16 or 32 bits is accepted, and the format is remembered', 3)
    ctx.rule('refused', 'every other number of channels, rate or width is refused, and the reader stays as it is', 3)
    ctx.rule('width', 'for each width, sample i is the signed number of that width at its place in the data', 3)
    ctx.rule('all', 'every sample received completely is decoded', 3)
    ctx.rule('created', 'an utterance is only handed out when its format was accepted', 1)
    fmt(ctx)
    for k in (8, 16, 32):
        decode(ctx, k)
    created(ctx)


def fmt(ctx):
    f = ctx.fn('WaveReader::SetFormat')
    base = ctx.flow(f)
    L = {n: fld(base.paramobj(0), n) for n in ('num_channels', 'sample_rate', 'bits_per_sample')}
    for k in (8, 16, 32):
        F = ctx.flow(f, key=('bits', k), given=lambda F, k=k: {
            fld(F.paramobj(0), 'num_channels'): C(1), fld(F.paramobj(0), 'sample_rate'): C(16000),
            fld(F.paramobj(0), 'bits_per_sample'): C(k)})
        R = F.assume(F.entry, [])
        ctx.check('accepted', str(k), all(ret_ok(v) for v in R.returns()) and bool(R.returns()), f['loc'],
                  'mono 16 kHz audio with %d bits is refused' % k)
        ok = norm(F, F.final(F.field('ready_'))) is C(1)
        for n, w in (('num_channels', 1), ('sample_rate', 16000), ('bits_per_sample', k)):
            ok = ok and norm(F, F.final(fld(F.field('format_'), n))) is C(w)
        ctx.check('accepted', '%d/kept' % k, ok, f['loc'], 'the accepted format is not remembered')
    F = base
    v = {n: T('init', l) for n, l in L.items()}
    bad = {'channels': [NOT(eq(v['num_channels'], C(1)))], 'rate': [NOT(eq(v['sample_rate'], C(16000)))],
           'bits': [NOT(eq(v['bits_per_sample'], C(k))) for k in (8, 16, 32)]}
    for n, fs in bad.items():
        R = F.assume(F.entry, fs)
        rs = R.accepts()
        ctx.check('refused', n, not rs and bool(R.returns()), f['loc'], 'another value of %s is accepted' % n)
        w = [e for e in F.events if e.kind == 'store' and R.reached(e) and e.where.op == 'fld' and
             e.where in (F.field('ready_'), F.field('format_')) and F.exit in F.assume(e.node, fs).nodes]
        ctx.check('refused', n + '/unset', not w, w[0].loc if w else f['loc'], 'the reader is made ready with a refused format')


def bits_given(k):
    return lambda F: {fld(F.field('format_'), 'bits_per_sample'): C(k), F.field('ready_'): C(1)}


def samples(ctx, k):
    """(flow, stores of samples) of the reader for a width"""
    F = ctx.flow('WaveReader::Process', key=('bits', k), given=bits_given(k), extra=SUMMARY)
    out = fld(F.paramobj(2), '#v')
    return F, out, [e for e in F.events if e.kind == 'store' and F.feasible(e.node) and e.where.op == 'el' and
                    locnorm(F, e.where.args[0]) is out]


def decode(ctx, k):
    f = ctx.fn('WaveReader::Process')
    F, out, st = samples(ctx, k)
    if not ctx.check('width', '%d/stored' % k, len(st) == 1, f['loc'], 'samples of %d bits are stored in %d places' % (k, len(st))):
        return
    e = st[0]
    i = norm(F, e.where.args[1])
    ctx.check('width', '%d/type' % k, 'float' in e.e.get('t', '') or 'double' in e.e.get('t', ''), e.loc, 'samples are not stored as numbers')
    v = e.val
    r = loops.header_phi(F, i)
    n = None
    if ctx.check('all', '%d/loop' % k, r is not None, e.loc, 'only one sample is decoded'):
        H = F.defnode[r[0]]
        n = norm(F, F.load(F.instate[H], fld(F.paramobj(2), 'dim_')))
        why = loops.covers(F, e.node, i, C(0), n, lambda q: aborts(F, q))
        ctx.check('all', '%d/covered' % k, not why, e.loc, 'decoding: the loop over the samples ' + why)
        total = add(T('init', fld(F.field('buffer_'), '#size')), F.paramval(1))
        # n * w <= total < (n + 1) * w
        ok = n is norm(F, F.arith('/', total, C(k // 8), 'int', 'int', 'int')) or (
            F._prove(le(scale(n, k // 8), total, True), F.facts(e.node), 3, {}, e.node) and
            F._prove(lt(total, add(scale(n, k // 8), C(k // 8)), True), F.facts(e.node), 3, {}, e.node))
        ctx.check('all', '%d/number' % k, ok, e.loc, '%s samples are decoded' % show(n))
    # where the number was read
    pos, t, bad = source(F, v, e)
    if not ctx.check('width', '%d/read' % k, pos is not None, e.loc, 'the sample is not what was read: %s' % (bad or show(v))):
        return
    t = t.replace('const ', '').strip()
    ctx.check('width', '%d/signed' % k, t in WIDTH[k], e.loc, 'samples of %d bits are read as %s' % (k, t))
    w = scale(i, k // 8)
    ok = norm(F, pos) is w or F._prove(eq(pos, w), F.facts(e.node), 3, {}, e.node)
    ctx.check('width', '%d/place' % k, ok, e.loc, 'sample %s is read at byte %s' % (show(i), show(pos)))


def source(F, v, at):
    """(byte, type) v was read at from the received data"""
    buf = fld(F.field('buffer_'), '#data')
    if v.op == 'narrow':
        return None, None, 'it is cut to %s' % v.args[1]
    e = at.e
    x = F.elem(at.frame, e['b']) if e.get('b') is not None else {}
    while x.get('k') == 'cast':
        if 'unsigned' in x.get('t', '') or x.get('t', '').startswith('uint'):
            return None, None, 'it is made %s' % x['t']
        x = F.elem(at.frame, x['a'])
    t0 = None
    if v.op == 'copied':
        ds = {d.e.get('t', '') for d in F.events if d.kind == 'decl' and d.where is not None and F.dominates(d.node, at.node) and
              any(m.kind == 'call' and last(m.name) in ('memcpy', 'memmove') and m.args[0] is addr(d.where) and
                  T('copied', F.load(F.instate[m.node], F.deref(m.args[1])), m.args[2]) is v or
                  m.kind == 'call' and last(m.name) in ('memcpy', 'memmove') and m.args[0] is addr(d.where) and
                  v.args[0].op in ('ld', 'init') and m.args[2] is v.args[1] for m in F.events)}
        if len(ds) != 1:
            return None, None, 'it is copied'
        t0 = ds.pop()
        if v.args[1] is not C(wide(t0)):
            return None, None, '%s bytes are copied' % show(v.args[1])
        v = v.args[0]
    if v.op not in ('ld', 'init'):
        return None, None, ''
    pos = v.args[1] if v.op == 'ld' else (v.args[0].args[1] if v.args[0].op == 'el' else None)
    if pos is None:
        return None, None, ''
    if t0:
        return pos, t0, ''
    ts = set()
    for e in F.events:
        if e.kind in ('access', 'index') and F.feasible(e.node) and e.where is not None and e.where.op == 'el' and \
                locnorm(F, e.where.args[0]) is buf and e.where.args[1] is pos and F.dominates(e.node, at.node):
            p = pos
            if e.kind == 'index' and e.args:
                p = add(sub(pos, e.args[0]), scale(e.args[0], wide(e.e.get('t', ''))))
            ts.add((e.e.get('t', ''), p))
    if not ts:
        return None, None, ''
    if len({t for t, p in ts}) != 1:
        return None, None, 'it is read as ' + ' and '.join(sorted(x[0] for x in ts))
    ps = {p for t, p in ts}
    if len(ps) != 1:
        return None, None, 'it is read at several places'
    return ps.pop(), next(iter(ts))[0], ''


def wide(t):
    t = t.replace('const ', '').strip()
    return {v: k // 8 for k, vs in WIDTH.items() for v in vs}.get(t, 1)


def created(ctx):
    f = ctx.fn('ce_utt_init')
    F = ctx.flow(f, stop=[WAVE + 'SetFormat', D + 'Decoder', D + 'Initialize', 'ce_utt_destroy'])
    sets = [e for e in F.events if e.kind == 'call' and e.name == WAVE + 'SetFormat' and F.feasible(e.node)]
    if not ctx.check('created', 'checked', bool(sets), f['loc'], 'the format is not checked'):
        return
    R = F.assume(F.entry, [], stop={e.node for e in sets})
    rs = {v for v in R.returns()} if F.exit in R.nodes and not any(e.node is F.entry for e in sets) else set()
    ctx.check('created', 'always', all(v is NULL for v in rs), f['loc'], 'an utterance may be handed out without checking its format')
    fmt_ = F.paramval(1)
    for e in sets:
        ctx.check('created', 'given', e.locs[0] is not None and locnorm(F, e.locs[0]) is F.deref(fmt_), e.loc, 'another format is checked')
        R = F.assume(e.node, [NOT(isok(e.val))])
        ctx.check('created', 'refused', R.returns() and all(v is NULL for v in R.returns()), e.loc,
                  'an utterance is handed out although its format was refused')
        # the reader of this utterance
        ctx.check('created', 'reader', e.obj is not None and 'wave_reader' in names(e.obj), e.loc, 'the format is given to another reader')
