"""End of stream flushes everything and stores the final result."""
from rules.history import *
from rules.s03 import model_flow, context, batch, is_member, owner, valid


def run(ctx):
    ctx.rule('padded', 'at the end the last frame is repeated once for each frame of right context, if there is a frame', 2)
    ctx.rule('flushed', 'every frame still waiting is scored, unless there is none', 4)
    ctx.rule('handed', 'every remaining score is given to the decoder, then the decoder ends its stream', 3)
    ctx.rule('stored', 'the final hypothesis is stored on every path, after the decoder ended', 2)
    model(ctx)
    finish(ctx)


def model(ctx):
    f = ctx.fn('AcousticModel::EndOfStream')
    F = model_flow(ctx, 'EndOfStream')
    L, R, N = context(F)
    inst, out = F.paramobj(0), F.paramobj(1)
    fb = fld(inst, 'feats_buffer')
    n, d = fld(fb, '#size'), fld(fb, '#data')
    n0, d0 = T('init', n), T('init', d)
    props = [e for e in F.events if e.kind == 'call' and e.name == PK + 'Nnet::Propagate' and F.feasible(e.node)]
    if not ctx.check('flushed', 'batch', bool(props), f['loc'], 'the remaining frames are never scored'):
        return
    cut = {e.node for e in props}
    R0 = F.assume(F.entry, [], stop=cut)
    for e in props:
        cs = split(F, (F.load(F.instate[e.node], n), F.load(F.instate[e.node], d)), e.node, R=R0)
        if not ctx.check('padded', 'cases', bool(cs), f['loc'], 'what happens to the features could not be followed'):
            continue
        for (n1, d1), fs in cs:
            q = queue(F, d1, n1, d0, n0)
            ok = q is not None and same(q[1], C(0)) and (
                len(q[0]) == 1 and same(q[0][0][0], R) and last_frame(q[0][0][1], d0, n0))
            ctx.check('padded', 'right', ok, e.loc, 'the last frame is not repeated once for each frame of right context')
        ctx.check('flushed', 'all', same(batch(F, e), sub(n0, L)), e.loc,
                  '%s frames are scored at the end' % show(batch(F, e)))
        rows = split(F, (F.final(fld(out, 'num_rows_')),), F.exit, R=F.assume(e.node, []))
        ctx.check('flushed', 'given', bool(rows) and all(r is not C(0) for (r,), fs in rows), e.loc,
                  'the scores computed at the end are not given out')
    if F.exit in R0.nodes:
        for (r,), fs in split(F, (F.final(fld(out, 'num_rows_')),), F.exit, R=R0):
            ctx.check('flushed', 'nothing', r is C(0), f['loc'], 'rows are given out without a batch')
            ctx.check('flushed', 'only', any(F._prove(g, fs, 3, {}, F.exit) for g in (
                eq(n0, C(0)), le(n0, C(0), True), le(n0, L, True))), f['loc'], 'frames may be left without a score')
    # the last frame is still there when it is copied
    held = [e for e in F.events if e.kind == 'decl' and e.e.get('t', '').rstrip().endswith(('&', '*')) and F.feasible(e.node) and
            e.val is not None and d in walk(e.val)]
    for e in F.events:
        if e.kind == 'call' and e.obj is not None and F.feasible(e.node) and locnorm(F, e.obj) is fb and \
                (e.name or '').split('::')[-1] in ('back', 'front', 'pop_back', 'pop_front', 'rbegin', 'crbegin'):
            sz = F.load(F.instate[e.node], n)
            ctx.check('padded', 'there', F._prove(lt(C(0), sz, True), F.facts(e.node), 3, {}, e.node) or
                      F.decide(eq(norm(F, sz), C(0)), F.facts(e.node)) is False, e.loc,
                      'a frame is looked for although there may be none')
    for rec in ('AcousticModel::Instance',):
        t = field_type(ctx, rec, 'feats_buffer')
        ctx.check('padded', 'alive', t.startswith(('std::deque', 'std::list')) or not held, held[0].loc if held else f['loc'],
                  'the last frame may have moved when it is copied')


def field_type(ctx, rec, name):
    for f in ctx.ours():
        for b in f['blocks']:
            for e in b['elems']:
                if e['k'] == 'member' and e['field'] == name and e.get('rec', '').endswith(rec):
                    return e['ft']
    return ''


def last_frame(v, d0, n0):
    c = copy_of(v)
    if c is None:
        return False
    if v.op == 'agg' and {k for k, x in v.args[1]} < {'#v', 'dim_'}:
        return False
    return c in (T('ld', d0, sub(n0, C(1))), T('init', el(d0.args[0], sub(n0, C(1)))))


def finish(ctx):
    f = ctx.fn('ce_stt_end_of_stream')
    F = ctx.flow(f, key='chain', extra=SUMMARY, stop=STAGES + ['StoreHypText'])
    ev = {n: [e for e in F.events if e.kind == 'call' and e.name == n and F.feasible(e.node)] for n in STAGES + ['StoreHypText']}
    a, d, e, s = ev[AM + 'EndOfStream'], ev[D + 'Process'], ev[D + 'EndOfStream'], ev['StoreHypText']
    for n, x in (('model', a), ('decoder', d), ('end', e), ('result', s)):
        if not ctx.check('handed', 'once/' + n, len(x) == 1, f['loc'], 'at the end of the stream the %s is used in %d places' % (n, len(x))):
            return
    a, d, e, s = a[0], d[0], e[0], s[0]
    ctx.check('handed', 'model', is_member(F, a.locs[0], 'am_inst'), a.loc, 'the frames of another utterance are flushed')
    prob = a.locs[1]
    r = each_row(ctx, 'handed', F, d, prob, 'scores')
    if r:
        n = F.load(F.endst[a.node], fld(prob, 'num_rows_'))
        ctx.check('handed', 'always', must(F, a, [lt(C(0), n, True)], [r[0]]) and owner(F, d), d.loc,
                  'scores may not be given to the decoder of this utterance')
        ctx.check('handed', 'before', not F.assume(e.node, []).reached(d) and F.dominates(a.node, d.node), d.loc,
                  'scores are given to the decoder after it has ended')
    ctx.check('handed', 'ended', must(F, a, [], [e]) and owner(F, e), e.loc, 'the decoder may not be ended')
    ctx.check('stored', 'always', must(F, e, [], [s]), s.loc, 'the final result may not be stored')
    ctx.check('stored', 'last', F.evdom(e, s), s.loc, 'the result is stored before the decoder has ended')
    ctx.check('stored', 'own', s.args[0] is F.paramval(0), s.loc, 'the result of another utterance is stored')
    # a valid utterance gets there
    ctx.check('stored', 'reached', must_entry(F, valid(F), [a]), f['loc'], 'the stream may be left without flushing')
