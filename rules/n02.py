"""Acoustic scores subtract the prior once and match the frames."""
from rules.history import *
from rules.s03 import model_flow, context, batch


def run(ctx):
    ctx.rule('input', 'row i of what the network gets is waiting frame i, and there are that many', 4)
    ctx.rule('rows', 'a batch gives one score row for each of its frames', 2)
    ctx.rule('prior', 'from every row the logarithm of the prior is subtracted, once', 4)
    ctx.rule('log', 'the prior is read and its logarithm taken, once, before any score is computed', 3)
    for name in ('Process', 'EndOfStream'):
        scores(ctx, name)
    prior(ctx)


def scores(ctx, name):
    f = ctx.fn('AcousticModel::' + name)
    F = model_flow(ctx, name)
    inst, out = F.paramobj(0), F.paramobj(2 if name == 'Process' else 1)
    fb = fld(inst, 'feats_buffer')
    d, n = fld(fb, '#data'), fld(fb, '#size')
    props = [e for e in F.events if e.kind == 'call' and e.name == PK + 'Nnet::Propagate' and F.feasible(e.node)]
    if not ctx.check('input', name, bool(props), f['loc'], 'the network is never run'):
        return
    for e in props:
        st = F.instate[e.node]
        m = e.locs[0]
        if not ctx.check('input', name + '/matrix', m is not None and e.locs[1] is not None and locnorm(F, e.locs[1]) is out, e.loc,
                         'the network is not run on its frames'):
            continue
        rows = norm(F, F.load(st, fld(m, 'num_rows_')))
        v = norm(F, F.load(st, fld(m, '#v')))
        why = framed(F, v, d, rows, F.load(st, fld(m, 'num_cols_')))
        ctx.check('input', name + '/frames', not why, e.loc, 'what the network gets is not the waiting frames: %s' % why)
        have = norm(F, F.load(st, n))
        ctx.check('input', name + '/there', F._prove(le(rows, have, True), F.facts(e.node), 3, {}, e.node), e.loc,
                  'the network may get more frames than are waiting')
        R = F.assume(e.node, [])
        # afterwards
        L_, R_, N_ = context(F)
        want = sub(sub(rows, L_), R_)
        cs = split(F, (F.final(fld(out, 'num_rows_')), F.final(fld(out, '#v'))), F.exit, R=R)
        if not ctx.check('rows', name, bool(cs), e.loc, 'what becomes of the scores could not be followed'):
            continue
        for (r, v), fs in cs:
            ok = r is not C(0) and (same(norm(F, r), want) or F._prove(eq(r, want), fs, 3, {}, F.exit))
            ctx.check('rows', name + '/number', ok, e.loc, 'a batch may give another number of rows than it has frames')
            why = lessprior(F, v, r, F.load(F.endst[e.node], fld(out, '#v')), F.load(F.endst[e.node], fld(out, 'num_cols_')))
            ctx.check('prior', name + '/each', not why, e.loc, 'the scores given out: ' + why)
        ctx.check('prior', name + '/same', unchanged(F, F.field('log_prior_')), e.loc, 'the prior is changed')


def framed(F, v, d, rows, cols):
    """'' when row i of v is waiting frame i for all rows"""
    if v.op != 'phi' or F.defnode.get(v) not in F.loops():
        return 'its rows are not filled in one by one'
    H = F.defnode[v]
    ks = list(loops.latches(F, H))
    if len(ks) != 1:
        return 'rows are filled in several ways'
    w = closed(F, F.phis[v][ks[0]], ks[0][0])
    if w.op != 'st' or w.args[0] is not v:
        return 'a row is not filled in each round'
    i = norm(F, w.args[1])
    why = loops.covers(F, ks[0][0], i, C(0), rows, lambda k: aborts(F, k))
    if why:
        return 'the loop over the rows ' + why
    x = closed(F, F.load(F.endst[ks[0][0]], fld(el(d, i), '#v')), ks[0][0])
    y = w.args[2]
    for z in walk(y):
        if z.op == 'ld' and z.args[1] is not i and sub(z.args[1], i).op != 'c' and \
                F._prove(eq(z.args[1], i), F.facts(ks[0][0]), 3, {}, ks[0][0]):
            y = subst(y, {z: T('ld', z.args[0], i)})
            break
    if y.op == 'put' and y.args[1] is C(0) and same(norm(F, y.args[2]), closed(F, cols, ks[0][0])) and y.args[3].op == 'slice' and y.args[3].args[1] is C(0):
        y = y.args[3].args[0]
    return '' if y is x else 'row %s is %s, not %s' % (show(i), show(y), show(x))


def lessprior(F, v, rows, raw, cols):
    """'' when every row of v is the row of raw less the prior"""
    if v.op != 'phi' or F.defnode.get(v) not in F.loops():
        return 'the prior is not subtracted from each row' if v is not raw else 'the prior is not subtracted'
    H = F.defnode[v]
    ks = list(loops.latches(F, H))
    pre = {x for k, x in F.phis[v].items() if k not in ks and F.E.get(k) is not None}
    if len(ks) != 1 or pre != {raw}:
        return 'they do not come from the network alone'
    w = closed(F, F.phis[v][ks[0]], ks[0][0])
    if w.op != 'st' or w.args[0] is not v:
        return 'a row is left out in some rounds'
    r = norm(F, w.args[1])
    why = loops.covers(F, ks[0][0], r, C(0), rows, lambda k: aborts(F, k))
    if why:
        return 'the loop over the rows ' + why
    e = w.args[2]
    pr = T('init', fld(F.field('log_prior_'), '#v'))
    pd = T('init', fld(F.field('log_prior_'), 'dim_'))
    row = T('ld', v, w.args[1])
    if e.op == 'axpy' and e.args[0] is row and e.args[1] is C(-1) and e.args[2] is pr:
        return ''
    if e.op == 'axpyn' and e.args[0] is row and e.args[1] is C(-1) and e.args[2] is pr and e.args[3] is C(0) and (
            same(norm(F, e.args[4]), norm(F, cols)) or same(e.args[4], pd)):
        return ''
    return 'a row is not the score less the prior'


def unchanged(F, l):
    return F.final(fld(l, '#v')) is T('init', fld(l, '#v')) and F.final(fld(l, 'dim_')) is T('init', fld(l, 'dim_'))


def prior(ctx):
    f = ctx.fn('AcousticModel::Read')
    F = ctx.flow(f, key='alg', extra=SUMMARY, stop=[PK + 'Nnet::Read', PK + 'Configuration::GetPath',
                                                   PK + 'Configuration::GetInteger', PK + 'Vector::Read'])
    l = F.field('log_prior_')
    R = F.assume(F.entry, [])
    cs = cases(F, (F.ret, F.final(fld(l, '#v'))), F.exit)
    if not ctx.check('log', 'cases', bool(cs), f['loc'], 'reading the model could not be followed'):
        return
    n = 0
    for (ret, v), fs in cs:
        if F.decide(isok(ret), fs) is False or ret.op == 'fail':
            continue
        n += 1
        ok = v.op == 'map' and v.args[0] == 'ApplyLog' and not any(x.op == 'map' for x in walk(v.args[1]))
        src = [x for x in walk(v) if x.op == 'out' or str(x).startswith('out@Read')]
        ctx.check('log', 'once', ok, f['loc'], 'the logarithm of the prior is not taken exactly once')
        ctx.check('log', 'read', bool(src), f['loc'], 'the prior is not what was read')
    ctx.check('log', 'some', n > 0, f['loc'], 'the model is never read')
    # nobody changes it later
    bad = []
    keep = {f['key']}
    for g in ctx.ours():
        if g['n'].split('::')[-1].lstrip('~') == 'AcousticModel' or g['key'] in keep:
            continue
        d = effects._direct(ctx.prog, g)
        if 'log_prior_' in d[0]:
            bad.append(g)
    live = ctx.reach(('ce_stt_process', 'ce_stt_end_of_stream', 'ce_utt_init', 'ce_utt_destroy'))
    bad = [g for g in bad if g['key'] in live]
    ctx.check('log', 'kept', not bad, bad[0]['loc'] if bad else f['loc'], 'the prior may be changed while decoding')
