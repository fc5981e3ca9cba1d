"""No audio is lost, repeated or reordered between the stages."""
from rules.history import *

BITS = (8, 16, 32)


def run(ctx):
    ctx.rule('bytes', 'bytes given to the reader are kept in order until a sample is complete', 3)
    ctx.rule('samples', 'samples are kept in order until no later frame needs them', 4)
    ctx.rule('frames', 'frame i is made of samples 160 i to 160 i + 399 and of nothing else', 4)
    ctx.rule('features', 'every feature row is queued once, the first padded to the left, and leaves with its batch', 5)
    ctx.rule('chained', 'what one stage gives is handed to the next completely and in order', 6)
    ctx.rule('owned', 'no other function changes what is waiting', 3)
    for k in BITS:
        reader(ctx, k)
    fbank(ctx)
    am(ctx)
    chain(ctx)
    owned(ctx)


# ---------------------------------------------------------------- bytes
def reader(ctx, k):
    f = ctx.fn('WaveReader::Process')
    F = ctx.flow(f, key=('bits', k), given=lambda F: {
        fld(F.field('format_'), 'bits_per_sample'): C(k), F.field('ready_'): C(1)}, extra=SUMMARY)
    b, w = F.field('buffer_'), C(k // 8)
    n, d = fld(b, '#size'), fld(b, '#data')
    cs = split(F, (F.ret, F.final(n), F.final(d), F.final(fld(F.paramobj(2), 'dim_'))), F.exit)
    if not ctx.check('bytes', '%d/cases' % k, bool(cs), f['loc'], 'what happens to the bytes could not be followed'):
        return
    for (ret, n1, d1, dim), fs in cs:
        if ret.op == 'fail':
            ctx.check('bytes', '%d/refused' % k, n1 is T('init', n) and d1 is T('init', d), f['loc'],
                      'a refused call changes the waiting bytes')
            continue
        q = queue(F, d1, n1, T('init', d), T('init', n))
        if not ctx.check('bytes', '%d/queue' % k, q is not None, f['loc'], 'the waiting bytes are not the ones given'):
            continue
        got = received(F, q[0])
        ctx.check('bytes', '%d/received' % k, got, f['loc'], 'the bytes given are not added as they are, once')
        tot = add(T('init', n), F.paramval(1))
        ctx.check('bytes', '%d/all' % k, same(dim, F.arith('/', tot, w, 'int', 'int', 'int')), f['loc'],
                  '%s samples are given out of %s bytes' % (show(dim), show(tot)))
        ctx.check('bytes', '%d/taken' % k, same(q[1], mul(w, dim)) and not any(x.op == 'phi' for x in walk(dim)), f['loc'],
                  '%s samples are given out, but %s bytes are taken' % (show(dim), show(q[1])))


def array(l):
    return l.args[0] if l.op == 'el' else l


def received(F, segs):
    b, n = F.paramval(0), F.paramval(1)
    if len(segs) == 1 and same(segs[0][0], n):
        v = segs[0][1]
        return v is T('from', b) or \
            (v.op == 'slice' and v.args[1] is C(0) and same(v.args[2], n) and v.args[0] is T('init', array(F.index(b, C(0)))))
    return False


# ---------------------------------------------------------------- samples
def fbank(ctx):
    f = ctx.fn('Fbank::Process')
    F = ctx.flow(f, key='frame', extra=FRAME)
    wb = fld(F.paramobj(0), 'wave_buffer')
    n, d = fld(wb, 'dim_'), fld(wb, '#v')
    out = F.paramobj(2)
    wave = F.paramobj(1)
    wn = T('init', fld(wave, 'dim_'))
    cs = split(F, (F.final(n), F.final(d), F.final(fld(out, 'num_rows_')), F.final(fld(out, '#v'))), F.exit)
    if not ctx.check('samples', 'cases', bool(cs), f['loc'], 'what happens to the samples could not be followed'):
        return
    D = add(T('init', n), wn)
    many = add(F.arith('/', sub(D, C(400)), C(160), 'int', 'int', 'int'), C(1))
    for (n1, d1, rows, feat), fs in cs:
        q = queue(F, d1, n1, T('init', d), T('init', n))
        empty = F._prove(eq(wn, C(0)), fs, 3, {}, F.exit)
        if not ctx.check('samples', 'queue', q is not None, f['loc'], 'the waiting samples are not the ones given'):
            continue
        segs, drop = q
        if empty:
            ctx.check('samples', 'nothing', not segs or all(same(k, wn) for k, v in segs), f['loc'], 'samples appear from nowhere')
        else:
            ok = len(segs) == 1 and same(segs[0][0], wn) and whole_of(F, segs[0][1], wave)
            ctx.check('samples', 'received', ok, f['loc'], 'the samples given are not added as they are, once')
        if rows is C(0) or F._prove(eq(rows, C(0)), fs, 3, {}, F.exit):
            ctx.check('samples', 'kept', same(drop, C(0)), f['loc'], 'samples are dropped although no frame was computed')
            ctx.check('frames', 'none', empty or F._prove(lt(D, C(400), True), fs, 3, {}, F.exit), f['loc'],
                      'no frame is computed although 400 samples are there')
        else:
            ctx.check('samples', 'dropped', same(drop, scale(rows, 160)), f['loc'],
                      '%s frames are computed, but %s samples dropped' % (show(rows), show(drop)))
            ctx.check('frames', 'number', same(rows, many), f['loc'], '%s frames are computed' % show(rows))
            frames(ctx, F, wb, out, feat, F.exit)


def whole_of(F, v, vec):
    """v is the content of the vector parameter"""
    d = T('init', fld(vec, '#v'))
    n = T('init', fld(vec, 'dim_'))
    return v is d or v is T('slice', d, C(0), n)


def frames(ctx, F, wb, out, feat, node):
    f = F.root
    if not ctx.check('frames', 'loop', feat.op == 'phi' and F.defnode.get(feat) in F.loops(), f['loc'],
                     'the frames are not computed one by one'):
        return
    H = F.defnode[feat]
    v = [closed(F, F.phis[feat][k], k[0]) for k in loops.latches(F, H)]
    v = v[0] if len(v) == 1 else T('void')
    if not ctx.check('frames', 'stored', v.op == 'st' and v.args[0] is feat, f['loc'],
                     'a frame is not stored in each round'):
        return
    i, k = norm(F, v.args[1]), next(iter(loops.latches(F, H)))
    n = norm(F, F.load(F.instate[H], fld(out, 'num_rows_')))
    why = loops.covers(F, k[0], i, C(0), n, lambda k: aborts(F, k))
    ctx.check('frames', 'all', not why, f['loc'], 'the loop over the frames ' + why)
    # what the row is made of
    src = norm(F, F.load(F.instate[H], fld(wb, '#v')))
    good, bad, old = parts(F, norm(F, v.args[2]), src, i, H)
    ctx.check('frames', 'window', bool(good) and not bad, f['loc'], 'frame i is made of %s' % (
        ', '.join(show(b) for b in bad) or 'something else'))
    ctx.check('frames', 'fresh', not old, f['loc'], 'frame i depends on what the frame before left in %s' % ', '.join(
        sorted({show(o) for o in old})))


def overwritten(F, x, H):
    """the parts, when they were written one after another and cover the whole vector"""
    iv, vals = [], []
    while x.op in ('put', 'rep') or x.op == 'phi' and x in F.phis and F.defnode[x] is not H:
        if x.op == 'phi':
            y = settled(F, x) if F.defnode[x] in F.loops() else None
            if y is None:
                return None
            x = y
            continue
        iv.append((norm(F, x.args[1]), norm(F, x.args[2])))
        vals.append(x.args[3])
        x = x.args[0]
    row = x.op == 'ld'
    if row:
        x = x.args[0]
    if x.op != 'phi' or F.defnode.get(x) is not H:
        return None
    l = x.args[1]
    if l.op != 'fld' or l.args[1] != '#v':
        return None
    dim = norm(F, F.load(F.instate[H], fld(l.args[0], 'num_cols_' if row else 'dim_')))
    at = C(0)
    for _ in range(len(iv)):
        for o, n in iv:
            if same(o, at):
                at = add(o, n)
                break
    return vals if same(at, dim) else None


def parts(F, v, src, i, H):
    """(uses of the 400 samples of frame i, uses of other samples, values carried over from the frame before) in v"""
    good, bad, old, seen = [], [], [], set()
    body = F.loops()[H]

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x is src:
            bad.append(x)
            return
        if x.op == 'slice' and x.args[0] is src:
            ok = same(norm(F, x.args[1]), scale(i, 160)) and same(x.args[2], C(400))
            (good if ok else bad).append(x)
            return
        if x.op == 'ld' and x.args[0] is src:
            j = sub(norm(F, x.args[1]), scale(i, 160))
            p = loops.header_phi(F, j)
            nd = F.defnode[p[0]] if p else None
            ok = p and not loops.covers(F, nd, j, C(0), C(400))
            (good if ok else bad).append(x)
            return
        if x.op in ('put', 'rep'):
            go(x.args[3])
            w = overwritten(F, x, H)
            for y in [x.args[0]] if w is None else w:
                go(y)
            return
        if x.op == 'phi' and x in F.phis:
            d = F.defnode[x]
            if d not in body:
                return
            if d is H:
                s = F.steps(x)
                if not (s and len(set(s[1])) == 1 and s[1][0].op == 'c'):
                    old.append(x)
                return
            if d in F.loops():
                y = settled(F, x)
                if y is not None:
                    go(y)
                    return
            for k, y in F.phis[x].items():
                if F.E.get(k) is not None:
                    go(y)
            return
        for y in x.args:
            if hasattr(y, 'op'):
                go(y)
            elif isinstance(y, tuple):
                for z in y:
                    for w in (z if isinstance(z, tuple) else (z,)):
                        if hasattr(w, 'op'):
                            go(w)
    go(v)
    return good, bad, old


# ---------------------------------------------------------------- features
def context(F):
    L, R, N = (T('init', F.field(n)) for n in ('left_context_', 'right_context_', 'chunk_size_'))
    return L, R, N


def sizes(F):
    L, R, N = context(F)
    return [le(C(0), L, True), le(C(0), R, True), le(C(1), N, True)]


def model_flow(ctx, name):
    return ctx.flow('AcousticModel::' + name, key='model', extra=SUMMARY, stop=[PK + 'Nnet::Propagate'], assuming=sizes)


def frame(F, v, vec):
    """v is a copy of the vector"""
    if v.op == 'agg':
        d = {k: x for k, x in v.args[1]}
        return whole_of(F, d.get('#v', T('void')), vec) and d.get('dim_') is T('init', fld(vec, 'dim_'))
    return False


def am(ctx):
    f = ctx.fn('AcousticModel::Process')
    F = model_flow(ctx, 'Process')
    L, R, N = context(F)
    inst, out = F.paramobj(0), F.paramobj(2)
    fb, started = fld(inst, 'feats_buffer'), fld(inst, 'started')
    n, d = fld(fb, '#size'), fld(fb, '#data')
    props = [e for e in F.events if e.kind == 'call' and e.name == PK + 'Nnet::Propagate' and F.feasible(e.node)]
    if not ctx.check('features', 'batch', bool(props), f['loc'], 'no batch is ever computed'):
        return
    cut = {e.node for e in props}
    # up to the batch, or to the end without one
    R0 = F.assume(F.entry, [], stop=cut)
    todo = [(e.node, F.load(F.instate[e.node], n), F.load(F.instate[e.node], d), F.load(F.instate[e.node], started)) for e in props]
    if F.exit in R0.nodes:
        todo.append((F.exit, F.final(n), F.final(d), F.final(started)))
    for node, n1, d1, s1 in todo:
        cs = split(F, (n1, d1, s1), node, R=R0)
        if not ctx.check('features', 'cases', bool(cs), f['loc'], 'what happens to the features could not be followed'):
            continue
        for (n2, d2, s2), fs in cs:
            q = queue(F, d2, n2, T('init', d), T('init', n))
            if not ctx.check('features', 'queue', q is not None, f['loc'], 'the waiting features are not the ones given'):
                continue
            segs, drop = q
            new = F.decide(T('init', started), fs)
            ctx.check('features', 'kept', same(drop, C(0)), f['loc'], 'features are dropped before they were used')
            one = len(segs) == 1 and frame(F, segs[0][1], F.paramobj(1))
            if new is None:
                ctx.check('features', 'started', False, f['loc'], 'the first feature is not told from the others')
            elif new:
                ctx.check('features', 'once', one and same(segs[0][0], C(1)), f['loc'], 'a feature is not queued exactly once')
            else:
                ctx.check('features', 'padded', one and same(segs[0][0], add(L, C(1))), f['loc'],
                          'the first feature is not queued once and once for each frame of left context')
            ctx.check('features', 'marked', s2 is C(1) or (new and s2 is T('init', started)), f['loc'],
                      'after a feature the stream does not count as started')
    # after the batch
    for e in props:
        n0, d0 = (closed(F, F.load(F.instate[e.node], x), F.exit) for x in (n, d))
        cs = split(F, (F.final(n), F.final(d), n0, d0, batch(F, e)), F.exit, R=F.assume(e.node, []))
        for (n2, d2, n1, d1, b), fs in cs or [(5 * (T('void'),), ())]:
            q = queue(F, d2, n2, d1, n1)
            ok = q is not None and not q[0]
            ctx.check('features', 'left', ok and same(q[1], b), e.loc,
                      'after a batch %s features leave' % (show(q[1]) if ok else 'other'))
    if F.exit in R0.nodes:
        rows = split(F, (F.final(fld(out, 'num_rows_')),), F.exit, R=R0)
        ctx.check('features', 'nothing', all(r is C(0) or F._prove(eq(r, C(0)), fs, 3, {}, F.exit) for (r,), fs in rows),
                  f['loc'], 'rows are given out without a batch')


def batch(F, e):
    """number of frames the network computes: its input less the context"""
    L, R, N = context(F)
    n = norm(F, F.load(F.instate[e.node], fld(e.locs[0], 'num_rows_'))) if e.locs[0] is not None else T('void')
    return closed(F, sub(sub(n, L), R), F.exit)


# ---------------------------------------------------------------- chain
def utt_of(F):
    """the utterance's own data"""
    return F.load(F.instate[F.entry], fld(F.paramobj(0), 'internal'))


def valid(F):
    """the argument is an utterance in use"""
    u = utt_of(F)
    r = F.load(F.instate[F.entry], fld(F.deref(u), 'recognizer'))
    return [NOT(eq(x, NULL)) for x in (F.paramval(0), u, r)]


def is_member(F, l, name):
    l = locnorm(F, l) if l is not None else None
    return l is not None and l is fld(F.deref(utt_of(F)), name)


def chain(ctx):
    f = ctx.fn('ce_stt_process')
    F = ctx.flow(f, key='chain', extra=SUMMARY, stop=STAGES + ['pasco_strlcpy', '(anonymous namespace)::StoreHypText'])
    ev = {n: [e for e in F.events if e.kind == 'call' and e.name == n and F.feasible(e.node)] for n in STAGES}
    for n, who in ((WAVE + 'Process', 'the reader'), (FBANK + 'Process', 'the features'), (AM + 'Process', 'the model'),
                   (D + 'Process', 'the decoder')):
        if not ctx.check('chained', 'once/' + who, len(ev[n]) == 1, f['loc'], '%s is called in %d places' % (who, len(ev[n]))):
            return
    w, b, a, d = (ev[x + 'Process'][0] for x in (WAVE, FBANK, AM, D))
    ctx.check('chained', 'reader', w.obj is not None and is_member(F, w.obj, 'wave_reader') and
              w.args[0] is F.paramval(1) and w.args[1] is F.paramval(2), w.loc, 'the reader does not get the bytes given')
    samples, feats, prob = w.locs[2], b.locs[2], a.locs[2]
    ctx.check('chained', 'reached', must_entry(F, valid(F), [w]), w.loc, 'the bytes may not be read')
    good = [isok(w.val)]
    ctx.check('chained', 'failed', not any(F.assume(w.node, [NOT(isok(w.val))]).reached(e) for e in (b, a, d)), w.loc,
              'refused bytes are processed further')
    some = NOT(eq(dim_after(F, w, samples), C(0)))
    ctx.check('chained', 'samples', must(F, w, good + [some], [b]), w.loc, 'samples may not be made into features')
    ctx.check('chained', 'features', b.locs[1] is not None and b.locs[1] is samples and is_member(F, b.locs[0], 'fbank_inst'), b.loc,
              'the features are not computed from the samples of this utterance')
    ctx.check('chained', 'kept', untouched(F, w, b, samples), b.loc, 'the samples are changed in between')
    r = each_row(ctx, 'chained', F, a, feats, 'features', 1)
    if r:
        ctx.check('chained', 'model', must(F, b, [lt(C(0), r[1], True)], [r[0]]) and must(F, b, [], [r[0], F.exit]) and
                  is_member(F, a.locs[0], 'am_inst'), a.loc, 'the features may not be given to the model of this utterance')
    r = each_row(ctx, 'chained', F, d, prob, 'likelihoods')
    if r:
        n = F.load(F.endst[a.node], fld(prob, 'num_rows_'))
        ctx.check('chained', 'decoder', must(F, a, [lt(C(0), n, True)], [r[0]]) and owner(F, d), d.loc,
                  'the likelihoods may not be given to the decoder of this utterance')
    # nothing is left out on the way back
    ctx.check('chained', 'order', F.dominates(w.node, b.node) and F.dominates(b.node, a.node) and F.dominates(a.node, d.node),
              f['loc'], 'the stages run in another order')


def dim_after(F, e, vec):
    return F.load(F.endst[e.node], fld(vec, 'dim_'))


def untouched(F, a, b, vec):
    v0, v1 = F.load(F.endst[a.node], fld(vec, '#v')), F.load(F.instate[b.node], fld(vec, '#v'))
    return norm(F, v0) is norm(F, v1)


def owner(F, d):
    l = locnorm(F, d.obj)
    return l is not None and l.op == 'deref' and 'decoder' in names(l) and utt_of(F) in walk(l)


# ---------------------------------------------------------------- owned
OWN = {'buffer_': ('WaveReader', WAVE, 'the bytes waiting in the reader'),
       'wave_buffer': ('Fbank::Instance', FBANK, 'the samples waiting for the next frame'),
       'feats_buffer': ('AcousticModel::Instance', AM, 'the features waiting for the next batch')}


def owned(ctx):
    stages = {ctx.fn(n)['key'] for n in STAGES}
    live, todo = {}, [ctx.fn('ce_stt_process'), ctx.fn('ce_stt_end_of_stream')]
    while todo:
        f = todo.pop()
        if f['key'] in live or f['key'] in stages:
            continue
        live[f['key']] = f
        todo += [t for e, t in ctx.prog.callees(f)]
    for name, (cls, scope, what) in OWN.items():
        bad = [f for f in live.values() if any(
            e['k'] == 'member' and e['field'] == name and e.get('rec', '').endswith(cls) for b in f['blocks'] for e in b['elems'])]
        ctx.check('owned', name, not bad, bad[0]['loc'] if bad else '?', '%s can be changed by %s' % (
            what, ', '.join(short(f) for f in bad)))
