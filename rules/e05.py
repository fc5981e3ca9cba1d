"""Calls on a missing or unfinished utterance, or with unusable audio, are rejected."""
from rules.common import *
from rules import e01, e03


def run(ctx):
    ctx.rule('refused', 'with a null utterance, internal state or recogniser the call fails without doing '
             'anything: the only outcome is the failure value', 6)
    ctx.rule('untouched', 'with a null utterance, internal state or recogniser nothing is read through the '
             'missing object and nothing but the error text is written', 6)
    ctx.rule('audio', 'null audio, a non-positive size or an unset format is refused and changes no state of '
             'the utterance', 4)
    prog = ctx.prog
    cps = {f['n'] for f in e03.copyfns(ctx)}
    gname = [x.args[0] for x in walk(ctx.flow('ce_stt_last_error').ret) if x.op == 'glob'][0]
    for api in ('ce_stt_process', 'ce_stt_end_of_stream'):
        f = ctx.fn(api)
        F = ctx.flow(f, stop=sorted(cps | {x['n'] for x in e01.fallible(ctx).values()} | set(e03.opaque(ctx, e03.copyfns(ctx)))))
        for what, cond in e03.handles(F):
            R = F.assume(F.entry, [cond])
            inst = '%s/%s' % (api, what)
            if api == 'ce_stt_process':
                rs = R.returns()
                ok = bool(rs) and all(e03.failing_value(F, v, C(-1), R.N.get(F.exit, frozenset())) for v in rs)
                ctx.check('refused', inst, ok, f['loc'], '%s with a missing %s can return %s' % (
                    api, what, ', '.join(sorted(show(v) for v in rs)) or 'nothing'))
            else:
                bad = [e for e in F.events if e.kind == 'call' and R.reached(e) and e.e.get('f') and
                       any(t.get('ours') and not t['n'].startswith(('CheckParam',)) and
                           (t['n'].startswith(PK + 'Decoder::') or t['n'].startswith(PK + 'AcousticModel::'))
                           for t in prog.targets(e.e))]
                ctx.check('refused', inst, not bad and F.exit in R.nodes, bad[0].loc if bad else f['loc'],
                          '%s goes on with a missing %s' % (api, what))
            hit, wr = None, None
            for e in F.events:
                if not R.reached(e):
                    continue
                fs = R.N.get(e.node, frozenset())
                if e.kind == 'access' and e.val is not None:
                    if e.val is NULL or F.decide(eq(e.val, NULL), fs) is True:
                        hit = e
                if e.kind == 'call' and e.obj is not None and e.obj.op == 'deref' and \
                        F.decide(eq(e.obj.args[0], NULL), fs) is True:
                    hit = e
                if e.kind == 'store' and e.where is not None:
                    r = root(e.where)
                    if r.op == 'deref' or (r.op == 'glob' and r.args[0] != gname):
                        wr = e
                if e.kind in ('new', 'delete') and api != 'x':
                    if e.kind == 'delete':
                        wr = e
            ctx.check('untouched', inst + '/read', hit is None, hit.loc if hit else f['loc'],
                      'the missing %s is read through at %s' % (what, hit.loc if hit else ''))
            ctx.check('untouched', inst + '/write', wr is None, wr.loc if wr else f['loc'],
                      '%s changes %s although the %s is missing' % (api, show(wr.where) if wr and wr.where is not
                                                                    None else 'something', what))
    audio(ctx)


def audio(ctx):
    f = ctx.fn('WaveReader::Process')
    F = ctx.flow(f)
    this = F.thisptr(F.frames[0]) if False else None
    buf, size = F.paramval(0), F.paramval(1)
    # which fields make the reader ready: SetFormat leaves it in this state only on success
    conds = [('null audio', eq(buf, NULL)), ('zero size', eq(size, C(0))), ('negative size', lt(size, C(0), True)),
             ('very negative size', eq(size, C(-2147483648)))]
    rd = ready_field(ctx)
    if rd:
        conds.append(('unset format', NOT(truth(T('init', F.field(rd[0]))))))
    for what, c in conds:
        R = F.assume(F.entry, [c])
        rs = R.returns()
        ok = bool(rs) and all(e01.failing(F, R, v, R.N.get(F.exit, frozenset()), None, 'status') for v in rs)
        ctx.check('audio', what.replace(' ', '-') + '/refused', ok, f['loc'], '%s is accepted (returns %s)' % (
            what, ', '.join(sorted(show(v) for v in rs))))
        w = None
        for e in F.events:
            if not R.reached(e):
                continue
            if e.kind == 'store' and e.where is not None and root(e.where).op in ('deref', 'this') and \
                    not owned(F, e.where):
                w = e
            if e.kind == 'call' and e.obj is not None and root(e.obj).op in ('deref', 'this') and \
                    (e.name or '').startswith('std::') and not e.e['f'].get('const', False) and \
                    mutates(e.name):
                w = e
        ctx.check('audio', what.replace(' ', '-') + '/untouched', w is None, w.loc if w else f['loc'],
                  'with %s the audio state is changed before the refusal' % what)


def mutates(n):
    return n.split('::')[-1] in ('insert', 'erase', 'push_back', 'emplace_back', 'assign', 'clear', 'resize',
                                 'pop_back', 'pop_front', 'swap', 'operator=', 'append', 'operator+=')


def owned(F, where):
    return root(where).op == 'var'


def ready_field(ctx):
    """the boolean field SetFormat sets only when it accepts"""
    f = ctx.fn('WaveReader::SetFormat')
    F = ctx.flow(f)
    out = []
    for e in F.events:
        if e.kind == 'store' and e.where is not None and e.where.op == 'fld' and e.val is C(1):
            out.append(e.where.args[1])
    return out
