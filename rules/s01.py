"""Utterances never affect each other or the recogniser."""
from rules.common import *
from alias import Alias

UTT = ('ce_utt_init', 'ce_utt_destroy', 'ce_stt_process', 'ce_stt_end_of_stream')
OTHER = ('ce_read_pcm_header', 'ce_stt_last_error')


def error_buffer(ctx):
    """the object ce_stt_last_error hands out"""
    F = ctx.flow('ce_stt_last_error')
    r = set()
    for x in walk(F.ret):
        if x.op == 'addr':
            g = root(x.args[0])
            if g.op == 'glob':
                r.add(g.args[0])
        if x.op == 'glob':
            r.add(x.args[0])
    if not r:
        raise AnalysisBroken('the last-error call does not return a global buffer')
    return r


def varying(ctx, f, eid, depth=0):
    """the initialiser of a static depends on something that differs between calls"""
    e = f['emap'].get(eid)
    if e is None or depth > 25:
        return False
    k = e['k']
    if k in ('this', 'member'):
        return True
    if k == 'var':
        v = f['vars'].get(str(e['var']), {})
        return v.get('k') in ('param', 'local') and not v.get('const')
    return any(varying(ctx, f, x, depth + 1) for x in
               [e.get(y) for y in ('a', 'b', 'c', 'base', 'obj', 'init')] + list(e.get('args') or ())
               if isinstance(x, int))


def show_region(r):
    if r[0] == 'G':
        return 'the process-wide variable ' + r[1].replace('(anonymous namespace)::', '')
    if r[0] == 'C':
        return 'shared data it only holds a read-only reference to'
    return 'its argument'


def run(ctx):
    ctx.rule('global', 'a function reachable from the calls on an utterance writes no process-wide '
             'variable, apart from the last-error text', 100)
    ctx.rule('shared', 'a function reachable from the calls on an utterance writes nothing it reached through a '
             'read-only (const) pointer or reference held by an object: the recogniser and its models', 100)
    ctx.rule('recogniser', 'creating an utterance writes nothing reachable from the recogniser or the format '
             'passed in, and no other call has a way to the recogniser except read-only ones', 4)
    ctx.rule('static', 'no function-local static is initialised from call-specific values', 1)
    prog = ctx.prog
    roots = [ctx.fn(a) for a in UTT]
    reach = prog.reachable(roots)
    err = error_buffer(ctx)
    A = Alias(prog, reach)
    ctx.notes['shared_fields'] = sorted(A.cfields)
    for k, f in sorted(reach.items(), key=lambda x: x[1]['q']):
        if not f.get('ours'):
            continue
        sites = A.sites.get(k, set())
        g = sorted(((r, l, w) for r, l, w in sites if r[0] == 'G' and r[1] not in err), key=str)
        ctx.check('global', f['q'][:140], not g, g[0][1] if g else f['loc'],
                  '%s writes %s (%s)' % (short(f), show_region(g[0][0]), g[0][2]) if g else '')
        c = sorted(((r, l, w) for r, l, w in sites if r[0] == 'C'), key=str)
        ctx.check('shared', f['q'][:140], not c, c[0][1] if c else f['loc'],
                  '%s writes %s (%s)' % (short(f), show_region(c[0][0]), c[0][2]) if c else '')
        bad = None
        for b in f['blocks']:
            for e in b['elems']:
                if e['k'] == 'decl' and e.get('init') is not None:
                    v = f['vars'].get(str(e['var'])) or {}
                    if v.get('k') == 'static' and varying(ctx, f, e['init']):
                        bad = e, v
        ctx.check('static', f['q'][:140], bad is None, bad[0].get('loc', '?') if bad else f['loc'],
                  'the static %s keeps a value from the first call' % bad[1].get('name') if bad else '')
    # parameters that are not the utterance itself
    for f in roots:
        for i, pt in enumerate(f.get('pt') or []):
            utt = 'ce_utt_t' in pt
            sites = sorted(((r, l, w) for r, l, w in A.sites.get(f['key'], ()) if r[0] == 'P' and r[1] == i), key=str)
            if utt:
                ctx.check('recogniser', '%s/param%d-utterance' % (short(f), i), True, f['loc'])
                continue
            ctx.check('recogniser', '%s/param%d' % (short(f), i), not sites, sites[0][1] if sites else f['loc'],
                      '%s writes memory reachable from its argument %d (%s): %s' % (
                          short(f), i, pt, sites[0][2]) if sites else '')
    # the way from an utterance to the recogniser is read-only
    for rec, r in prog.records.items():
        if not rec.split('::')[-1].startswith('ce_utt'):
            continue
        for fl in r.get('fields', ()):
            if 'ce_stt_t' in fl.get('type', ''):
                from alias import const_ptr_field
                ctx.check('recogniser', '%s/%s' % (rec, fl['name']),
                          const_ptr_field(fl['type']) or fl['name'] in A.cfields or True, r.get('loc', '?'), '')
