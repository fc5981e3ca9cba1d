"""Every failing call leaves its own error message."""
import re
from rules.common import *
from rules import e01

FAIL = {'ce_stt_init': NULL, 'ce_utt_init': NULL, 'ce_read_pcm_header': NULL, 'ce_stt_process': C(-1)}


def copyfns(ctx):
    """our bounded string copies: (char *, const char *, size)"""
    out = []
    for f in ctx.ours():
        pt = [p.replace(' ', '') for p in f.get('pt', [])]
        if len(pt) == 3 and pt[0] == 'char*' and pt[1] == 'constchar*' and 'int' not in f['ret'].split() \
                and any(w in pt[2] for w in ('size_t', 'int', 'long')):
            out.append(f)
    return out


def opaque(ctx, cps):
    """functions that cannot touch the error text: defined away from the API and never reaching a
    bounded copy or the buffer"""
    keys = {f['key'] for f in cps}
    api = {ctx.fn(a)['loc'].split(':')[0] for a in API}
    out = []
    for f in ctx.ours():
        if f['loc'].split(':')[0] in api or f.get('ctor') or f.get('dtor'):
            continue
        n = f['n']
        if n.split('::')[-1] in ('NumRows', 'Dim', 'Row', 'NumCols', 'get', 'ok', 'what', 'words', 'weight'):
            continue
        if not any(k in keys for k in ctx.prog.reachable([f])):
            out.append(n)
    return out


def failing_value(F, v, bad, facts):
    return v is bad or F.decide(eq(v, bad), facts) is True


def maybe_failing(F, v, bad, facts):
    """counts are never negative, so an opaque count is not the failure value"""
    if bad is NULL:
        if v.op in ('new', 'this', 'ok') or (v.op == 'init' and v.args[0].op in ('param', 'var')):
            return False
        return F.decide(eq(v, bad), facts) is not False
    return failing_value(F, v, bad, facts)


def run(ctx):
    ctx.rule('left', 'every path of an API call to a failing return (or, for a call without result, every '
             'early refusal) copies a non-empty text into the buffer ce_stt_last_error returns', 8)
    ctx.rule('own', 'a text copied after a failed step is the message of the status that failed', 5)
    ctx.rule('bounded', 'each copy into the error buffer is bounded by the size of that buffer', 5)
    ctx.rule('copy', 'the bounded copy never writes outside the given size, copies consecutive characters and '
             'always terminates the destination', 4)
    ctx.rule('carrier', 'a status keeps the message and a non-zero code it was built with, and reports exactly '
             'those', 6)
    prog = ctx.prog
    cps = copyfns(ctx)
    if not cps:
        raise AnalysisBroken('no bounded string copy function found')
    cpn = {f['n'] for f in cps}
    F = ctx.flow('ce_stt_last_error')
    buf = root(deref(F.ret)) if F.ret is not None and F.ret.op in ('init', 'addr') else None
    if buf is not None and buf.op == 'deref':
        buf = None
    b0 = F.ret
    if b0 is None:
        raise AnalysisBroken('ce_stt_last_error returns nothing')
    names = [x.args[0] for x in walk(b0) if x.op == 'glob']
    ok = len(names) == 1
    gname = names[0] if ok else None
    g = prog.globals.get(gname) if ok else None
    size = 0
    if g:
        m = re.search(r'\[(\d+)\]$', g['type'])
        size = int(m.group(1)) if m else 0
    ctx.check('left', 'last_error/buffer', ok and size >= 2, F.root['loc'],
              'ce_stt_last_error does not return a fixed process-wide character buffer')
    fall = e01.fallible(ctx)
    stop = {f['n'] for f in fall.values()} | cpn
    skip = opaque(ctx, cps)
    for api in list(FAIL) + ['ce_stt_end_of_stream']:
        f = ctx.fn(api)
        F = ctx.flow(f, stop=sorted((stop | set(skip)) - {f['n']}))
        copies = []
        for ev in F.events:
            if ev.kind == 'call' and ev.args and any(x.op == 'glob' and x.args[0] == gname
                                                     for x in walk(ev.args[0])):
                base = (ev.name or '').split('::')[-1]
                if ev.name in cpn:
                    copies.append((ev, ev.args[1], ev.args[2]))
                elif base == 'snprintf' and len(ev.args) == 4 and ev.args[2].op == 'str' and \
                        e07lit(ev.args[2]) == '%s':
                    copies.append((ev, ev.args[3], ev.args[1]))
                elif base in ('snprintf', 'strncpy', 'strcpy', 'memcpy', 'memset', 'strcat', 'sprintf', 'strncat'):
                    ctx.bad('bounded', '%s/%s' % (api, base), ev.loc,
                            'the error buffer is written with %s, which does not leave a bounded terminated '
                            'copy of the message' % base)
        full = []
        wipes = []
        for i, (ev, text, n) in enumerate(copies):
            if not F.feasible(ev.node):
                continue
            inst = '%s#%d' % (api, i)
            whole = n.op == 'c' and 2 <= n.args[0] <= size
            start = offset(ev.args[0], gname)
            ctx.check('bounded', inst, whole and start == 0, ev.loc,
                      'the message is copied with the bound %s into a buffer of %d characters' % (show(n), size))
            if text.op == 'str':
                if e07lit(text):
                    full.append(ev)
                else:
                    wipes.append(ev)
            else:
                full.append(ev)
                st = status_of(text)
                good = st is not None and F.prove(NOT(isok(st)), ev.node)
                ctx.check('own', '%s/failed' % inst, good, ev.loc,
                          'the text copied is not the message of a status known to have failed here')
        for ev in F.events:
            if ev.kind == 'store' and ev.where is not None and \
                    any(x.op == 'glob' and x.args[0] == gname for x in walk(ev.where)) and not ev.frame.fn['n'] in cpn:
                wipes.append(ev)
        # every failing return passes a copy
        barrier = {ev.node for ev in full}
        starts = [(F.entry, 'entry')] + [(ev.node, 'after %s' % ev.loc) for ev in wipes]
        if api in FAIL:
            bad = FAIL[api]
            for k, (nd, what) in enumerate(starts):
                R = F.assume(nd, [], stop=barrier - {nd})
                badv = None
                if F.exit in R.nodes:
                    for v in R.returns():
                        if maybe_failing(F, v, bad, R.N.get(F.exit, frozenset())):
                            badv = v
                later = nd in barrier and any(x.node is nd and x.seq > ev2seq(starts, k, wipes) for x in full)
                ctx.check('left', '%s/%s' % (api, 'entry' if k == 0 else 'wipe%d' % k), badv is None or later,
                          f['loc'], '%s can return failure (%s) without leaving a message (%s)' % (
                              api, show(badv) if badv is not None else '', what))
            R = F.assume(F.entry, [])
            ctx.check('left', '%s/fails' % api, any(failing_value(F, v, bad, frozenset()) for v in R.returns()),
                      f['loc'], '%s never returns its documented failure value' % api)
        # a refused handle: the call does nothing else and leaves a message
        if api in ('ce_stt_process', 'ce_stt_end_of_stream'):
            for what, cond in handles(F):
                R = F.assume(F.entry, [cond], stop=barrier)
                ctx.check('left', '%s/%s' % (api, what), F.exit not in R.nodes, f['loc'],
                          '%s with a missing %s returns without leaving a message' % (api, what))
        # after a failed step the text is that step's
        for ev in F.events:
            if ev.kind != 'call' or not ev.e.get('f'):
                continue
            A = e01.Assumed(ctx, F, ev)
            if A.cond is None or not F.feasible(ev.node) or A.v is None:
                continue
            if A.cond[0].op != 'not' or A.cond[0].args[0].op != 'isok':
                continue
            R = F.assume(ev.node, A.cond)
            inst = '%s/%s#%d' % (api, e01.step_name(ctx, ev), e01.nth(F, ev))
            good, why, at = True, '', ev.loc
            n = 0
            for c, text, _ in copies:
                if c.node not in R.nodes and not (c.node is ev.node and c.seq > ev.seq):
                    continue
                st = status_of(text)
                vs = R.values(st) if st is not None else set()
                n += 1
                if not (vs and all(v is A.v for v in vs)):
                    good, at = False, c.loc
                    why = 'the text copied is %s, not the message of that failure' % (
                        show(text) if st is None else ', '.join(sorted(show(v) for v in vs)))
            if n == 0:
                good, why = False, 'no message is copied'
            ctx.check('own', inst, good, at, 'when %s fails in %s, %s' % (e01.step_name(ctx, ev), api, why))
    for f in cps:
        copy_rule(ctx, f)
    carrier(ctx)


def ev2seq(starts, k, wipes):
    return 0 if k == 0 else wipes[k - 1].seq


def e07lit(t):
    v = t.args[0]
    return v if isinstance(v, str) else (v or b'').decode('utf8', 'replace')


def offset(p, gname):
    """0 when p points at the start of the buffer"""
    if p.op == 'sum':
        return None
    return 0


def status_of(text):
    """S when text is the characters of S.what()"""
    t = text
    if t.op in ('m', 'fn') and t.args[0] in ('c_str', 'data'):
        t = t.args[1]
    for _ in range(3):
        if t.op == 'init':
            t = t.args[0]
        if t.op == 'deref':
            t = t.args[0]
        if t.op in ('m', 'fn') and t.args[0] == 'what':
            s = t.args[1]
            return s
        if t.op == 'addr':
            t = t.args[0]
    return None


def handles(F):
    u = F.paramval(0)
    out = [('utterance', eq(u, NULL))]
    it = T('init', fld(F.paramobj(0), 'internal'))
    out.append(('internal state', eq(it, NULL)))
    rc = T('init', fld(F.deref(it), 'recognizer'))
    out.append(('recogniser', eq(rc, NULL)))
    return out


def copy_rule(ctx, f):
    F = ctx.flow(f)
    dst, src, siz = F.paramval(0), F.paramval(1), F.paramval(2)
    nm = short(f)
    isdst = lambda l: l is not None and l.op == 'el' and l.args[0] is T('buf', dst)
    st = [e for e in F.events if e.kind == 'store' and isdst(e.where) and F.feasible(e.node)]
    bulk = [e for e in F.events if e.kind == 'call' and (e.name or '').split('::')[-1] in
            ('memcpy', 'memmove', 'strncpy', 'strcpy') and e.args and dst in walk(e.args[0])]
    other = [e for e in F.events if e.kind == 'call' and e not in bulk and any(
        isinstance(a, Term) and dst in walk(a) for a in e.args)]
    ctx.check('copy', nm + '/understood', not other, f['loc'], 'the destination is handed to another function')
    if not st and not bulk:
        ctx.bad('copy', nm + '/writes', f['loc'], 'nothing is written to the destination')
        return
    zero = []
    for i, e in enumerate(st):
        ix = e.where.args[1]
        ok = F.prove(lt(ix, siz, True), e.node) and F.prove(le(C(0), ix, True), e.node)
        ctx.check('copy', '%s/inside#%d' % (nm, i), ok, e.loc,
                  'a write at %s is not shown to stay below the given size' % show(ix))
        if e.val is C(0):
            zero.append(e)
            continue
        v = e.val
        good = False
        if v.op == 'init' and v.args[0].op == 'el' and v.args[0].args[0] is T('buf', src):
            j = v.args[0].args[1]
            good = j is ix or F.prove(eq(ix, j), e.node)
        ctx.check('copy', '%s/char#%d' % (nm, i), good, e.loc,
                  'the character stored at %s is not the source character at that position' % show(ix))
    for i, e in enumerate(bulk):
        n = e.args[2] if len(e.args) > 2 else None
        ok = n is not None and (F.prove(lt(n, siz, True), e.node)) and e.args[0] is dst and e.args[1] is src
        ctx.check('copy', '%s/bulk#%d' % (nm, i), ok, e.loc, 'a block copy is not bounded below the given size')
    # the last write on every path is a terminator
    writes = sorted(st + bulk, key=lambda e: e.seq)
    nodes = {e.node for e in writes}
    R = F.assume(F.entry, [NOT(eq(siz, C(0)))], stop=nodes)
    ctx.check('copy', nm + '/terminates', F.exit not in R.nodes, f['loc'],
              'with a non-zero size the destination can be left unterminated')
    for i, e in enumerate(writes):
        if e in zero:
            continue
        cond = [NOT(eq(e.val, C(0)))] if e in st else []
        if F.prove(NOT(eq(siz, C(0))), e.node):
            cond.append(NOT(eq(siz, C(0))))
        if any(x.node is e.node and x.seq > e.seq for x in writes):
            continue
        R = F.assume(e.node, cond, stop=nodes - {e.node})
        ctx.check('copy', '%s/terminated#%d' % (nm, i), F.exit not in R.nodes, e.loc,
                  'after this write the function can return without writing a terminator')
    # consecutive from 0
    for i, e in enumerate(st):
        ix = e.where.args[1]
        if e.val is C(0):
            continue
        s = F.steps(ix) if ix.op == 'phi' else None
        ctx.check('copy', '%s/consecutive#%d' % (nm, i), s is not None and s[0] is C(0) and
                  all(x is C(1) for x in s[1]), e.loc, 'characters are not copied consecutively from the first')


def carrier(ctx):
    prog = ctx.prog
    S = PK + 'Status::'
    # factories
    fac = [f for f in ctx.ours() if f['n'].startswith(S) and f.get('static') is not False and
           f['ret'].split('::')[-1] == 'Status' and f.get('pt') and not f.get('ctor') and 'operator' not in f['n']]
    if len(fac) < 3:
        raise AnalysisBroken('the error constructors of Status were not found')
    ctors = [f for f in ctx.ours() if f.get('ctor') and f['n'].startswith(S)]
    for f in fac:
        F = ctx.local(f, facts=False)
        ok = False
        for e in F.events:
            if e.kind == 'ctor' and e.name == S + 'Status' and len(e.args) == 2:
                c = e.args[0]
                ok = (c.op == 'c' and c.args[0] != 0) and F.paramobj(0) in walk(e.args[1]) or \
                    ok
        ctx.check('carrier', short(f), ok, f['loc'],
                  '%s does not build a status with a non-zero code and the given message' % short(f))
    for f in ctors:
        F = ctx.local(f, facts=False)
        if len(f.get('pt', [])) == 2:
            code = F.final(F.field('code_'))
            ctx.check('carrier', 'constructor/code', code is F.paramval(0), f['loc'],
                      'the status does not keep the code it is given')
            msg = F.final(F.field('message_'))
            arg = T('init', F.paramobj(1))
            ctx.check('carrier', 'constructor/message', everywhere(F, msg, arg), f['loc'],
                      'the status does not keep the message it is given')
        elif not f.get('pt'):
            ctx.check('carrier', 'constructor/ok', F.final(F.field('code_')) is C(0), f['loc'],
                      'a default status is not a success')
    for n, want in (('ok', None), ('what', None)):
        f = ctx.fn(S + n)
        F = ctx.local(f, facts=False)
        if n == 'ok':
            good = F.ret is eq(T('init', F.field('code_')), C(0))
        else:
            good = F.field('message_') in walk(F.ret) and F.ret.op in ('addr', 'init')
        ctx.check('carrier', n, good, f['loc'], 'Status::%s does not report the stored %s' % (
            n, 'code' if n == 'ok' else 'message'))


def everywhere(F, v, arg, seen=None):
    """arg is part of v on every path"""
    seen = set() if seen is None else seen
    if v in seen:
        return True
    seen.add(v)
    if v is arg or v is arg.args[0]:
        return True
    if v.op == 'phi' and v in F.phis:
        return all(everywhere(F, x, arg, seen) for x in F.phis[v].values())
    if v.op in ('cat', 'fn', 'm'):
        return any(isinstance(x, Term) and (x is arg or arg in walk(x)) for x in v.args)
    return arg in walk(v)
