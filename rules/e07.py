"""Diagnostics: placeholders and values agree."""
import re
from rules.common import *

PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'vsnprintf': 2}
SPEC = re.compile(r'%(%|[-+ #0]*(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcspn]))')


def literal(t):
    return t.args[0] if t is not None and t.op == 'str' else None


def strip(s):
    return s if s is None or isinstance(s, str) else s.decode('utf8', 'replace')


def conv_ok(conv, ty):
    ty = ty.replace('const', '').strip()
    ptr = ty.endswith('*') or ty.endswith(']')
    flt = ty in ('float', 'double', 'long double')
    if conv == 's':
        return ptr and 'char' in ty
    if conv in 'diouxXc':
        return not ptr and not flt and '::' not in ty
    if conv in 'eEfFgGaA':
        return flt
    if conv == 'p':
        return ptr
    return False


def run(ctx):
    ctx.rule('template', 'every message template is a constant with exactly one {} per value passed with it', 25)
    ctx.rule('printf', 'every printf-style call has a constant format whose conversions match the number and '
             'kind of its arguments', 3)
    ctx.rule('text', 'a value put into a message is formatted as itself: no pointer is printed as a number in '
             'place of the text it points to', 2)
    for f in sorted(ctx.ours(), key=lambda f: f['q']):
        names = [e['n'] for e in f['calls'] if 'f' in e]
        if any(n == PK + 'util::Format' for n in names):
            k = 0
            for e in [e for e in f['calls'] if 'f' in e and e['n'] == PK + 'util::Format']:
                k += 1

                def goal(F, fr, e=e):
                    r = None
                    for ev in F.events:
                        if ev.kind == 'call' and ev.frame is fr and ev.e is e:
                            lit = strip(literal(ev.args[0]))
                            if lit is None:
                                return None
                            ok = lit.count('{}') == len(ev.args) - 1
                            r = ok if r is None else (r and ok)
                    return True if r is None else r
                for root, ok in ctx.climb(f, goal):
                    ctx.check('template', '%s#%d%s' % (short(f), k, '' if root is f else '<' + short(root)),
                              ok, e.get('loc', '?'),
                              'the message built in %s does not have one placeholder per value (or is not '
                              'a constant)' % f['q'])
        for e in f['calls']:
            if 'f' not in e or e['n'] not in PRINTF:
                continue
            i = PRINTF[e['n']]
            F = ctx.local(f, facts=False)
            for ev in F.events:
                if ev.kind == 'call' and ev.e is e:
                    lit = strip(literal(ev.args[i]))
                    ok, why = False, 'the format is not a constant'
                    if lit is not None:
                        convs = [m.group(6) for m in SPEC.finditer(lit) if m.group(1) != '%']
                        n = len(ev.args) - i - 1
                        ok = len(convs) == n
                        why = '%d conversions for %d values' % (len(convs), n)
                        if ok:
                            for c, a in zip(convs, e['args'][i + 1:]):
                                ty = f['emap'][a].get('t', '') if a in f['emap'] else ''
                                if ty and not conv_ok(c, ty):
                                    ok, why = False, '%%%s given a %s' % (c, ty)
                    ctx.check('printf', '%s/%s' % (short(f), lit), ok, ev.loc, why)
        # which ToString a value goes through
        for e in f['calls']:
            if 'f' in e and e['n'] == PK + 'util::ToString':
                pt = (e['f'].get('pt') or ['?'])[0]
                p = pt.replace('const', '').replace(' ', '').rstrip('&')
                isptr = p.endswith('*')
                ts = ctx.prog.targets(e)
                asnum = any(any(g.get('k') == 'cast' and 'PointerToIntegral' in g.get('ck', '')
                                for b in t['blocks'] for g in b['elems']) for t in ts)
                ctx.check('text', '%s/%s' % (short(f), pt), not (isptr and asnum),
                          e.get('loc', '?'), 'a %s is printed as an address' % pt)
