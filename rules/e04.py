"""No exception other than out-of-memory leaves the C interface."""
from rules.common import *

CONV = ('stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold')
POS = {'substr': 0, 'replace': 0, 'erase': 0, 'insert': 0, 'compare': 0, 'copy': 1}
ALWAYS = ('std::function::operator()', 'std::optional::value', 'std::any_cast', 'std::get',
          'std::rethrow_exception', 'std::throw_with_nested', 'std::future::get', 'std::promise::set_value',
          'std::locale::locale', 'std::thread::thread', 'std::basic_ios::exceptions', 'std::use_facet')
SIZED = {'resize': 0, 'reserve': 0, 'assign': 0}


def lib_throws(e):
    """why this library call can throw on some input, or None"""
    n, f = e['n'], e['f']
    base = n.split('::')[-1]
    pt = f.get('pt') or []
    if not n.startswith('std::'):
        return None
    if base in CONV and n.count('::') <= 2:
        return 'it throws on text that is not a number in range'
    if base == 'at':
        return 'it throws when there is no such element'
    if n in ALWAYS or n.startswith('std::basic_regex') or n.startswith('std::filesystem') or \
            n.startswith('std::bitset::to_u'):
        return 'it throws on failure'
    return None


def positional(e):
    n, f = e['n'], e['f']
    base = n.split('::')[-1]
    pt = f.get('pt') or []
    return n.startswith('std::basic_string::') and base in POS and len(pt) > POS[base] and \
        pt[POS[base]] in ('unsigned long', 'size_type', 'std::size_t')


def within(F, ev, p):
    """the position is at most the size the string has there"""
    X = F.load(F.instate[ev.node], ev.obj) if ev.obj is not None else None
    if X is None:
        return False
    for n in ('size', 'length'):
        s = T('m', n, X)
        fs = F.facts(ev.node) | {le(C(0), s, True)}
        if F._prove(le(p, s, True), fs, 3, {}, ev.node):
            return True
    return False


def has_params(t):
    return any(x.op == 'init' for x in walk(t))


def run(ctx):
    ctx.rule('throwing', 'no library operation that throws on unexpected input is reachable from the C interface', 40)
    ctx.rule('throw', 'the only exception thrown by own code reachable from the C interface is out-of-memory', 1)
    ctx.rule('position', 'a string position handed to a throwing string operation was returned by a '
             'successful search of that string (or is zero)', 1)
    ctx.rule('length', 'every container or array length reachable from the C interface is proven '
             'non-negative, so that no length error is thrown', 10)
    reach = ctx.reach()
    api = ', '.join(API)
    for key, f in sorted(reach.items(), key=lambda kv: kv[1]['q']):
        if not f.get('ours'):
            continue
        bad = []
        for e in f['calls']:
            if 'f' not in e or ctx.prog.targets(e):
                continue
            why = lib_throws(e)
            if why:
                bad.append((e, why))
        ctx.check('throwing', f['q'][:120], not bad, bad[0][0].get('loc', '?') if bad else f['loc'],
                  '; '.join('%s calls %s: %s' % (short(f), e['n'], w) for e, w in bad[:3]))
        for b in f['blocks']:
            for e in b['elems']:
                if e['k'] == 'throw':
                    tt = e.get('tt') or ''
                    ctx.check('throw', '%s/%s' % (f['q'][:100], tt), tt in ('std::bad_alloc', 'std::bad_array_new_length'),
                              e.get('loc', '?'), '%s throws %s out of the C interface' % (short(f), tt or '(rethrow)'))
                if e['k'] == 'cast' and 'dynamic' in e.get('ck', '').lower() and not e.get('t', '').endswith('*'):
                    ctx.bad('throwing', f['q'][:100] + '/dynamic_cast', e.get('loc', '?'), 'throws std::bad_cast')
        pos = [e for e in f['calls'] if 'f' in e and e['k'] == 'call' and positional(e)]
        for k, e in enumerate(pos):
            i = POS[e['n'].split('::')[-1]]

            def goal(F, fr, e=e, i=i):
                for ev in F.events:
                    if ev.kind == 'call' and ev.frame is fr and ev.e is e:
                        if not F.feasible(ev.node):
                            continue
                        p = ev.args[i]
                        if p.op == 'c':
                            if p.args[0] != 0:
                                return False
                            continue
                        if within(F, ev, p):
                            continue
                        srch = [x for x in walk(p) if x.op == 'm' and x.args[0] in ('find', 'rfind')]
                        if not srch or F.prove(NOT(eq(p, C(-1))), ev.node) is not True and \
                                F.decide(NOT(eq(p, C(18446744073709551615))), F.facts(ev.node)) is not True:
                            return None if has_params(p) else False
                return True
            for root, ok in ctx.climb(f, goal):
                ctx.check('position', '%s/%s#%d' % (short(f), e['n'].split('::')[-1], k), ok, e.get('loc', '?'),
                          'position not proven to lie inside the string')
        lens = []
        for e in f['calls']:
            if 'f' not in e or ctx.prog.targets(e) or not e['n'].startswith('std::'):
                continue
            base = e['n'].split('::')[-1]
            pt = e['f'].get('pt') or []
            if (base in SIZED or e['k'] == 'ctor' and base in ('vector', 'basic_string', 'deque')) and pt and \
                    pt[0] in ('unsigned long', 'size_type', 'std::size_t'):
                lens.append(e)
        for b in f['blocks']:
            for e in b['elems']:
                if e['k'] == 'new' and e.get('array'):
                    lens.append(e)
        for k, e in enumerate(lens):
            def goal(F, fr, e=e):
                for ev in F.events:
                    if ev.frame is fr and ev.e is e and ev.kind in ('call', 'ctor', 'new'):
                        if not F.feasible(ev.node) or not ev.args:
                            continue
                        n = ev.args[0]
                        if n.op == 'c':
                            if n.args[0] < 0:
                                return False
                            continue
                        if not F.prove(le(C(0), n, True), ev.node):
                            return None if has_params(n) else False
                return True
            for root, ok in ctx.climb(f, goal):
                ctx.check('length', '%s#%d%s' % (short(f), k, '' if root is f else '<' + short(root)), ok,
                          e.get('loc', '?'), 'the length used here in %s is not proven non-negative' % f['q'])
