"""Configuration lookup is uniform."""
from rules.stream import *
from rules.cases import options
import models as M

CF, UT = PK + 'Configuration::', PK + 'util::'
INTS = ('GetInteger', 'GetIntegerOrElse')


def _text(c, i=0):
    v = c.vals[i]
    return c.load(v.args[0]) if v.op == 'addr' and v.args[0].op != 'el' else v


def _num(c):
    v = _text(c)
    if c.vals[1].op == 'addr':
        c.store(c.vals[1].args[0], T('fn', 'num', v))
    return T('fn', 'numok', v)


EX = {UT + 'Tolower': lambda c: T('fn', 'lower', _text(c)), UT + 'Trim': lambda c: T('fn', 'trim', _text(c)),
      UT + 'Split': lambda c: T('fn', 'split', _text(c), _text(c, 1)), UT + 'StringToLong': _num}


def run(ctx):
    ctx.rule('stored', 'each entry is filed under the lower-cased, trimmed text before the =, with the trimmed '
             'text after it; blank and comment lines alone are skipped, everything else is an error', 6)
    ctx.rule('lookup', 'the key is looked up in lower case; what was filed is returned exactly when it is found', 6)
    ctx.rule('missing', 'without the key the caller gets its default, or an error', 6)
    ctx.rule('path', 'a path starting with / is used as is, any other is put after the directory of the '
             'configuration file', 4)
    ctx.rule('number', 'an integer is the whole value read as a number that fits, or an error', 4)
    ctx.rule('text', 'trimming, lower-casing and splitting do just that to every text', 8)
    stored(ctx)
    for g in ('GetStringOrElse', 'GetPathOrElse', 'GetString', 'GetPath', 'GetInteger', 'GetIntegerOrElse'):
        lookup(ctx, g)
    number(ctx)
    trim(ctx)
    lower(ctx)
    split_(ctx)


def flow(ctx, f):
    return ctx.flow(f, extra=EX, stop=[UT + 'ReadableFile::ReadLine', UT + 'ReadableFile::Open', UT + 'Format'], key='f02')


# ------------------------------------------------------------------ reading
def peel(v, names):
    """what is left of v under the given functions, and which of them were there"""
    seen = set()
    while v.op == 'fn' and v.args[0] in names and len(v.args) == 2:
        seen.add(v.args[0])
        v = v.args[1]
    return v, seen


def piece(v):
    """(line, side): v is the part of the line before (0) or after (1) the ="""
    if v.op == 'ld' and v.args[1].op == 'c':
        s = v.args[0]
        if s.op == 'sel' and s.args[0].op == 'fn' and s.args[0].args[0] == 'split' and \
                s.args[0].args[2] in (T('str', '='),):
            return s.args[0].args[1], v.args[1].args[0]
    if v.op == 'm' and v.args[0] == 'substr':
        at = [x for x in walk(v) if x.op == 'm' and x.args[0] in ('find', 'find_first_of') and
              x.args[2] in (T('str', '='), C(61))]
        if at:
            if v.args[2] is C(0) and len(v.args) > 3 and v.args[3] is at[0]:
                return v.args[1], 0
            if v.args[2] is add(at[0], C(1)):
                return v.args[1], 1
    return None


def stored(ctx):
    f = ctx.fn(CF + 'Read')
    F = flow(ctx, f)
    tab = F.field('table_')
    ks = [e for e in F.events if e.kind == 'call' and last(e.name) == 'ReadLine']
    st = []
    for e in F.events:
        if e.kind == 'call' and e.obj is not None and last(e.name) == 'operator=' and keyed(e.obj, tab):
            st.append((e, keyed(e.obj, tab), e.args[0]))
        elif e.kind == 'call' and e.obj is not None and last(e.name) == 'operator=' and e.obj.op == 'fld' and \
                e.obj.args[1] == 'second' and any(x.op == 'mfind' for x in walk(e.obj)):
            st.append((e, [x for x in walk(e.obj) if x.op == 'mfind'][0].args[1], e.args[0]))
        elif e.kind == 'call' and e.obj is tab and last(e.name) in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
            if last(e.name) in ('emplace', 'insert_or_assign', 'try_emplace') and len(e.args) == 2:
                st.append((e, e.args[0], e.args[1]))
            elif e.args and e.args[0].op in ('make', 'pair') or e.args and e.args[0].op == 'fn' and 'pair' in str(e.args[0].args[0]):
                a = e.args[0].args[-2:]
                st.append((e, a[0], a[1]))
    if not ctx.check('stored', 'filed', bool(st) and bool(ks), f['loc'], 'no entry of the file is kept'):
        return
    k = ks[0]
    line = [T_ for T_ in [x for fs in F.E.values() for g in fs or () for x in walk(g)] if T_.op == 'out' and
            F.defnode.get(T_) is k.node and str(T_.args[-1]) == '0']
    for e, key, val in st:
        key, val = norm(F, key), norm(F, val)
        b, how = peel(key, ('lower', 'trim'))
        p = piece(b)
        ctx.check('stored', 'key', p is not None and p[1] == 0, e.loc, 'the key of an entry is not the text before the =')
        ctx.check('stored', 'key/case', 'lower' in how, e.loc, 'the key is not filed in lower case')
        ctx.check('stored', 'key/trim', 'trim' in how, e.loc, 'the spaces around the key are not removed')
        b, how = peel(val, ('trim',))
        q = piece(b)
        ctx.check('stored', 'value', q is not None and q[1] == 1, e.loc, 'the value of an entry is not the text after the =')
        ctx.check('stored', 'value/trim', 'trim' in how, e.loc, 'the spaces around the value are not removed')
        if p and q:
            l, _ = peel(p[0], ('trim',))
            ctx.check('stored', 'line', l.op == 'out' and F.defnode.get(l) is k.node and p[0] is q[0], e.loc,
                      'the entry is not made of the line read')
    sn = {e.node for e, _, _ in st}
    # which lines are entries
    lines = {x for fs in F.E.values() for g in fs or () for x in walk(g)
             if peel(x, ('trim',))[0].op == 'out' and F.defnode.get(peel(x, ('trim',))[0]) is k.node}
    tests = {x for fs in F.E.values() for g in fs or () for x in walk(g)
             if x.op == 'ld' and x.args[1] is C(0) and x.args[0] in lines}
    got = truth(k.val)
    empty = [eq(M.strsize(x), C(0)) for x in lines if x.op == 'fn']
    hashes = [eq(x, C(35)) for x in tests]
    R = F.assume(k.node, [got] + [NOT(g) for g in empty + hashes], stop=sn)
    bad = back_to(R, k) or (F.exit in R.nodes and [v for v in R.accepts() if v.op != 'void'] and
                            ended(F, R, k))
    ctx.check('stored', 'every', not bad, k.loc, 'a line of the file may be passed over although it is neither blank nor a comment')
    for what, gs in (('blank', empty), ('comment', hashes)):
        for g in gs[:4]:
            R = F.assume(k.node, [got, g] + ([NOT(x) for x in empty] if what == 'comment' else []), stop={k.node} - {k.node})
            R = F.assume(k.node, [got, g] + ([NOT(x) for x in empty] if what == 'comment' else []))
            one = until(F, k, [got, g] + ([NOT(x) for x in empty] if what == 'comment' else []))
            ok = not (sn & one.nodes) and not any(v.op == 'fail' for v in one.returns())
            ctx.check('stored', what, ok, k.loc, 'a %s line is not skipped' % what)
        ctx.check('stored', what + '/known', bool(gs), k.loc, '%s lines are not recognised' % what)
    fn = F.field('filename_')
    ev = [e for e in F.events if (e.kind == 'call' and e.obj is fn and last(e.name) in ('operator=', 'assign') or
                                  e.kind == 'store' and e.where is fn)]
    val = [e for e in ev if (e.args[0] if e.kind == 'call' else e.val) is T('init', F.deref(F.paramval(0)))]
    R = F.assume(F.entry, [], stop={e.node for e in val})
    acc = F.exit in R.nodes and [v for v in R.accepts()]
    ctx.check('stored', 'where', bool(val) and len(val) == len(ev) and not acc, f['loc'],
              'the name of the configuration file is not remembered')


def keyed(loc, tab):
    if loc.op == 'el' and loc.args[0].op == 'fld' and loc.args[0].args[0] is tab:
        i = loc.args[1]
        return i.args[0] if i.op == 'key' else i
    return None


def until(F, k, given):
    """one round: up to the next line, or to the end of the file"""
    stop = {e.node for e in F.events if e.kind == 'call' and last(e.name) in ('feof', 'Eof')} | {k.node}
    return F.assume(k.node, given, stop=stop - {k.node})


def back_to(R, k):
    return any((a, i) in R.edges and t is k.node for a in R.nodes for i, (t, *_) in enumerate(a.succs))


def ended(F, R, k):
    """a success is returned without the end of the file having been seen"""
    ends = {e.node for e in F.events if e.kind == 'call' and last(e.name) in ('feof', 'Eof')} - {k.node}
    return not (R.nodes & ends) if ends else True


# ------------------------------------------------------------------ lookups
def finds(F):
    return {x for fs in F.E.values() for g in fs or () for x in walk(g) if x.op == 'mfind'}


def lookup(ctx, g):
    f = ctx.fn(CF + g)
    F = flow(ctx, f)
    key = T('init', F.deref(F.paramval(0)))
    want = T('fn', 'lower', key)
    fs_ = finds(F) | {x for v in [F.ret] + [y for p in F.phis.values() for y in p.values()] for x in walk(v) if x.op == 'mfind'}
    ats = [e for e in F.events if e.kind == 'call' and e.obj is not None and last(e.name) in
           ('find', 'at', 'count', 'operator[]', 'contains') and e.obj.op == 'fld' and e.obj.args[1] == 'table_']
    ctx.check('lookup', g + '/key', bool(ats) and all(e.args and norm(F, e.args[0]) is want for e in ats), f['loc'],
              '%s does not look the key up in lower case' % g)
    if not fs_:
        ctx.check('lookup', g, False, f['loc'], '%s finds nothing' % g)
        return
    m = sorted(fs_, key=show)[0]
    found = found_value(F, m)
    outp = None if g.endswith('Else') else F.final(F.deref(F.paramval(1)))
    dflt = None
    if g.endswith('Else'):
        p = F.paramval(1)
        dflt = p if g in INTS else T('init', F.deref(p))
    if g in INTS:
        return integer(ctx, g, f, F, m, found, outp, dflt)
    cs = cases(F, (F.ret,) + ((outp,) if outp is not None else ()), F.exit, limit=512, full=True)
    if not ctx.check('lookup', g + '/cases', bool(cs), f['loc'], 'the outcome of %s is too involved' % g):
        return
    ok, miss, err, bad = False, False, None, None
    for t, fs in cs:
        absent = missing(F, m, fs)
        if g.endswith('Else'):
            v = t[0]
            if v is dflt:
                miss = True
                if absent is not True:
                    bad = 'the default is returned although the key may be there'
            else:
                if absent is not False:
                    bad = 'the default is not returned although the key is missing'
                ok |= fits(ctx, g, F, v, found, fs)
                if not fits(ctx, g, F, v, found, fs):
                    err = v
        else:
            if t[0].op == 'ok' or F.decide(isok(t[0]), fs) is True:
                if absent is not False:
                    bad = 'a missing key is no error'
                ok |= fits(ctx, g, F, t[1], found, fs)
                if not fits(ctx, g, F, t[1], found, fs):
                    err = t[1]
            else:
                miss = True
                if absent is not True:
                    bad = 'it fails although the key is there'
                if t[0].op not in ('fail',) and F.decide(isok(t[0]), fs) is not False:
                    bad = 'a missing key is no error'
    if 'Path' in g:
        path(ctx, g, f, F, found, outp, dflt)
    ctx.check('missing', g, bad is None and miss, f['loc'], '%s: %s' % (g, bad or 'a missing key goes unnoticed'))
    ctx.check('lookup', g + '/value', ok and err is None, f['loc'], '%s gives %s' % (
        g, show(err)[:80] if err is not None else 'no value'))


def found_value(F, m):
    vals = set()
    src = [F.ret] + [y for p in F.phis.values() for y in p.values()] + [g for fs in F.E.values() for g in fs or ()]
    for e in F.events:
        src += [x for x in list(e.args or ()) + [e.val] if x is not None]
    for v in src:
        for x in walk(v):
            if x.op == 'init' and x.args[0].op == 'fld' and x.args[0].args[1] == 'second' and m in walk(x):
                vals.add(x)
            elif x.op == 'init' and keyed(x.args[0], F.field('table_')) is m.args[1]:
                vals.add(x)
    return sorted(vals, key=show)[0] if vals else None


def missing(F, m, fs):
    """True: the key is known to be missing; False: known to be there"""
    for g in fs:
        n = g.op == 'not'
        h = g.args[0] if n else g
        if h.op == 'eq0' or True:
            xs = set(walk(h))
            if m in xs and any(x.op == 'mend' for x in xs) and h.op != 'ite' and len([x for x in xs if x.op == 'mfind']) == 1 \
                    and not any(x.op == 'init' for x in h.args if hasattr(x, 'op')):
                if not n:
                    return True
                return False
    for g in fs:
        # the marker for a missing value
        if g.op != 'not' and any(x.op == 'init' and x.args[0].op == 'glob' for x in walk(g)) and g.op == 'eq0':
            return True
        if g.op == 'eq' and any(x.op == 'init' and x.args[0].op == 'glob' for x in g.args):
            return True
    return None


def fits(ctx, g, F, v, found, fs):
    if 'Path' in g:
        return v is found or v.op == 'cat' and v.args[-1] is found
    return v is found


def integer(ctx, g, f, F, m, found, outp, dflt):
    ks = [e for e in F.events if e.kind == 'call' and last(e.name) == 'StringToLong']
    if not ctx.check('lookup', g + '/number', len(ks) == 1, f['loc'], '%s does not read the value as a number' % g):
        return
    k = ks[0]

    def refused(R):
        if dflt is not None:
            vs = R.returns()
            return bool(vs) and all(v is dflt for v in vs)
        return F.exit in R.nodes and not R.accepts()

    cs = cases(F, (k.args[0],), k.node, limit=512, full=True) or []
    ctx.check('lookup', g + '/value', bool(cs) and all(t[0] is found for t, fs in cs), k.loc, '%s reads something else than the value found' % g)
    ctx.check('missing', g, bool(cs) and all(missing(F, m, fs) is False for t, fs in cs) and
              refused(F.assume(F.entry, [], stop={k.node})), f['loc'], '%s: a missing key goes unnoticed' % g)
    a = k.args[0]
    num, good = T('fn', 'num', a), isok(T('fn', 'numok', a))
    low, high = lt(num, C(-2147483648), True), lt(C(2147483647), num, True)
    for what, given in (('not-a-number', [NOT(good)]), ('too-small', [good, low]), ('too-large', [good, high])):
        ctx.check('number', '%s/%s' % (g, what), refused(F.assume(k.node, given)), k.loc, '%s: a value that is %s is used' % (
            g, what.replace('-', ' ')))
    R = F.assume(k.node, [good, NOT(low), NOT(high)])
    cs = cases(F, (F.ret,) + ((outp,) if outp is not None else ()), F.exit, R=R, limit=512, full=True) or []
    ok = bool(cs)
    for t, fs in cs:
        v = t[-1]
        ok &= v is num or v is T('fn', 'num', found)
        if outp is not None:
            ok &= t[0].op == 'ok' or F.decide(isok(t[0]), fs) is True
    ctx.check('number', g + '/exact', ok, k.loc, '%s does not give the number written' % g)


def path(ctx, g, f, F, found, outp, dflt):
    """what is made of the value, by whether it starts with / and whether the file's name has a directory"""
    terms = {x for fs in F.E.values() for h in fs or () for x in walk(h)}
    def may(x):
        return x is found or x.op in ('phi', 'ite') and any(v is found for v, _ in options(F, x))
    first = [x for x in terms if x.op == 'ld' and may(x.args[0]) and x.args[1] is C(0)] + \
            [x for x in terms if x.op == 'init' and x.args[0].op == 'el' and x.args[0].args[0] is found.args[0] and
             x.args[0].args[1] is C(0)]
    first += [x for x in terms if x.op == 'init' and x.args[0].op == 'el' and x.args[0].args[1] is C(0) and
              any(y.op == 'm' and y.args[0] in ('c_str', 'data') and may(y.args[1]) for y in walk(x.args[0].args[0]))]
    # other ways to ask whether it starts with /
    starts = []
    for h in terms:
        for x, of in ((h.args[0], C(0)) if h.op == 'eq0' else (None, None), *((h.args, h.args[::-1]) if h.op == 'eq' else ())):
            if x is None or x.op != 'm' or len(x.args) < 2 or not may(x.args[1]):
                continue
            n, a, char = x.args[0], x.args[2:], (C(47), T('str', '/'))
            if h.op == 'eq0' and (n == 'compare' and a == (C(0), C(1), char[1]) or n == 'find' and a[:1] and a[0] in char and a[1:] in ((), (C(0),)) or
                                  n == 'rfind' and len(a) == 2 and a[0] in char and a[1] is C(0)) or \
                    h.op == 'eq' and n == 'substr' and a == (C(0), C(1)) and of is char[1]:
                starts.append(h)
    fn = T('init', F.field('filename_'))
    slash = sorted({x for v in list(terms) + list(walk(F.ret)) + [y for p in F.phis.values() for v in p.values() for y in walk(v)]
                    for x in [v] if x.op == 'm' and
                    x.args[0] in ('rfind', 'find_last_of') and x.args[1] is fn and x.args[2] in (C(47), T('str', '/'))}, key=show)
    if not ctx.check('path', g + '/looks', bool(first or starts), f['loc'], '%s does not look whether the path is absolute' % g):
        return
    if not ctx.check('path', g + '/dir', bool(slash), f['loc'], '%s does not look for the directory of the configuration file' % g):
        return
    s = slash[0]
    none = [lt(s, C(0), True)]
    for h in terms | {h.args[0] if h.op == 'not' else h for fs in F.E.values() for h in fs or ()}:
        if h.op not in ('ite', 'not') and s in walk(h) and isprop(h) and not any(may(x) for x in walk(h)) and \
                any(x.op == 'init' and 'npos' in show(x) for x in walk(subst(h, {s: C(0)}))):
            none.append(h)
    none += [h for h in sorted({eq(s, x) for y in terms for x in walk(y) if x.op == 'init' and 'npos' in show(x)}, key=show)
             if h not in none]
    d = defnode(F, T('tuple', found, *first, *starts))
    absolute = [eq(x, C(47)) for x in first] + starts
    filled = [NOT(eq(x, C(0))) for x in sorted((x for x in terms if x.op == 'm' and x.args[0] == 'size' and may(x.args[1])), key=show)]
    for what, given in (('absolute', absolute + filled), ('relative', [NOT(x) for x in absolute] + [NOT(h) for h in none]),
                        ('no-directory', [NOT(x) for x in absolute] + none)):
        R = F.assume(d, given)
        cs = cases(F, (F.ret,) + ((outp,) if outp is not None else ()), F.exit, R=R, limit=512, full=True) or []
        ok, seen = True, False
        for t, fs in cs:
            v = t[-1]
            if outp is not None and t[0].op != 'ok' and F.decide(isok(t[0]), fs) is not True or dflt is not None and v is dflt:
                continue
            seen = True
            v = settled(F, v, fs)
            whole = v.op == 'cat' and may(v.args[-1]) and (
                len(v.args) == 2 and directory(F, v.args[0], fn, add(s, C(1))) or
                len(v.args) == 3 and v.args[1] in (T('str', '/'), C(47)) and directory(F, v.args[0], fn, s))
            ok &= bool(may(v) if what == 'absolute' else whole if what == 'relative' else may(v) or (whole and len(v.args) == 2))
        ctx.check('path', '%s/%s' % (g, what), ok and seen, f['loc'], '%s: %s' % (g, {
            'absolute': 'an absolute path is not used as is',
            'relative': 'a relative path is not resolved against the directory of the configuration file',
            'no-directory': 'a relative path is not used as is although the configuration file has no directory'}[what]))


def isprop(h):
    return h.op in ('eq', 'eq0', 'lt', 'lt0', 'le', 'le0') or h.op not in ('sum', 'm', 'init', 'fn', 'ld', 'cat', 'c', 'str')


def settled(F, v, fs):
    """v with the choices that fs decides made"""
    for _ in range(8):
        m = {}
        for x in walk(v):
            if x.op == 'ite':
                c = F.decide(x.args[0], fs)
                if c is not None:
                    m[x] = x.args[1 if c else 2]
        if not m:
            break
        v = subst(v, m)
    return v


def defnode(F, v):
    best = F.entry
    for d in F.defnodes(v):
        if F.dominates(best, d):
            best = d
    return best


def directory(F, d, fn, end):
    if d.op == 'm' and d.args[0] == 'substr':
        return d.args[1] is fn and d.args[2] is C(0) and d.args[3] is end
    if d.op == 'fn' and d.args[0] == 'string' and len(d.args) >= 3:
        loc = fn.args[0]
        base = addr(el(loc, C(0)))
        if d.args[1] is base:
            return sub(d.args[2], base) is end
        return d.args[1] is fn and d.args[2] is C(0) and d.args[3] is end if len(d.args) > 3 else False
    return False


# ------------------------------------------------------------------ texts
def number(ctx):
    f = ctx.fn(UT + 'StringToLong')
    F = ctx.flow(f, extra=EX, stop=[UT + 'Format'], key='f02')
    s = T('init', F.deref(F.paramval(0)))
    out = F.final(F.deref(F.paramval(1)))
    ks = [e for e in F.events if e.kind == 'call' and last(e.name) in ('strtol', 'strtoll')]
    if not ctx.check('number', 'parsed', len(ks) == 1, f['loc'], 'the number is not read with strtol'):
        return
    k = ks[0]
    t = k.args[0]
    txt = peel(t.args[1], ('trim',))[0] if t.op == 'm' and t.args[0] in ('c_str', 'data') else None
    ctx.check('number', 'text', txt is s, k.loc, 'the number is not read from the text given')
    ctx.check('number', 'base', k.args[2] in (C(0), C(10)), k.loc, 'numbers are not read as decimal')
    end = k.args[1].args[0] if k.args[1].op == 'addr' else None
    ctx.check('number', 'value', end is not None and all(v is k.val or v.op == 'init' for v in [out]), k.loc,
              'what is returned is not the number read')
    ends = {x for fs in F.E.values() for g in fs or () for x in walk(g) if x.op in ('ld', 'init', 'out') and x is not s and
            F.defnode.get(x) is not F.entry and any(y.op == 'out' and F.defnode.get(y) is k.node for y in walk(x))}
    ends = {x for x in ends if x.op in ('ld', 'init')}
    ok = False
    for x in ends:
        R = F.assume(k.node, [NOT(eq(x, C(0)))])
        if all(v.op == 'fail' or F.decide(isok(v), R.N.get(F.exit, frozenset())) is False for v in R.returns()):
            ok = True
    ctx.check('number', 'whole', ok, k.loc, 'text after the number goes unnoticed')
    texts = {peel(y, ())[0] for fs in F.E.values() for g in fs or () for y in walk(g) if y is s or y is T('fn', 'trim', s)}
    ok = False
    for x in texts:
        R = F.assume(F.entry, [eq(M.strsize(x), C(0))])
        if all(v.op == 'fail' for v in R.returns()):
            ok = True
    # strtol of an empty text converts nothing: end == begin
    for x in {y for fs in F.E.values() for g in fs or () for y in walk(g) if y.op == 'out'}:
        R = F.assume(k.node, [eq(x, t)])
        if R.returns() and all(v.op == 'fail' for v in R.returns()):
            ok = True
    ctx.check('number', 'some', ok, k.loc, 'an empty text is taken for a number')
    R = F.assume(k.node, [eq(x, C(0)) for x in ends] + [NOT(eq(M.strsize(x), C(0))) for x in texts])
    ctx.check('number', 'accepted', bool(R.returns()) and not any(v.op == 'fail' for v in R.returns()), k.loc,
              'a number is refused')


def whole_range(F, v):
    """(lower, upper): the part of the parameter text v consists of, as offsets"""
    base = addr(el(F.deref(F.paramval(0)), C(0)))
    s = T('init', F.deref(F.paramval(0)))
    if v.op == 'fn' and v.args[0] == 'string' and len(v.args) == 3:
        return sub(v.args[1], base), sub(v.args[2], base)
    if v.op == 'm' and v.args[0] == 'substr' and v.args[1] is s:
        lo = v.args[2]
        return lo, add(lo, v.args[3]) if len(v.args) > 3 and v.args[3].op not in ('fresh', 'init') else M.strsize(s)
    if v is s:
        return C(0), M.strsize(s)
    return None


def trim(ctx):
    f = ctx.fn(UT + 'Trim')
    F = ctx.flow(f, key='f02')
    s = T('init', F.deref(F.paramval(0)))
    n = M.strsize(s)
    ok = True
    cs = cases(F, (F.ret,), F.exit) or []
    why, got = '', False
    for (v,), fs in cs:
        v = norm(F, v)
        if v.op == 'str' and v.args[0] == '':
            got |= blank(F, fs, s)
            if not blank(F, fs, s):
                why = 'a text may be lost'
            continue
        r = whole_range(F, v)
        if r is None:
            why = 'the result is %s' % show(v)[:60]
            continue
        lo, hi = r
        a = skipping(F, lo, s, C(0), 1)
        b = skipping(F, hi, s, n, -1)
        if not a:
            why = 'not all the space before the text is removed, or more than that'
        elif not b:
            why = 'not all the space after the text is removed, or more than that'
    ctx.check('text', 'Trim', bool(cs) and not why, f['loc'], 'Trim: ' + why)
    ctx.check('text', 'Trim/space', spaces(ctx, F), f['loc'], 'Trim: what counts as a space is not every blank')


def spaces(ctx, F):
    for e in F.events:
        if e.kind == 'call' and last(e.name) in ('isspace',):
            return True
        if e.kind == 'call' and last(e.name) in ('find_first_not_of', 'find_last_not_of'):
            a = e.args[0]
            if a.op == 'str' and set(' \t\r\n') <= set(a.args[0]) <= set(' \t\r\n\v\f'):
                return True
    return False


def blank(F, fs, s):
    return any(x.op == 'm' and x.args[0] in ('find_first_not_of', 'find_last_not_of') for g in fs for x in walk(g)) or \
        F.decide(eq(M.strsize(s), C(0)), fs) is True


def skipping(F, x, s, start, step):
    """x is where the text without its surrounding blanks starts (step 1) or ends (step -1)"""
    d = {1: 'find_first_not_of', -1: 'find_last_not_of'}[step]
    for y in walk(x):
        if y.op == 'm' and y.args[0] == d and y.args[1] is s:
            return x is (y if step == 1 else add(y, C(1)))
    r = loops.header_phi(F, x)
    if r is None:
        return False
    p = r[0]
    st = F.steps(p)
    H = F.defnode[p]
    if not st or set(st[1]) != {C(step)}:
        return False
    # x = p + k; the character looked at is the one at x (or the one before it, from the end)
    k = sub(x, p)
    if k.op != 'c' or add(st[0], k) is not start:
        return False
    at = x if step == 1 else sub(x, C(1))
    cond = [y for fs in F.E.values() for g in fs or () for y in walk(g) if y.op == 'fn' and y.args[0] in ('isspace', 'std::isspace')]
    mine = [y for y in cond if char_at(F, y.args[1], s) is not None and char_at(F, y.args[1], s) is at]
    if not mine:
        return False
    y = mine[0]
    R = F.assume(H, [eq(y, C(0))], stop={H})
    if any(e in R.edges for e in loops.latches(F, H)):
        return False
    # a blank is always skipped, unless nothing is left
    n = M.strsize(s)
    others = [z for z in others_(F, s, p)]
    room = [lt(C(0), n, True)] + ([lt(x, n, True)] if step == 1 else others)
    R = F.assume(H, [NOT(eq(y, C(0)))] + room, stop={H})
    return not any(e in R.edges for e in loops.exits(F, H))


def others_(F, s, p):
    """looking backwards stops at where looking forwards stopped"""
    out = []
    for q in F.phis:
        if q is not p:
            st = F.steps(q)
            if st and set(st[1]) == {C(1)} and st[0] is C(0):
                out.append(lt(q, p, True))
    return out or [lt(C(0), p, True)]


def char_at(F, v, s):
    if v.op == 'init' and v.args[0].op == 'el' and v.args[0].args[0] is s.args[0]:
        return v.args[0].args[1]
    if v.op == 'ld' and v.args[0] is s:
        return v.args[1]
    return None


def lower(ctx):
    f = ctx.fn(UT + 'Tolower')
    F = ctx.flow(f, key='f02')
    s = T('init', F.deref(F.paramval(0)))
    n = M.strsize(s)
    why = 'it does not lower the case of each character of the text'
    for e in F.events:
        if e.kind == 'call' and e.name == 'std::transform' and len(e.args) == 4:
            a, b, c, fn = e.args
            r = F.ret
            if ('tolower' in show(fn) or lambda_lowers(ctx, fn)) and must_entry(F, [], [e]) and r is not None and \
                    r.op == 'alg' and r.args[0] == 'std::transform':
                # in place over a copy of the whole text, or from the text to a place of that size
                v = r.args[1]
                ln = sub(b, a)
                lo = [y for y in walk(a) if y.op == 'addr']
                if len(lo) == 1 and a is lo[0] and lo[0].args[0].op == 'el' and lo[0].args[0].args[1] is C(0) and \
                        (lo[0].args[0].args[0] is s.args[0] and ln is n or
                         c is a and copy_of_text(F, v, s) and ln is M.strsize(v)):
                    why = ''
    if why:
        # by hand: every index of the text once
        for e in F.events:
            if e.kind == 'call' and last(e.name) == 'tolower':
                hs = loops.rounds(F, e.node)
                if hs:
                    for p in idx_phis(F, hs[0]):
                        st = F.steps(p)
                        put = [x for x in F.events if x.kind == 'store' and x.where is not None and x.where.op == 'el' and
                               x.where.args[1] is p and x.val is not None and e.val in walk(x.val) and
                               F.dominates(e.node, x.node)]
                        if not put or st[0] is not C(0) or e.args[0].op not in ('ld', 'init') or \
                                (e.args[0].args[1] if e.args[0].op == 'ld' else e.args[0].args[0].args[-1]) is not p:
                            continue
                        lens = [n] + [M.strsize(P) for P in F.at(hs[0]) if F.ret is P and all(
                            copy_of_text(F, v, s) for k, v in F.phis[P].items() if k not in loops.latches(F, hs[0]))]
                        if any(not loops.covers(F, e.node, p, C(0), m, lambda k: aborts(F, k)) for m in lens):
                            why = ''
    ctx.check('text', 'Tolower', not why, f['loc'], 'Tolower: ' + why)


def lambda_lowers(ctx, fn):
    for x in walk(fn):
        if x.op in ('lambda', 'closure', 'func'):
            for g in ctx.prog.functions.values():
                if g['n'] == x.args[0] or g.get('key') == x.args[0]:
                    return any(last(e.get('n')) == 'tolower' for e in g['calls'])
    return False


def copy_of_text(F, v, s):
    base = addr(el(s.args[0], C(0)))
    return v is s or v.op == 'fn' and v.args[0] == 'string' and len(v.args) == 3 and v.args[1] is base and \
        v.args[2] is add(base, M.strsize(s)) or v.op == 'init' and v is s


def split_(ctx):
    f = ctx.fn(UT + 'Split')
    F = ctx.flow(f, key='f02')
    s, dl = T('init', F.deref(F.paramval(0))), T('init', F.deref(F.paramval(1)))
    n = M.strsize(s)
    base = addr(el(s.args[0], C(0)))
    ev = [e for e in F.events if e.kind == 'call' and last(e.name) in ADDS and e.obj is not None]
    inner, tail = [], []
    for e in ev:
        a = e.args
        if len(a) == 2:
            lo, hi = sub(a[0], base), sub(a[1], base)
        elif len(a) == 1 and whole_range(F, a[0]):
            lo, hi = whole_range(F, a[0])
        else:
            lo = hi = None
        (inner if loops.rounds(F, e.node) else tail).append((e, lo, hi))
    ok = len(inner) == 1 and len(tail) == 1
    if not ctx.check('text', 'Split', ok, f['loc'], 'Split: the pieces are not those between the separators'):
        return
    e, lo, hi = inner[0]
    fd = T('m', 'find', s, dl, lo) if lo is not None else None
    ctx.check('text', 'Split/piece', hi is not None and hi is fd, e.loc, 'Split: a piece does not end at the next separator')
    H = loops.rounds(F, e.node)[0]
    if lo is not None and lo.op == 'phi' and lo in F.phis:
        ini = [v for k, v in F.phis[lo].items() if k not in loops.latches(F, H)]
        nxt = [v for k, v in F.phis[lo].items() if k in loops.latches(F, H)]
        ctx.check('text', 'Split/start', ini == [C(0)] and F.defnode[lo] is H, e.loc, 'Split: the first piece does not start at the beginning')
        ctx.check('text', 'Split/next', bool(nxt) and all(v is add(hi, M.strsize(dl)) for v in nxt), e.loc,
                  'Split: the next piece does not start after the separator')
        ex = [k for k in loops.exits(F, H)]
        np = [x for k in ex for g in F.E[k] for x in walk(g) if 'npos' in show(x) and x.op == 'init']
        R = F.assume(H, [NOT(eq(hi, np[0]))] if np else [le(C(0), hi, True)], stop={H})
        ctx.check('text', 'Split/all', not any(k in R.edges for k in ex), e.loc, 'Split: pieces may be left out')
        R = F.assume(H, [eq(hi, np[0])] if np else [lt(hi, C(0), True)], stop={H})
        ctx.check('text', 'Split/only', not (e.node in R.nodes and e.node is not H), e.loc, 'Split: a piece without an end is taken')
        t, tlo, thi = tail[0]
        ctx.check('text', 'Split/last', tlo is lo and thi is n, t.loc, 'Split: the last piece does not reach from the last separator to the end')
        R = F.assume(H, [lt(lo, n, True)] + ([eq(hi, np[0])] if np else [lt(hi, C(0), True)]), stop={t.node})
        ctx.check('text', 'Split/last/kept', F.exit not in R.nodes, t.loc, 'Split: the last piece may be lost')
    else:
        ctx.check('text', 'Split/start', False, e.loc, 'Split: where a piece starts is unclear')
