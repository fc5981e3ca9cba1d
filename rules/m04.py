"""Indexing stays inside vectors and matrices."""
import os, re
from program import REPO, SRC
from rules.common import *
from rules.cases import *
from rules import loops

VECTOR = ('VectorBase', 'Vector', 'SubVector')
MATRIX = ('MatrixBase', 'Matrix', 'SubMatrix')
SIZE = {'float': 4, 'double': 8, 'int': 4, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'long': 8}
OWN = {'V': ('data_', 'dim_'), 'M': ('data_', 'num_rows_', 'num_cols_', 'stride_')}


def run(ctx):
    ctx.rule('element', 'an element is only accessed when its index lies inside the bounds on both sides, and at the address '
             'of exactly that row and column', 10)
    ctx.rule('row', 'a row is only made for an index inside the matrix, and covers exactly that row', 6)
    ctx.rule('range', 'a sub-range is only made when it lies inside on both sides, and covers exactly the elements named', 6)
    ctx.rule('owned', 'the recorded size never exceeds the memory held', 20)
    ctx.rule('inside', 'every direct access to the memory of a vector or matrix stays inside it', 40)
    ctx.rule('width', 'addresses and sizes are computed without losing high bits', 20)
    ctx.rule('whole', 'operations on all elements treat each of them, once, and nothing else', 60)
    ctx.rule('product', 'a product is only computed of matrices that fit, with their own sizes', 1)
    ctx.rule('asserts', 'the refusals that are assertions stay in the build', 3)
    asserts(ctx)
    mem = members(ctx)
    for f in mem:
        kind, real = cls(f)
        n = name(f)
        if not accessor(ctx, f, kind, real, n):
            inside(ctx, f, kind, real)
        owned(ctx, f, kind, real)
        width(ctx, f)
        whole(ctx, f, kind, real, n)
    products(ctx)


def asserts(ctx):
    """nothing switches assertions off"""
    for n in ('Makefile.am', 'configure.ac', 'default_rules.mk'):
        p = os.path.join(REPO, n)
        t = open(p, encoding='utf-8', errors='replace').read() if os.path.exists(p) else ''
        t = re.sub(r'(?m)(^|\s)(#|dnl\b).*$', '', t)
        ctx.check('asserts', n, 'NDEBUG' not in t, p, 'assertions are switched off')
    for n in sorted(os.listdir(SRC)):
        if n.endswith(('.cc', '.h')):
            t = open(os.path.join(SRC, n), encoding='utf-8', errors='replace').read()
            ctx.check('asserts', n, not re.search(r'(?m)^[ \t]*#[ \t]*define[ \t]+(NDEBUG\b|assert\b)', t), os.path.join(SRC, n),
                      'assertions are switched off')


def members(ctx):
    return sorted((f for f in ctx.ours() if f['q'].startswith(PK) and cls(f) is not None), key=lambda f: (f['q'], f['m']))


def cls(f):
    c = (f.get('cls') or '').replace(PK, '')
    if c not in VECTOR + MATRIX:
        return None
    m = re.search(r'<([\w ]+)>', f.get('clst') or f['q'])
    return ('V' if c in VECTOR else 'M'), (m.group(1) if m else None)


def name(f):
    return f['n'].split('::')[-1]


def label(f):
    return '%s(%s)' % (f['q'].replace(PK, ''), ','.join(p.replace(PK, '') for p in f.get('pt') or ()))


def objects(F):
    """the vectors and matrices at the start: {location: 'V' or 'M'}"""
    f = F.root
    out = {}
    if f.get('cls') and not f.get('static'):
        out[F.field('x').args[0]] = cls(f)[0]
    for i, t in enumerate(f.get('pt') or ()):
        m = re.search(r'pocketkaldi::(\w+)<', t)
        if m and m.group(1) in VECTOR + MATRIX:
            out[F.paramobj(i)] = 'V' if m.group(1) in VECTOR else 'M'
    return out


def init(o, n):
    return T('init', fld(o, n))


def assume(F):
    """what the sizes of the objects that exist already satisfy"""
    fs = set()
    for o, k in objects(F).items():
        if F.root.get('ctor') and o is F.field('x').args[0]:
            continue
        if k == 'V':
            fs.add(le(C(0), init(o, 'dim_'), True))
        else:
            fs |= {le(C(0), init(o, 'num_rows_'), True), le(C(0), init(o, 'num_cols_'), True),
                   le(init(o, 'num_cols_'), init(o, 'stride_'), True)}
    return fs


def analysed(ctx, f):
    return ctx.flow(f, key='m04', assuming=assume)


def holds(F, g, node, extra=()):
    return F._prove(g, F.facts(node) | frozenset(extra), 3, {}, node)


def views(F):
    return [cs for cs in cases(F, (F.ret,), F.exit) or ()]


# ------------------------------------------------------------------ accessors
def accessor(ctx, f, kind, real, n):
    at = f['loc']
    L = label(f) + (' const' if f['m'].startswith('_ZNK') else '')
    if n == 'operator()':
        F = analysed(ctx, f)
        this = F.field('x').args[0]
        ps = [F.paramval(i) for i in range(len(f['params']))]
        es = [e for e in F.events if e.kind in ('access', 'index') and e.where is not None and e.where.op == 'el' and F.feasible(e.node)]
        ok = True
        for e in es:
            ok &= e.where.args[0] is T('buf', init(this, 'data_'))
            want = ps[0] if kind == 'V' else add(mul(ps[0], init(this, 'stride_')), ps[1])
            ok &= same(norm(F, e.where.args[1]), want)
        ret = norm(F, F.ret)
        if f['ret'].rstrip().endswith('&'):
            want = ps[0] if kind == 'V' else add(mul(ps[0], init(this, 'stride_')), ps[1])
            l = F.deref(ret)
            ok &= l is not None and l.op == 'el' and l.args[0] is T('buf', init(this, 'data_')) and same(l.args[1], want)
        ctx.check('element', L + '/address', ok and bool(es), at, 'another element is addressed')
        dims = [(ps[0], 'dim_')] if kind == 'V' else [(ps[0], 'num_rows_'), (ps[1], 'num_cols_')]
        for k, (p, d) in enumerate(dims):
            nodes = {e.node for e in es} | {F.exit}
            ctx.check('element', L + '/low%d' % k, all(holds(F, le(C(0), p, True), x) for x in nodes), at,
                      'a negative index is not refused')
            ctx.check('element', L + '/high%d' % k, all(holds(F, lt(p, init(this, d), True), x) for x in nodes), at,
                      'an index beyond the end is not refused')
        return True
    if n == 'Row':
        F = analysed(ctx, f)
        this, i = F.field('x').args[0], F.paramval(0)
        ctx.check('row', L + '/low', holds(F, le(C(0), i, True), F.exit), at, 'a negative row is not refused')
        ctx.check('row', L + '/high', holds(F, lt(i, init(this, 'num_rows_'), True), F.exit), at, 'a row beyond the end is not refused')
        d, n_ = part(F, F.ret, 'data_'), part(F, F.ret, 'dim_')
        ctx.check('row', L + '/place', same(d, add(init(this, 'data_'), mul(i, init(this, 'stride_')))) and
                  same(n_, init(this, 'num_cols_')), at, 'the row is not the one named')
        return True
    if n == 'Range' or n in ('SubVector', 'SubMatrix') and len(f['params']) in (3, 5):
        F = analysed(ctx, f)
        made = n != 'Range'
        src = F.paramobj(0) if made else F.field('x').args[0]
        ps = [F.paramval(i) for i in range(1 if made else 0, len(f['params']))]
        D = OWN[kind]
        get = (lambda x: F.final(F.field(x))) if made else (lambda x: part(F, F.ret, x))
        cs = cases(F, tuple(get(x) for x in D), F.exit)
        if not ctx.check('range', L, bool(cs), at, 'what is made could not be followed'):
            return True
        for v, fs in cs:
            v = [norm(F, x) for x in v]
            if v[0] is T('null') or v[0] is C(0):
                ctx.check('range', L + '/empty', all(x is C(0) for x in v[1:]), at, 'an empty range has a size')
                continue
            if kind == 'V':
                o, l = ps
                lim = [(o, l, 'dim_')]
                place = same(v[0], add(init(src, 'data_'), o)) and same(v[1], l)
            else:
                ro, r, co, c = ps
                lim = [(ro, r, 'num_rows_'), (co, c, 'num_cols_')]
                place = same(v[0], add(add(init(src, 'data_'), mul(ro, init(src, 'stride_'))), co)) and same(v[1], r) and \
                    same(v[2], c) and same(v[3], init(src, 'stride_'))
            ctx.check('range', L + '/place', place, at, 'the elements covered are not the ones named')
            for k, (o, l, d) in enumerate(lim):
                p = lambda g: F._prove(g, fs, 3, {}, F.exit)
                ctx.check('range', L + '/low%d' % k, p(le(C(0), o, True)) and p(le(C(0), l, True)), at,
                          'a range that starts before the beginning, or of negative length, is not refused')
                ctx.check('range', L + '/high%d' % k, p(le(add(o, l), init(src, d), True)), at, 'a range past the end is not refused')
        return True
    return False


def part(F, v, n):
    v = norm(F, v)
    if v.op == 'agg':
        return norm(F, dict(v.args[1]).get(n, T('?')))
    return T('?')


def same(a, b):
    return a is b or sub(a, b) is C(0)


# ------------------------------------------------------------------ memory
def capacity(F, ctx=None):
    """pointer value -> ('V', elements) or ('M', rows, cols, stride) or ('B', bytes)"""
    out = {}
    for o, k in objects(F).items():
        out[init(o, 'data_')] = ('V', init(o, 'dim_')) if k == 'V' else \
            ('M', init(o, 'num_rows_'), init(o, 'num_cols_'), init(o, 'stride_'))
    for e in F.events:
        if e.kind == 'call' and e.name in ('posix_memalign', 'malloc', 'calloc', 'aligned_alloc'):
            if e.name == 'posix_memalign':
                x = F.load(F.endst[e.node], F.deref(e.args[0])) if F.deref(e.args[0]) is not None else None
                size = e.args[2]
            else:
                x, size = e.val, e.args[-1] if e.name != 'calloc' else mul(e.args[0], e.args[1])
            if x is not None:
                out[x] = ('B', size)
    return out


def resized(F):
    """calls of Resize that are not followed: {object: (event, kind)}"""
    for e in F.events:
        if e.kind == 'call' and e.name in (PK + 'Vector::Resize', PK + 'Matrix::Resize') and e.obj is not None:
            yield e, 'V' if 'Vector' in e.name else 'M'


def known(F):
    """what holds of the vectors and matrices on the way: those that Resize has set, and those in loops"""
    caps, fs = {}, set()
    for e, k in resized(F):
        v = [F.load(F.endst[e.node], fld(e.obj, x)) for x in OWN[k]]
        if any(x.op != 'out' for x in v):
            continue
        caps[v[0]] = tuple([k] + v[1:])
        fs |= {le(C(0), x, True) for x in v[1:]} | {eq(v[1], norm(F, e.args[0]))}
        if k == 'M':
            fs |= {eq(v[2], norm(F, e.args[1])), le(v[2], v[3], True)}
    for p in list(F.phis):
        l = p.args[1]
        if l.op == 'fld' and l.args[1] == 'data_' and F.defnode[p] in F.loops():
            st = F.instate[F.defnode[p]]
            if fld(l.args[0], 'num_rows_') in st or F.load(st, fld(l.args[0], 'num_rows_')).op == 'phi':
                v = [F.load(st, fld(l.args[0], x)) for x in OWN['M']]
                caps[p] = tuple(['M'] + v[1:])
            else:
                caps[p] = ('V', F.load(st, fld(l.args[0], 'dim_')))
    return caps, frozenset(fs)


def split_ptr(p, caps):
    """(base, offset in elements)"""
    d, k = lin(p)
    bs = [a for a, c in d.items() if c == 1 and (a in caps)]
    if len(bs) != 1:
        l = None
        return None, None
    return bs[0], sub(p, bs[0])


def atmost(F, a, b, fs, node):
    """a <= b, also when the difference is a sum of products of numbers that are not negative"""
    p = lambda g: F._prove(g, fs, 3, {}, node)
    if p(le(a, b, True)):
        return True
    d, k = lin(sub(b, a))
    return k >= 0 and all(c > 0 and all(p(le(C(0), x, True)) for x in (t.args if t.op == 'mul' else (t,))) for t, c in d.items())


def within(F, cap, o, count, size, node, facts=None, shape=None):
    """elements [o, o+count) lie inside"""
    fs = F.facts(node) if facts is None else facts
    p = lambda g: F._prove(g, fs, 3, {}, node)
    if p(le(count, C(0), True)):
        return True
    if cap[0] == 'V':
        return p(le(C(0), o, True)) and p(le(add(o, count), cap[1], True))
    if cap[0] == 'B':
        if p(le(C(0), o, True)) and atmost(F, mul(C(size), add(o, count)), cap[1], fs, node):
            return True
        if shape is None:
            return False
        w = [norm(F, x) for x in shape]
        n = room(cap[1], w[0], size)
        return n is not None and F._prove(le(w[2], n, True), fs, 3, {}, node) and region(F, ['M'] + w, o, count, fs, node)
    return region(F, cap, o, count, fs, node)


def region(F, cap, o, count, fs, node):
    _, rows, cols, stride = cap
    p = lambda g: F._prove(g, fs, 3, {}, node)
    d, k = lin(o)
    begun = {a for t in d if t.op == 'phi' and t in F.phis and F.defnode[t] in F.loops() and F.steps(t) for a in lin(norm(F, F.steps(t)[0]))[0]}
    for r in [C(0)] + sorted({y for t in set(d) | begun for y in (t.args if t.op == 'mul' else (t,))}, key=lambda t: t.id):
        c = sub(o, mul(r, stride))
        if r is not C(0) and len(lin(c)[0]) >= len(d) and not any(r in a.args for a in begun if a.op == 'mul'):
            continue
        if p(le(C(0), r, True)) and p(lt(r, rows, True)) and p(le(C(0), c, True)) and p(le(add(c, count), cols, True)):
            return True
    for whole_ in (mul(rows, cols), mul(rows, stride)):
        if p(le(C(0), o, True)) and atmost(F, add(o, count), whole_, fs, node):
            return True
    return False


def room(have, r, size):
    """`have` bytes as elements for each of r rows, or None"""
    d, k = lin(have)
    n = C(0)
    for a, co in d.items():
        q = quotient(a, r)
        if q is None or co % size:
            return None
        n = add(n, mul(C(co // size), q))
    return n if k == 0 else None


def quotient(a, s):
    if a is s:
        return C(1)
    if a.op == 'mul' and s in a.args:
        xs = list(a.args)
        xs.remove(s)
        r = C(1)
        for x in xs:
            r = mul(r, x)
        return r
    return None


def inside(ctx, f, kind, real):
    """raw accesses of the body itself, its accessors inlined"""
    F = analysed(ctx, f)
    more, given = known(F)
    caps = {**more, **capacity(F)}
    size = SIZE.get(real, 1)
    for e in F.events:
        if not F.feasible(e.node):
            continue
        if e.kind in ('access', 'index') and e.where is not None and e.where.op == 'el' and e.where.args[0].op == 'buf':
            b, o = split_ptr(add(norm(F, e.where.args[0].args[0]), norm(F, e.where.args[1])), caps)
            if b is None:
                if vectorish(F, e.where):
                    ctx.check('inside', label(f) + '/known', settled_cases(F, e.node, e.where.args[0].args[0], e.where.args[1], C(1), caps, size, given),
                              e.loc, 'it is not known which memory is accessed')
                continue
            ctx.check('inside', label(f) + '/element', within(F, caps[b], o, C(1), size, e.node, F.facts(e.node) | given), e.loc, 'an access may lie outside')
        if e.kind == 'call' and e.name in ('memcpy', 'memset', 'memmove', 'memcmp'):
            n = norm(F, e.args[2])
            d, k = lin(n)
            if any(c % size for c in d.values()) or k % size:
                ctx.check('inside', label(f) + '/bytes', False, e.loc, 'not a whole number of elements')
                continue
            cnt = C(k // size)
            for a, c in d.items():
                cnt = add(cnt, mul(C(c // size), a))
            for i in ((0,) if e.name == 'memset' else (0, 1)):
                ctx.check('inside', label(f) + '/' + e.name, settled_cases(F, e.node, e.args[i], C(0), cnt, caps, size, given), e.loc,
                          'the memory touched may lie outside')


def vectorish(F, w):
    return any(x.op == 'init' and x.args[0].op == 'fld' and x.args[0].args[1] == 'data_' for x in walk(w)) or \
        any(x.op == 'out' for x in walk(w))


def smaller(ts, fs):
    """the cases of the minima in ts"""
    out, todo = [], [(tuple(ts), frozenset(fs))]
    while todo:
        ts, fs = todo.pop()
        m = next((x for t in ts for x in walk(t) if x.op in ('min', 'max') and len(x.args) == 2), None)
        if m is None:
            out.append((ts, fs))
            continue
        a, b = m.args
        for v, w in ((a, b), (b, a)):
            g = le(v, w, True) if m.op == 'min' else le(w, v, True)
            todo.append((tuple(subst(t, {m: v}) for t in ts), frozenset(subst(f, {m: v}) for f in fs) | {g}))
    return out


def settled_cases(F, node, p, o, cnt, caps, size, given):
    shape = ()
    if cls(F.root)[0] == 'M':
        shape = tuple(F.load(F.instate[node], fld(F.field('x').args[0], x)) for x in OWN['M'][1:])
    cs = cases(F, (p, o, cnt) + shape, node, extra=given, full=True)
    if not cs:
        return False
    for (p_, o_, n_, *sh), fs in (x for ts, fs in cs for x in smaller([norm(F, t) for t in ts], fs)):
        q = add(norm(F, p_), norm(F, o_))
        b, off = split_ptr(q, caps)
        if b is None:
            # nothing there, and nothing asked for
            if F._prove(le(n_, C(0), True), fs, 3, {}, node):
                continue
            return False
        if not within(F, caps[b], off, norm(F, n_), size, node, fs, sh or None):
            return False
    return True


def owned(ctx, f, kind, real):
    """whoever changes what is held leaves size and memory in step"""
    F = analysed(ctx, f)
    view = f['cls'].replace(PK, '').startswith('Sub') or name(f) in ('VectorBase', 'MatrixBase')
    if view or not any(e.kind == 'store' and e.where is not None and e.where.op == 'fld' and
                       e.where.args[1] in OWN['V'] + OWN['M'] for e in F.events):
        return
    caps = {k: v for k, v in capacity(F).items() if v[0] == 'B'}
    more, given = known(F)
    caps.update((k, v) for k, v in more.items() if k.op == 'out')
    objs = objects(F)
    size = SIZE.get(real, 1)
    for o, k in objs.items():
        if k != kind:
            continue
        D = OWN[k]
        fin = tuple(F.final(fld(o, x)) for x in D)
        cs = cases(F, fin, F.exit)
        who = 'this' if o is F.field('x').args[0] else 'other'
        if not ctx.check('owned', '%s/%s' % (label(f), who), bool(cs), f['loc'], 'what is held afterwards could not be followed'):
            continue
        for v, fs in cs:
            v = [norm(F, x) for x in v]
            if not aligned(F, v, k, objs, caps, size, fs):
                ctx.check('owned', '%s/%s' % (label(f), who), False, f['loc'], 'size and memory may not fit together: (%s)' %
                          ', '.join(show(x)[:60] for x in v))


def aligned(F, v, k, objs, caps, size, fs):
    if any(x.op == 'may' for x in v):
        # either object, when the two may be one
        if not all(x.op == 'may' or x is C(0) or x is T('null') for x in v):
            return False
        n = max(len(x.args) for x in v if x.op == 'may')
        return all(aligned(F, [x.args[i] if x.op == 'may' else x for x in v], k, objs, caps, size, fs) for i in range(n))
    for o in objs:
        if all(x is init(o, d) for x, d in zip(v, OWN[k])) and not (F.root.get('ctor') and o is F.field('x').args[0]):
            return True
    if v[0] is T('null') or v[0] is C(0):
        return all(x is C(0) for x in v[1:])
    if v[0] in caps and caps[v[0]][0] != 'B':
        return list(v[1:]) == list(caps[v[0]][1:])
    if v[0] in caps:
        p = lambda g: F._prove(g, fs, 3, {}, F.exit)
        have = caps[v[0]][1]
        if k == 'V':
            return p(le(C(0), v[1], True)) and p(le(mul(C(size), v[1]), have, True))
        r, c, s = v[1:]
        if not (p(le(C(0), r, True)) and p(le(C(0), c, True)) and p(le(c, s, True))):
            return False
        n = room(have, r, size)
        return n is not None and p(le(s, n, True))
    return False


# ------------------------------------------------------------------ width
NARROW = ('int', 'unsigned int', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char')


def bare(t):
    return re.sub(r'\bconst\b|\bvolatile\b|&', '', t or '').strip()


def width(ctx, f):
    em = f['emap']
    defs = {}
    for e in em.values():
        if e['k'] == 'decl' and 'init' in e:
            defs.setdefault(e['var'], []).append(e['init'])
        if e['k'] == 'assign' and em.get(e['a'], {}).get('k') == 'var':
            defs.setdefault(em[e['a']]['var'], []).append(e['b'])

    def wide(i, seen):
        """the value may need more than 32 bits"""
        e = em.get(i)
        if e is None or (i, 'w') in seen:
            return False
        seen = seen | {(i, 'w')}
        k = e['k']
        if k == 'bin' and e['op'] == '*':
            return not (const(e['a']) and const(e['b']))
        if k in ('bin', 'cond', 'cast', 'paren'):
            return any(wide(e[x], seen) for x in ('a', 'b', 'c') if isinstance(e.get(x), int) and (k != 'cond' or x != 'a'))
        return False

    def const(i):
        e = em.get(i)
        return e is not None and (e['k'] == 'const' or e['k'] == 'cast' and const(e['a']))

    def lost(i, seen=frozenset()):
        e = em.get(i)
        if e is None or i in seen:
            return None
        seen = seen | {i}
        k = e['k']
        if k == 'bin' and e['op'] in '+-*':
            if e['op'] == '*' and bare(e['t']) in NARROW and not (const(e['a']) or const(e['b'])):
                return e
            return lost(e['a'], seen) or lost(e['b'], seen)
        if k == 'cast':
            if bare(e.get('t')) in NARROW and wide(e['a'], frozenset()):
                return e
            return lost(e['a'], seen)
        if k == 'cond':
            return lost(e['b'], seen) or lost(e['c'], seen)
        if k == 'var':
            v = f['vars'].get(str(e['var']), {})
            for d in defs.get(e['var'], ()):
                if bare(v.get('type')) in NARROW and wide(d, frozenset()):
                    return em[d]
                r = lost(d, seen)
                if r is not None:
                    return r
        return None
    found, n = None, 0
    for e in em.values():
        sinks = []
        if e['k'] == 'index':
            sinks = [e['b']]
        elif e['k'] == 'bin' and e['op'] in '+-' and '*' in (e.get('t') or ''):
            sinks = [e['a'], e['b']]
        elif e['k'] == 'call' and e.get('n') in ('posix_memalign', 'malloc', 'memset', 'memcpy', 'memmove', 'calloc', 'aligned_alloc'):
            sinks = e['args'][-1:]
        for s in sinks:
            n += 1
            r = lost(s)
            if r is not None and found is None:
                found = r
    if n:
        ctx.check('width', label(f), found is None, (found or f).get('loc', f['loc']), 'a product of sizes is kept in 32 bits')


# ------------------------------------------------------------------ whole
def expected(F, n, ld, other):
    """what an element becomes, or None when this is not decided here"""
    p = lambda i: F.paramval(i)
    return {'Set': lambda: [p(0)], 'SetZero': lambda: [C(0)], 'Scale': lambda: [mul(ld, p(0))], 'Add': lambda: [add(ld, p(0))],
            'MulElements': lambda: [mul(ld, other(0))], 'CopyFromVec': lambda: [other(0)],
            'AddVec': lambda: [add(ld, mul(p(0), other(1)))],
            'ApplyLog': lambda: [T('fn', 'log', ld)]}.get(n, lambda: None)()


def whole(ctx, f, kind, real, n):
    c = f['cls'].replace(PK, '')
    if c in ('Vector', 'Matrix') and n == 'Resize':
        resize(ctx, f, kind, real)
    if c == 'MatrixBase' and n == 'CopyFromMat':
        copymat(ctx, f, real)
    if c == 'MatrixBase' and n == 'SetZero':
        zeromat(ctx, f, real)
    if c != 'VectorBase' or n not in ('Set', 'SetZero', 'Scale', 'Add', 'MulElements', 'CopyFromVec', 'AddVec', 'ApplyLog'):
        return
    F = analysed(ctx, f)
    this = F.field('x').args[0]
    D, N = init(this, 'data_'), init(this, 'dim_')
    b = T('buf', D)
    size = SIZE.get(real, 1)
    raw = T('init', b)
    cs = cases(F, (F.final(b),), F.exit)
    if not ctx.check('whole', label(f), bool(cs), f['loc'], 'what becomes of the elements could not be followed'):
        return
    for (v,), fs in cs:
        p = lambda g: F._prove(g, fs, 3, {}, F.exit)
        why = ''
        if v is raw:
            ok = p(le(N, C(0), True)) or n == 'CopyFromVec' and (p(eq(D, init(F.paramobj(0), 'data_'))))
            why = '' if ok else 'nothing is done in some cases'
        elif v.op in ('memset', 'memcpy'):
            other = init(F.paramobj(0), 'data_') if v.op == 'memcpy' else C(0)
            ok = v.args[0] is raw and v.args[1] is C(0) and same(norm(F, v.args[2]), other) and \
                (same(norm(F, v.args[3]), mul(C(size), N)) or p(eq(v.args[3], mul(C(size), N))))
            if v.op == 'memset' and n != 'SetZero' or v.op == 'memcpy' and n != 'CopyFromVec':
                ok = False
            why = '' if ok else 'not all elements are set'
        elif v.op == 'phi' and v in F.phis and F.defnode[v] in F.loops():
            why = each(F, v, raw, N, lambda i, ld: expected(
                F, n, ld, lambda k: T('init', el(T('buf', init(F.paramobj(k), 'data_')), i))), fs, n)
        else:
            why = 'the elements are %s' % show(v)[:80]
        ctx.check('whole', label(f), not why, f['loc'], why)


def each(F, v, raw, N, want, fs, n):
    H = F.defnode[v]
    ks = list(loops.latches(F, H))
    pre = {norm(F, x) for k, x in F.phis[v].items() if k not in ks and F.E.get(k) is not None}
    if pre != {raw} or len(ks) != 1:
        return 'the elements are changed before or in several ways'
    w = F.phis[v][ks[0]]
    if w.op != 'st' or w.args[0] is not v:
        return 'not one element is set in each round'
    i = w.args[1]
    why = loops.covers(F, ks[0][0], i, C(0), N, lambda k: loops.aborts(F, k))
    if why:
        return 'the loop over the elements ' + why
    x = norm(F, w.args[2])
    while x.op in ('trunc', 'narrow'):
        x = x.args[0]
    ld = T('ld', v, i)
    ws = want(i, ld)
    gs = frozenset(F.facts(ks[0][0]))
    if not any(x is y or same(x, y) for y in ws):
        # multiplied by one
        if n == 'AddVec':
            y = subst(ws[0], {F.paramval(0): C(1)})
            if same(x, y) and F._prove(eq(F.paramval(0), C(1)), gs | fs, 3, {}, ks[0][0]):
                return ''
        if n == 'CopyFromVec' and x.op in ('cast', 'conv', 'trunc') and x.args[-1] is ws[0]:
            return ''
        return 'an element becomes %s' % show(x)[:120]
    return ''


def resize(ctx, f, kind, real):
    F = analysed(ctx, f)
    this = F.field('x').args[0]
    size = SIZE.get(real, 1)
    more, given = known(F)
    D = OWN[kind]
    ps = [F.paramval(0)] + ([F.paramval(1)] if kind == 'M' else [])
    rt = F.paramval(len(ps))
    cs = cases(F, tuple(F.final(fld(this, x)) for x in D[1:1 + len(ps)]), F.exit, extra=given, full=True)
    if ctx.check('whole', label(f) + '/sized', bool(cs), f['loc'], 'the size afterwards could not be followed'):
        for v, fs in cs:
            for x, want in zip(v, ps):
                ok = same(norm(F, x), want) or F._prove(eq(x, want), fs | given, 3, {}, F.exit)
                if not ok and kind == 'M':
                    # an empty matrix has neither
                    ok = x is C(0) and any(F._prove(eq(q, C(0)), fs, 3, {}, F.exit) for q in ps)
                ctx.check('whole', label(f) + '/sized', ok, f['loc'], 'another size is set than asked for: %s' % show(x)[:60])
    # cleared when asked
    sets = [e for e in F.events if e.kind == 'call' and e.name == 'memset' and F.feasible(e.node)]
    ends = {e.node for e in sets} | {e.node for e, k in resized(F)}
    if kind == 'V':
        reach = F.assume(F.entry, [eq(rt, C(0))], stop=ends)
        ctx.check('whole', label(f) + '/cleared', F.exit not in reach.nodes, f['loc'], 'the new elements may not be set to zero')
        for e in sets:
            st = F.instate[e.node]
            d = F.load(st, fld(this, 'data_'))
            n = F.load(st, fld(this, 'dim_'))
            if same(norm(F, e.args[0]), norm(F, d)):
                ctx.check('whole', label(f) + '/clears', same(norm(F, e.args[2]), norm(F, mul(C(size), n))) and e.args[1] is C(0),
                          e.loc, 'not all elements are set to zero')
        # what stays
        old, oldn = init(this, 'data_'), init(this, 'dim_')
        cps = [e for e in F.events if e.kind == 'call' and e.name in ('memcpy', 'memmove') and F.feasible(e.node)]
        base = [eq(rt, C(2)), NOT(eq(old, T('null'))), NOT(eq(ps[0], C(0))), NOT(eq(oldn, ps[0])), le(C(0), ps[0], True)]
        reach = F.assume(F.entry, base, stop={e.node for e in cps})
        ctx.check('whole', label(f) + '/kept', bool(cps) and F.exit not in reach.nodes, f['loc'], 'the old elements may not be kept')
        fin = {v for (v,), _ in cases(F, (F.final(fld(this, 'data_')),), F.exit)}
        tails = set()
        for e in cps:
            cs = cases(F, (e.args[0], e.args[1], e.args[2]), e.node, extra=given, full=True) or []
            ctx.check('whole', label(f) + '/kept', bool(cs), e.loc, 'what is copied could not be followed')
            for (d, s_, n), fs in (x for ts, fs in cs for x in smaller([norm(F, t) for t in ts], fs)):
                p = lambda g: F._prove(g, fs | given, 3, {}, e.node)
                n = norm(F, n)
                lo, hi = mul(C(size), ps[0]), mul(C(size), oldn)
                ok = norm(F, d) in fin and same(norm(F, s_), old) and (
                    p(eq(n, lo)) and p(le(n, hi, True)) or p(eq(n, hi)) and p(le(n, lo, True)))
                ctx.check('whole', label(f) + '/kept', ok, e.loc, 'not all elements that fit are kept')
        for e in sets:
            st = F.instate[e.node]
            cs = cases(F, (e.args[0], e.args[2]), e.node, extra=given, full=True) or []
            if cs and e.args[1] is C(0) and all(
                    F._prove(lt(ps[0], oldn, True), fs | given, 3, {}, e.node) or F._prove(eq(ps[0], oldn), fs | given, 3, {}, e.node) or
                    norm(F, sub(d, oldn)) in fin and same(norm(F, n), mul(C(size), sub(ps[0], oldn)))
                    for ts, fs in cs for (d, n), fs in smaller([norm(F, t) for t in ts], fs)):
                tails.add(e.node)
        reach = F.assume(F.entry, base + [lt(oldn, ps[0], True)], stop=tails)
        ctx.check('whole', label(f) + '/rest', F.exit not in reach.nodes, f['loc'], 'the elements added may not be zero')


def zeromat(ctx, f, real):
    F = analysed(ctx, f)
    this = F.field('x').args[0]
    size = SIZE.get(real, 1)
    D, R, Cn, S = [init(this, x) for x in OWN['M']]
    nodes = set()
    for e in F.events:
        if e.kind != 'call' or e.name != 'memset' or not F.feasible(e.node) or e.args[1] is not C(0):
            continue
        o, n = sub(norm(F, e.args[0]), D), norm(F, e.args[2])
        if o is C(0) and any(same(n, mul(mul(C(size), R), x)) and (x is S or holds(F, eq(S, Cn), e.node)) for x in (Cn, S)):
            nodes.add(e.node)
            continue
        r = quotient(o, S)
        if r is not None and same(n, mul(C(size), Cn)):
            if not loops.covers(F, e.node, r, C(0), R, lambda k: loops.aborts(F, k)):
                H = F.defnode[loops.header_phi(F, r)[0]]
                nodes.add(H)
    ctx.check('whole', label(f), bool(nodes) and F.exit not in F.assume(F.entry, [], stop=nodes).nodes, f['loc'],
              'not all elements are set to zero')


def copymat(ctx, f, real):
    """each element is copied from its place, or from the mirrored one"""
    F = analysed(ctx, f)
    this, M = F.field('x').args[0], F.paramobj(0)
    D, R, Cn, S = [init(this, x) for x in OWN['M']]
    D2, R2, C2, S2 = [init(M, x) for x in OWN['M']]
    size = SIZE.get(real, 1)
    tr = F.paramval(1)
    plain, turned = set(), set()
    for e in F.events:
        if not F.feasible(e.node):
            continue
        if e.kind == 'call' and e.name == 'memcpy':
            a, b, n = [norm(F, x) for x in e.args[:3]]
            r, r2 = quotient(sub(a, D), S), quotient(sub(b, D2), S2)
            if r is not None and r2 is not None and same(r, r2) and same_cols(F, n, mul(C(size), Cn), e.node):
                # the row is copied unless it is the same memory
                H = loops.header_phi(F, r)
                if H is None:
                    continue
                if covers_unless(F, e.node, r, R, a, b):
                    plain.add(F.defnode[H[0]])
        if e.kind == 'store' and e.where is not None and e.where.op == 'el' and e.where.args[0] is T('buf', D):
            i = norm(F, e.where.args[1])
            x = norm(F, e.val)
            if x.op in ('cast', 'conv', 'trunc'):
                x = x.args[-1]
            for r, c in factors(i, S):
                for src, dst, lim in ((add(mul(c, S2), r), turned, Cn), (add(mul(r, S2), c), plain, Cn)):
                    if (x.op == 'init' and x.args[0].op == 'el' and x.args[0].args[0] is T('buf', D2) and same(x.args[0].args[1], src)) or \
                            (x.op == 'ld' and same(x.args[1], src)):
                        for (u, lu), (w, lw) in (((c, lim), (r, R)), ((r, R), (c, lim))):
                            if not loops.covers(F, e.node, u, C(0), lu, lambda k: loops.aborts(F, k)):
                                h = F.defnode[loops.header_phi(F, u)[0]]
                                if loops.header_phi(F, w) and not loops.covers(F, h, w, C(0), lw, lambda k: loops.aborts(F, k)):
                                    dst.add(F.defnode[loops.header_phi(F, w)[0]])
    for k, g, stops in (('plain', eq(tr, C(1)), plain), ('turned', eq(tr, C(0)), turned)):
        ctx.check('whole', label(f) + '/' + k, bool(stops) and F.exit not in F.assume(F.entry, [g], stop=stops).nodes, f['loc'],
                  'not every element is copied from its place')
    for k, g, (x, y) in (('plain', eq(tr, C(1)), ((R, R2), (Cn, C2))), ('turned', eq(tr, C(0)), ((R, C2), (Cn, R2)))):
        for u, w in (x, y):
            ctx.check('whole', label(f) + '/%s/fit' % k, F.exit not in F.assume(F.entry, [g, NOT(eq(u, w))]).nodes, f['loc'],
                      'matrices of other sizes are copied')


def factors(i, S):
    d, _ = lin(i)
    for r in sorted({y for t in d for y in (t.args if t.op == 'mul' else (t,))}, key=lambda t: t.id):
        c = sub(i, mul(r, S))
        if len(lin(c)[0]) < len(d):
            yield r, c


def same_cols(F, n, want, node):
    return same(n, want) or F._prove(eq(n, want), F.facts(node), 3, {}, node)


def covers_unless(F, node, r, hi, a, b):
    """node is reached for every r of [0, hi), except where a equals b"""
    if not loops.covers(F, node, r, C(0), hi, lambda k: loops.aborts(F, k)):
        return True
    H = F.defnode[loops.header_phi(F, r)[0]]
    ks = list(loops.latches(F, H))
    if len(ks) != 1 or loops.covers(F, ks[0][0], r, C(0), hi, lambda k: loops.aborts(F, k)):
        return False
    reach = F.assume(H, [NOT(eq(a, b))], stop={node})
    return ks[0][0] not in reach.nodes


def products(ctx):
    f = ctx.fn('MatMat')
    F = ctx.flow(f, key='m04', assuming=assume)
    A, B, Co = F.paramobj(0), F.paramobj(1), F.paramobj(2)
    es = [e for e in F.events if e.kind == 'call' and e.name.startswith('cblas_') and F.feasible(e.node)]
    ctx.check('product', 'MatMat', bool(es), f['loc'], 'no product is computed')
    for e in es:
        p = lambda a, b: same(norm(F, a), norm(F, b)) or holds(F, eq(a, b), e.node)
        r, c, s = 'num_rows_', 'num_cols_', 'stride_'
        a = e.args
        for k, (x, y) in {'inner': (init(A, c), init(B, r)), 'rows': (init(A, r), init(Co, r)), 'cols': (init(B, c), init(Co, c)),
                          'm': (a[3], init(A, r)), 'n': (a[4], init(B, c)), 'k': (a[5], init(A, c)),
                          'a': (a[7], init(A, 'data_')), 'lda': (a[8], init(A, s)), 'b': (a[9], init(B, 'data_')),
                          'ldb': (a[10], init(B, s)), 'c': (a[12], init(Co, 'data_')), 'ldc': (a[13], init(Co, s))}.items():
            ctx.check('product', 'MatMat/' + k, p(x, y), e.loc, 'the product of other sizes is computed')
