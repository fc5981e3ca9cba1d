"""Every layer and every elementary operation computes its defining formula."""
from rules.elems import *
from rules.history import *
import rules.m04 as m04
import rules.n01 as n01

REAL = ('float', 'double')


def run(ctx):
    ctx.rule('element', 'an elementary operation gives each element the value its name says', 30)
    ctx.rule('bounded', 'no exponential is taken of anything above zero, and nothing is divided by a norm of zero', 4)
    ctx.rule('product', 'the matrix product is plain, of both factors as they are', 5)
    ctx.rule('resize', 'resizing clears, keeps or leaves the elements as it was asked', 8)
    ctx.rule('layer', 'each element a layer gives is the value of its formula', 6)
    for f in m04.members(ctx):
        kind, real = m04.cls(f)
        n = m04.name(f)
        c = f['cls'].replace(PK, '')
        if real in REAL or n in ('SetZero', 'CopyFromVec'):
            m04.whole(As(ctx, 'whole', 'element'), f, kind, real, n)
        if c == 'VectorBase' and real in REAL:
            operation(ctx, f, real, n)
        if c == 'MatrixBase' and n == 'Scale' and real in REAL:
            scaled(ctx, f, real)
        if c == 'Matrix' and n == 'Resize' and real in REAL:
            resized(ctx, f, real)
    product(ctx)
    for k in sorted(f['key'] for f in ctx.ours() if f['n'].endswith('::Propagate') and
                    any('5Layer9Propagate' in o for o in f.get('overrides', ()))):
        layer(ctx, ctx.prog.functions[k])


# ------------------------------------------------------------------ vectors
def operation(ctx, f, real, n):
    if n not in ('VecVec', 'ApplySoftMax', 'ApplyLogSoftMax', 'ApplyFloor', 'ApplyPow'):
        return
    F = m04.analysed(ctx, f)
    L = m04.label(f)
    this = F.field('x').args[0]
    b = T('buf', m04.init(this, 'data_'))
    raw = T('init', b)
    N = m04.init(this, 'dim_')
    E = Elems(F, N, bufs=(b,))
    x = T('at', raw, J)
    try:
        if n == 'VecVec':
            o = T('init', T('buf', m04.init(F.paramobj(0), 'data_')))
            want = T('Sum', mul(T('at', raw, K), T('at', o, K)))
            rs = [y for (t,), fs in cases(F, (F.ret,), F.exit) for y in E.tr(t, {}, J, ())]
            ctx.check('element', L, rs and all(r is want or r is C(0) for r in rs) and want in rs, f['loc'],
                      'it gives %s' % ', '.join(show(r)[:100] for r in rs))
            ctx.check('element', L + '/same', F.final(b) is raw, f['loc'], 'a vector is changed')
            return
        out = [y for (v,), fs in cases(F, (F.final(b),), F.exit) or () for y in E.el(v)]
    except Unclear as e:
        ctx.check('element', L, False, f['loc'], str(e))
        return
    if n == 'ApplyPow':
        ok = out and all(v.op == 'fn' and v.args[0] in ('pow', 'powf') and v.args[1] is x and v.args[2] is F.paramval(0) for v, _ in out)
    elif n == 'ApplyFloor':
        ok = floored(F, out, x, F.paramval(0))
    elif n == 'ApplySoftMax':
        return soft(ctx, L, f, out, x, softmax)
    else:
        return soft(ctx, L, f, out, x, logsoftmax)
    ctx.check('element', L, ok, f['loc'], 'an element becomes %s' % ', '.join(show(v)[:100] for v, _ in out))


def floored(F, out, x, low):
    """the larger of x and low"""
    if not out:
        return False
    for v, fs in out:
        p = lambda g: F._prove(g, fs, 3, {}, F.exit)
        if v.op == 'max' and set(v.args) == {x, low}:
            continue
        if not (v is x and p(le(low, x, False)) or v is low and p(le(x, low, False))):
            return False
    return True


def soft(ctx, L, f, out, x, form):
    by = [form(v, x) for v, _ in out]
    ok = ctx.check('element', L, bool(by) and all(c is not None for c in by), f['loc'],
                   'an element becomes %s' % ', '.join(show(v)[:160] for v, _ in out))
    if ok:
        ctx.check('bounded', L, all(c is T('Max', subst(x, {J: K})) for c in by), f['loc'],
                  'the exponential is taken of the element as it is, which overflows')


def exponent(t, x):
    """c when t is exp(x - c)"""
    if t.op == 'fn' and t.args[0] in ('exp', 'expf'):
        c = sub(x, t.args[1])
        if not any(y in (J, K) or y is x for y in walk(c) if y.op not in ('Sum', 'Max')) or c.op == 'Max':
            return c
    return None


def softmax(v, x):
    """the shift c when v is exp(x - c) over the sum of all such"""
    fs = v.args if v.op == 'mul' else (v,)
    es = [y for y in fs if y.op == 'fn']
    ds = [y.args[0] for y in fs if y.op == 'inv']
    if len(fs) == 2 and len(es) == len(ds) == 1:
        c = exponent(es[0], x)
        if c is not None and ds[0] is T('Sum', subst(es[0], {J: K})):
            return c
    return None


def logsoftmax(v, x):
    """the shift c when v is x - c - log of the sum of all exp(x - c)"""
    d = sub(x, v)
    for l in walk(d):
        if l.op == 'fn' and l.args[0] in ('log', 'logf') and l.args[1].op == 'Sum':
            c = exponent(l.args[1].args[0], subst(x, {J: K}))
            if c is not None and sub(d, l) is c:
                return c
    return None


# ------------------------------------------------------------------ matrices
def scaled(ctx, f, real):
    """each row is scaled"""
    F = ctx.flow(f, key='n03', extra=n01.SUMMARY)
    this = F.field('x').args[0]
    l = fld(this, '#v')
    E = Elems(F, T('init', fld(this, 'num_cols_')), T('init', fld(this, 'num_rows_')))
    try:
        out = [y for (v,), fs in cases(F, (F.final(l),), F.exit) or () for y in E.el(v)]
        ok = out and all(v is mul(T('at', T('init', l), I, J), F.paramval(0)) for v, _ in out)
        ctx.check('element', m04.label(f), ok, f['loc'], 'an element becomes %s' % ', '.join(show(v)[:100] for v, _ in out))
    except Unclear as e:
        ctx.check('element', m04.label(f), False, f['loc'], str(e))


def product(ctx):
    f = ctx.fn('MatMat')
    F = ctx.flow(f, key='m04', assuming=m04.assume)
    es = [e for e in F.events if e.kind == 'call' and e.name.startswith('cblas_') and F.feasible(e.node)]
    ctx.check('product', 'once', len(es) == 1 and F.exit not in F.assume(F.entry, [], stop={e.node for e in es}).nodes and
              not loops.rounds(F, es[0].node), f['loc'], 'the product is not computed once on every way')
    for e in es:
        a = e.args
        for n, i, want in (('order', 0, 101), ('a', 1, 111), ('b', 2, 111), ('alpha', 6, 1), ('beta', 11, 0)):
            x = norm(F, a[i])
            ctx.check('product', n, x.op == 'c' and x.args[0] == want, e.loc, 'the product is computed with %s = %s' % (n, show(x)[:40]))


def resized(ctx, f, real):
    """what Matrix::Resize leaves in the elements"""
    F = m04.analysed(ctx, f)
    L = m04.label(f)
    this = F.field('x').args[0]
    rows, cols, rt = (F.paramval(i) for i in range(3))
    size = m04.SIZE[real]
    more, given = m04.known(F)
    D = m04.OWN['M']
    clears = set()
    for e in F.events:
        if e.kind == 'call' and e.name == 'memset' and F.feasible(e.node) and e.args[1] is C(0):
            st = F.instate[e.node]
            d, r, c, s = [F.load(st, fld(this, x)) for x in D]
            o, n = sub(norm(F, e.args[0]), norm(F, d)), norm(F, e.args[2])
            p = lambda g: F._prove(g, F.facts(e.node) | given, 3, {}, e.node)
            if o is C(0) and any(same(n, norm(F, mul(mul(C(size), r), x))) and (x is s or p(eq(s, c))) for x in (c, s)):
                clears.add(e.node)
            q = m04.quotient(o, norm(F, s))
            if q is not None and same(n, norm(F, mul(C(size), c))) and loops.header_phi(F, q) and \
                    not loops.covers(F, e.node, q, C(0), norm(F, r), lambda k: loops.aborts(F, k)):
                clears.add(F.defnode[loops.header_phi(F, q)[0]])
    again = {e.node for e, k in m04.resized(F)}
    empty = [NOT(eq(rows, C(0))), NOT(eq(cols, C(0))), le(C(0), rows, True), le(C(0), cols, True)]
    R = F.assume(F.entry, [eq(rt, C(0))] + empty, stop=clears | again)
    ctx.check('resize', L + '/cleared', F.exit not in R.nodes, f['loc'], 'the elements may not be set to zero though asked for')
    R = F.assume(F.entry, [eq(rt, C(2)), eq(m04.init(this, 'data_'), T('null'))] + empty, stop=clears | again)
    ctx.check('resize', L + '/new', F.exit not in R.nodes, f['loc'], 'new elements may not be zero')
    kept(ctx, f, L, D)


def kept(ctx, f, L, D):
    """what Matrix::Resize keeps when it is to copy, where it does so by copying a part"""
    F = ctx.flow(f, key='n03r', assuming=m04.assume, stop=[PK + 'MatrixBase::CopyFromMat'])
    this = F.field('x').args[0]
    rows, cols, rt = (F.paramval(i) for i in range(3))
    old = [m04.init(this, x) for x in D]
    base = [eq(rt, C(2)), NOT(eq(old[0], T('null'))), NOT(eq(rows, C(0))), NOT(eq(cols, C(0))), NOT(eq(rows, old[1]))]
    copies = [e for e in F.events if e.kind == 'call' and e.name == PK + 'MatrixBase::CopyFromMat' and F.feasible(e.node)]
    if not copies:
        return
    R = F.assume(F.entry, base, stop={e.node for e in copies})
    ctx.check('resize', L + '/kept', F.exit not in R.nodes, f['loc'], 'the old elements may not be kept')
    R = F.assume(F.entry, base)
    fin = {v for (v,), _ in cases(F, (F.final(fld(this, 'data_')),), F.exit, R=R) or ()}
    for e in copies:
        st = F.instate[e.node]
        to, frm = F.load(st, e.obj), e.args[0]
        if to.op != 'agg' and e.obj.op == 'var':
            to = F.ev.get((e.obj.args[0], -e.obj.args[1]), to)
        for (t, u, ty), fs in cases(F, (to, frm, e.args[1]), e.node) or ():
            if t.op != 'agg' or u.op != 'agg':
                ctx.check('resize', L + '/kept', False, e.loc, 'what is copied could not be followed')
                continue
            t, u = dict(t.args[1]), dict(u.args[1])
            p = lambda g: F._prove(g, frozenset(fs), 3, {}, e.node)
            if p(eq(t['num_rows_'], C(0))):
                continue
            ok = norm(F, t['data_']) in fin and same(norm(F, u['data_']), old[0]) and same(norm(F, u['stride_']), old[3]) and p(eq(ty, C(1)))
            for i, n in ((1, rows), (2, cols)):
                for z in (t, u):
                    v = norm(F, z[D[i]])
                    ok = ok and (v.op == 'min' and set(v.args) == {n, old[i]} or p(eq(v, n)) and p(le(n, old[i], True)) or
                                 p(eq(v, old[i])) and p(le(old[i], n, True)))
            ctx.check('resize', L + '/kept', ok, e.loc, 'not exactly the elements that fit are kept')
    made = [e for e, k in m04.resized(F) if k == 'M']
    for i, n in ((1, rows), (2, cols)):
        g = base + [lt(old[i], n, True)]
        R = F.assume(F.entry, g)
        for e in made:
            if e.node not in R.nodes or len(e.args) < 3:
                continue
            cs = cases(F, (e.args[2],), e.node, R=R) or []
            ctx.check('resize', L + '/rest', cs and all(F._prove(eq(v, C(0)), frozenset(fs), 3, {}, e.node) for (v,), fs in cs), e.loc,
                      'the elements added may not be zero')


def same(a, b):
    return a is b or sub(a, b) is C(0)


# ------------------------------------------------------------------ layers
def layer(ctx, f):
    P = n01.Layer(ctx, f)
    F, n = P.F, short(f).split('::')[0]
    if n in ('SpliceLayer', 'NarrowLayer'):
        return
    out = P.out
    terms = (F.final(fld(out, 'num_rows_')), F.final(fld(out, 'num_cols_')), F.final(fld(out, '#v')))
    for (r, c, v), fs in cases(F, terms, F.exit) or ():
        E = Elems(F, norm(F, c), norm(F, r))
        try:
            for x, g in E.el(v):
                formula(ctx, P, n, f, x, frozenset(g) | frozenset(fs), r, c)
        except Unclear as e:
            ctx.check('layer', n, False, f['loc'], 'an element of the output: %s' % e)


def formula(ctx, P, n, f, x, fs, r, c):
    F = P.F
    inn = T('at', P.v, I, J)
    p = lambda g: F._prove(g, fs, 3, {}, F.exit)
    why = None
    param = lambda s: T('at', T('init', fld(F.field(s), '#v')), J)
    if n == 'LinearLayer':
        prods = [y.args[0] for y in walk(x) if y.op == 'at' and y.args[0].op == 'prod']
        W, b = matrices(ctx, f), vectors(ctx, f)
        ok = len(prods) == 1 and len(W) == len(b) == 1 and prods[0].args[1] is P.v and P.param(prods[0].args[2]) == W[0]
        if ok:
            base = T('at', prods[0], I, J)
            bias = b[0]
            ok = same(x, add(base, param(bias))) or x is base and p(eq(T('init', fld(F.field(bias), 'dim_')), C(0)))
    elif n == 'ReLULayer':
        ok = x is T('op', 'ApplyFloor', inn, C(0)) or floored(F, [(x, fs)], inn, C(0))
    elif n == 'BatchNormLayer':
        ps = vectors(ctx, f)
        ok = any(same(x, add(mul(inn, param(a)), param(b))) and 'scale' in a and 'offset' in b for a in ps for b in ps if a != b)
    elif n in ('SoftmaxLayer', 'LogSoftmaxLayer'):
        op, form = ('ApplySoftMax', softmax) if n == 'SoftmaxLayer' else ('ApplyLogSoftMax', logsoftmax)
        ok = x is T('op', op, inn)
        if not ok:
            s = form(x, inn)
            ok = s is not None
            if ok:
                ctx.check('bounded', n, s is T('Max', subst(inn, {J: K})), f['loc'], 'the exponential overflows')
    elif n == 'NormalizeLayer':
        total = T('Sum', mul(subst(inn, {J: K}), subst(inn, {J: K})))
        if x is inn:
            ok = p(le(total, C(0), False))
        else:
            ok = squared(x, inn) == {T('init', fld(P.inn, 'num_cols_')): 1, total: -1}
            ctx.check('bounded', n, p(NOT(eq(total, C(0)))), f['loc'], 'a row of zeros is divided by its length')
    else:
        return
    ctx.check('layer', n, ok, f['loc'], 'an element of the output is %s' % show(x)[:160])


def squared(x, inn):
    """(x / inn) squared, where it is a product of square roots and quotients"""
    d = {}

    def put(y, n):
        if y.op == 'mul':
            for z in y.args:
                put(z, n)
        elif y.op == 'inv':
            put(y.args[0], -n)
        elif y.op == 'fn' and y.args[0] in ('sqrt', 'sqrtf') and n % 2 == 0:
            put(y.args[1], n // 2)
        elif y is not C(1):
            d[y] = d.get(y, 0) + n
    put(x, 2)
    d[inn] = d.get(inn, 0) - 2
    return {y: n for y, n in d.items() if n}


def vectors(ctx, f):
    return [n for n in n01.fields_of(ctx, f) if 'Vector' in kind(ctx, f, n)]


def matrices(ctx, f):
    return [n for n in n01.fields_of(ctx, f) if 'Matrix' in kind(ctx, f, n)]


def kind(ctx, f, n):
    r = ctx.prog.records.get(n01.bare(f.get('clst') or f['cls']), {'fields': ()})
    return next((x.get('type') or x.get('t') or '' for x in r['fields'] if x['name'] == n), '')
