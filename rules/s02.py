"""Decoding depends on nothing but the model files and the audio."""
import re
from rules.stream import *

AMBIENT = re.compile(r'^(std::|::)?(rand|rand_r|random|drand48|erand48|lrand48|nrand48|mrand48|jrand48|arc4random\w*|getrandom|getentropy|'
                     r'time|clock|gettimeofday|clock_gettime|ftime|localtime|gmtime|localtime_r|gmtime_r|mktime|strftime|'
                     r'getenv|secure_getenv|getpid|getppid|gettid|pthread_self|getuid|geteuid|getcwd|gethostname|uname|'
                     r'sysconf|sysinfo|getrusage|times|tmpnam|tmpfile|mkstemp|setlocale|localeconv|sched_getcpu|'
                     r'sbrk|mallinfo2?|malloc_usable_size|__rdtsc|get_nprocs|getloadavg)$')
AMBIENT2 = re.compile(r'^std::(random_device|chrono::\w*(::\w+)*::now|this_thread::|thread::|async|filesystem::|locale)')
SCALAR = re.compile(r'^(const )?(unsigned |signed )?(int|float|bool|char|short|long|double|unsigned|u?int\d+_t|size_t)( int| long)?$')
MATHS = ('Vector', 'Matrix', 'VectorBase', 'MatrixBase', 'SubVector', 'SubMatrix')


def run(ctx):
    ctx.rule('source', 'a function the library calls lead to asks no clock, environment, process, thread or random source', 100)
    ctx.rule('order', 'no address is turned into a number or ordered, and no unordered container is walked through', 100)
    ctx.rule('member', 'an object has a value in every scalar member once it has been set up', 30)
    ctx.rule('local', 'no local variable is used before it has a value', 100)
    ctx.rule('contents', 'a vector or matrix sized without contents is filled before its contents are used', 100)
    reach = ctx.reach()
    fs = [f for f in ctx.prog.functions.values() if f['key'] in reach and f.get('ours') and f.get('blocks')]
    for f in fs:
        name = nick(f)
        ev = sources(ctx, f)
        ctx.check('source', name, ev is None, ev[0] if ev else f['loc'], '%s asks %s' % (f['n'], ev[1] if ev else ''))
        ev = orders(ctx, f)
        ctx.check('order', name, ev is None, ev[0] if ev else f['loc'], '%s %s' % (f['n'], ev[1] if ev else ''))
        ev = local(ctx, f)
        ctx.check('local', name, ev is None, ev[0] if ev else f['loc'], '%s: %s' % (f['n'], ev[1] if ev else ''))
        if not any(PK + m + x in f['q'] for m in MATHS for x in ('<', '::')):
            ev = contents(ctx, f)
            ctx.check('contents', name, ev is None, ev[0] if ev else f['loc'], '%s: %s' % (f['n'], ev[1] if ev else ''))
    members(ctx, fs)


def nick(f):
    return f['key'] if len(f['key']) < 60 else f['key'][:40] + str(sum(map(ord, f['key'])))


# ------------------------------------------------------------------ what is asked
def sources(ctx, f):
    for e in f['calls']:
        n = (e.get('f') or {}).get('q') or ''
        n = re.sub(r'<.*>', '', n)
        if AMBIENT.match(n) or AMBIENT2.match(n):
            return e.get('loc') or f['loc'], n
        if n.startswith('std::') and n.endswith('random_device'):
            return e.get('loc') or f['loc'], n
    return None


def orders(ctx, f):
    for e in f['emap'].values():
        if e['k'] == 'cast' and e.get('ck') == 'PointerToIntegral':
            return e.get('loc') or f['loc'], 'turns an address into a number'
    for e in f['calls']:
        g = e.get('f') or {}
        t = (g.get('clst') or '') + ' ' + (g.get('q') or '')
        n = last(re.sub(r'<.*>', '', g.get('q') or ''))
        c = re.sub(r'<.*', '', g.get('clst') or '')
        if re.search(r'std::(__detail::)?(hash|less|greater|less_equal|greater_equal)<[^<>]*\*>', t) and n in ('operator()',):
            return e.get('loc') or f['loc'], 'orders or hashes addresses'
        if re.match(r'std::(map|set|multimap|multiset|priority_queue)$', c) and keyed_by_pointer(g.get('clst') or ''):
            return e.get('loc') or f['loc'], 'orders addresses'
        if c.startswith('std::unordered_') and n in ('begin', 'cbegin'):
            return e.get('loc') or f['loc'], 'walks through an unordered container'
        if n in ('sort', 'stable_sort', 'nth_element', 'partial_sort', 'max_element', 'min_element') and (g.get('pt') or []) and \
                re.search(r'\*\s*\*|<[^<>]*\*\s*\*', (g.get('pt') or [''])[0]) and len(g.get('pt') or ()) < 3:
            return e.get('loc') or f['loc'], 'orders addresses'
    return None


def keyed_by_pointer(t):
    m = re.search(r'<\s*([^,<>]*)', t)
    return bool(m and m.group(1).strip().endswith('*'))


# ------------------------------------------------------------------ members
def fields_of(ctx, t, pre=(), depth=0):
    """(path, type) of the scalars in an object of type t"""
    t = re.sub(r'^(const|struct|class) ', '', t or '').strip()
    r = ctx.prog.records.get(t)
    if r is None or depth > 3:
        return
    for x in r['fields']:
        ty = x['type'].replace('const ', '')
        if SCALAR.match(ty) or ty.endswith('*') or x.get('enum'):
            yield pre + (x['name'],), ty
        elif depth < 3 and ty in ctx.prog.records:
            yield from fields_of(ctx, ty, pre + (x['name'],), depth + 1)
    for b in r.get('bases') or ():
        b = b if isinstance(b, str) else b.get('type', '')
        yield from fields_of(ctx, b, pre, depth + 1)


def never(v, loc):
    """v is the value of loc before anything was stored there"""
    if v is None or v.op == 'undef':
        return True
    if v.op == 'sel':
        x = v
        while x.op == 'sel':
            x = x.args[0]
        return x.op == 'fresh' or x.op == 'agg' and x.args[0].op == 'fresh'
    if v.op == 'init':
        r = root(v.args[0])
        return v.args[0] is loc or r.op == 'var' and r.args[1] < 0
    return False


def open_in(F, v, loc, depth=0):
    """v may be a value nothing was ever stored in, when F returns without failing"""
    if never(v, loc):
        return True
    if v.op == 'phi' and v in F.phis and depth < 6:
        for k, x in F.phis[v].items():
            if F.E.get(k) is None or not open_in(F, x, loc, depth + 1):
                continue
            r = F.phis[F.ret].get(k) if F.ret is not None and F.ret.op == 'phi' and F.ret in F.phis else None
            if r is not None and (r is NULL or r is C(0) or r.op == 'fail'):
                continue
            R = F.assume(k[0].succs[k[1]][0], list(F.E[k]))
            if any(a.op != 'fail' and a is not NULL for a in (R.accepts() or ({C(0)} if F.ret is None and F.exit in R.nodes else ()))):
                return True
    return False


def parts(ctx, t, depth=0):
    """the classes an object of type t is made of"""
    t = re.sub(r'^(const|struct|class) ', '', t or '').strip()
    r = ctx.prog.records.get(t)
    out = {t}
    if r is not None and depth < 4:
        for x in [x['type'] for x in r['fields']] + [b if isinstance(b, str) else b.get('type') for b in r.get('bases') or ()]:
            out |= parts(ctx, x, depth + 1)
    return out


def at_path(obj, path):
    for p in path:
        obj = fld(obj, p)
    return obj


def left_open(ctx, t, memo):
    """members the constructors of t may leave without a value"""
    if t not in memo:
        cs = [f for f in ctx.prog.functions.values() if f.get('ctor') and f.get('clst') == t and f.get('blocks') and
              not f.get('copyctor') and not f.get('movector')]
        paths = [p for p, ty in fields_of(ctx, t)]
        if not cs:
            memo[t] = paths
        else:
            memo[t] = []
            for f in cs:
                F = ctx.flow(f)
                this = F.field('x').args[0]
                for p in paths:
                    v = F.final(at_path(this, p))
                    if p not in memo[t] and never(v, at_path(this, p)):
                        memo[t].append(p)
    return memo[t]


def members(ctx, fs):
    seen, memo = set(), {}
    for g in fs:
        news = [e for e in g['emap'].values() if e['k'] == 'new']
        if not news:
            continue
        G = ctx.flow(g)
        for e in G.events:
            if e.kind != 'new' or e.frame is not G.frames[0] or e.val is None:
                continue
            if (e.e or {}).get('array'):
                continue
            obj = deref(e.val)
            t = re.sub(r'^(const|struct|class) ', '', e.name)
            op = left_open(ctx, t, memo)
            seen |= parts(ctx, t)
            for path, ty in fields_of(ctx, t):
                seen.add(t)
                loc = at_path(obj, path)
                v = G.final(loc)
                bad = path in op and open_in(G, v, loc)
                ctx.check('member', '%s/%s.%s' % (nick(g), t, '.'.join(path)), not bad, e.e.get('loc') or g['loc'],
                          '%s of the %s created in %s has no value' % ('.'.join(path), t, g['n']))
    # constructors that leave something open, of objects that are never created by new
    for f in fs:
        t = f.get('clst')
        if not f.get('ctor') or f.get('copyctor') or f.get('movector') or f.get('defaulted') or t in seen:
            continue
        fields = [x for x in fields_of(ctx, t)]
        F = ctx.flow(f)
        this = F.field('x').args[0]
        got = {}
        for path, ty in fields:
            loc = at_path(this, path)
            v = F.final(loc)
            got[path] = not never(v, loc)
        if any(got.values()):
            for path, ok in sorted(got.items()):
                ctx.check('member', '%s/%s' % (nick(f), '.'.join(path)), ok or based(ctx, t), f['loc'],
                          'a %s is constructed without a value for %s' % (t, '.'.join(path)))


def based(ctx, t):
    """t only serves as a base of other classes"""
    ds = [r for r in ctx.prog.records.values() if t in [b if isinstance(b, str) else b.get('type') for b in r.get('bases') or ()]]
    return bool(ds)


def kind_of(F, r):
    for fr in F.frames:
        if fr.cid == r.args[0]:
            if r.args[1] < 0:
                return 'temp'
            return fr.fn['vars'].get(str(r.args[1]), {}).get('k')
    return None


from terms import children as parts_of


# ------------------------------------------------------------------ locals
def local(ctx, f):
    if 'SRFFT' in f['q'] or not any(e['k'] == 'decl' and e.get('init') is None for e in f['emap'].values()):
        return None
    F = ctx.flow(f)

    def raw(x):
        if x.op == 'undef':
            u = x.args[0]
            return getattr(u, 'cid', 0) == 0
        if x.op == 'init' and x.args[0] is not root(x.args[0]):
            r = root(x.args[0])
            return r.op == 'var' and r.args[0] == 0 and kind_of(F, r) == 'local'
        return False
    # values that may be the unset one on some way
    open_, ahead = {}, {}

    def after(k):
        """what can follow this way into a merge"""
        if k not in ahead:
            tgt = k[0].succs[k[1]][0]
            same = [eq(q, F.phis[q][k]) for q in F.at(tgt) if q in F.phis and F.phis[q].get(k) is not None and
                    not raw(F.phis[q][k]) and F.phis[q][k].op not in ('agg', 'str')]
            ahead[k] = F.assume(tgt, list(F.E.get(k) or ()) + [x for x in same if not is_c(x)])
        return ahead[k]

    def still(x, k):
        """x, unset, may flow along k"""
        return raw(x) or x in open_ and any(k in after(k1).edges for k1 in open_[x])
    changed = True
    while changed:
        changed = False
        for p, ins in F.phis.items():
            if p in open_:
                continue
            ks = [k for k, x in ins.items() if F.E.get(k) is not None and still(x, k)]
            if ks:
                open_[p] = ks
                changed = True

    memo = {}

    def suspicious(t):
        """t contains such a value"""
        r = memo.get(t)
        if r is None:
            r = memo[t] = raw(t) or t in open_ or any(suspicious(x) for x in parts_of(t))
        return r

    def check(t, node, what):
        if not suspicious(t):
            return None
        for x in walk(t):
            if raw(x):
                return F.where(node) if hasattr(F, 'where') else f['loc'], '%s is used before it has a value (%s)' % (show(x)[:60], what)
            if x in open_ and (x is t or x.op == 'phi') and node is not None:
                for k in open_[x]:
                    tgt = k[0].succs[k[1]][0]
                    R = after(k)
                    if node is tgt or node in R.nodes:
                        return f['loc'], '%s may be used before it has a value (%s)' % (show(x)[:60], what)
        return None
    for e in F.events:
        if e.kind in ('decl', 'enter', 'leave', 'access', 'dtor', 'return'):
            continue
        for t in list(e.args) + [e.val if e.kind in ('store', 'index') else None]:
            if t is not None and t.op not in ('agg',):
                if e.kind == 'store' and (t.op == 'undef' or t.op == 'phi'):
                    continue        # copied about, not used
                r = check(t, e.node, e.name or e.kind)
                if r:
                    return (e.e.get('loc') or r[0]) if e.e else r[0], r[1]
    for k, t in F.econd.items():
        if F.feasible(k[0]):
            r = check(t, k[0], 'a condition')
            if r:
                return r
    if F.ret is not None:
        vs = [F.ret]
        for v in vs:
            if raw(v) or v in open_ and any(raw(x) for x in F.phis[v].values()):
                for k, x in (F.phis[v].items() if v.op == 'phi' else ()):
                    if raw(x) and F.E.get(k) is not None:
                        return f['loc'], 'the value returned may never have been set'
                if raw(v):
                    return f['loc'], 'the value returned has never been set'
    return None


# ------------------------------------------------------------------ contents
def contents(ctx, f):
    F = ctx.flow(f, inline=lambda t: False, extra=SUMMARY, key='s02')

    memo = {}

    def has(t):
        r = memo.get(t)
        if r is None:
            memo[t] = False
            r = memo[t] = t.op == 'any' or any(has(x) for x in parts_of(t)) or t.op == 'phi' and t in F.phis and any(
                F.E.get(k) is not None and has(x) for k, x in F.phis[t].items())
        return r

    def raw(t):
        return next((x for x in walk(t) if x.op == 'any'), t) if has(t) else None
    blank = {}
    for e in F.events:
        if e.kind in ('ctor', 'decl') and e.val is not None and raw(e.val) is not None:
            if e.where is not None:
                blank[e.where] = e
            continue
        if e.kind in ('access', 'leave', 'enter', 'decl'):
            continue
        if e.kind == 'call' and last(e.name) == 'Resize' and len(e.args) > 1 and e.obj is not None:
            blank[e.obj] = e
        for t in list(e.args) + [e.val]:
            if t is not None and raw(t) is not None:
                return (e.e.get('loc') if e.e else f['loc']), 'the contents of %s are used, which it was sized without' % show(raw(t))[:60]
    for k, t in F.econd.items():
        if raw(t) is not None:
            return f['loc'], 'a condition depends on the contents of a vector sized without them'
    if F.ret is not None and raw(F.ret) is not None:
        return f['loc'], 'the result depends on the contents of a vector sized without them'
    # handed on by address: the first to get it has to fill it
    for loc, e in blank.items():
        if e.kind == 'call':
            continue
        uses = [x for x in F.events if x.kind == 'call' and any(a.op == 'addr' and a.args[0] is loc for a in x.args) and
                F.dominates(e.node, x.node)]
        for x in uses:
            if any(y is not x and (F.dominates(y.node, x.node) and y.node is not x.node or y.node is x.node and y.seq < x.seq) for y in uses):
                continue
            i = [j for j, a in enumerate(x.args) if a.op == 'addr' and a.args[0] is loc]
            for t in ctx.prog.targets(x.e):
                for j in i:
                    w = fills(ctx, t, j)
                    if w:
                        return x.e.get('loc') or f['loc'], '%s is handed to %s without contents, but %s' % (show(loc), t['n'], w)
    return None


def fills(ctx, f, j, depth=0):
    """'' if f writes every element of the vector its j-th parameter points to before reading any"""
    if 'SRFFT' in f['q'] or not f.get('blocks'):
        return ''
    F = ctx.flow(f, inline=lambda t: False, extra=SUMMARY, key='s02')
    ptr = F.paramval(j)
    vec = F.paramobj(j)
    whole = init_of(vec)
    parts, calls = [], []
    for e in F.events:
        if e.kind in ('access', 'enter', 'leave', 'decl'):
            continue
        if e.kind == 'call' and last(e.name) in ('Dim', '__assert_fail', 'NumRows', 'NumCols', 'Data', 'Range'):
            continue
        if e.kind == 'call' and e.obj is vec and last(e.name) in ('CopyFromVec', 'SetZero', 'Set', 'Read'):
            parts.append((C(0), None, e.node))
        elif e.kind == 'call' and last(e.name) == 'CopyFromVec' and e.obj is not None:
            at, off, dim = view_of(F, e)
            if at is not None and at.op == 'addr' and root(at.args[0]) is root(vec) and at.args[0].args[0] is vec:
                parts.append((off, add(off, dim), e.node))
        elif e.kind == 'store' and e.where is not None and e.where.op == 'el' and e.where.args[0].op == 'fld' and \
                e.where.args[0].args[0] is vec:
            parts.append(('loop', e, e.node))
        elif e.kind == 'call' and any(a is ptr for a in e.args):
            for t in ctx.prog.targets(e.e):
                calls.append((e, t, [i for i, a in enumerate(e.args) if a is ptr][0]))
        elif e.kind == 'call' and e.obj is vec and last(e.name) == 'operator()':
            continue
    if not parts and not calls and any(e.kind == 'call' and last(e.name) == 'Data' and e.obj is vec for e in F.events):
        return ''       # room for the transform to work in
    if not parts and calls:
        first = min(calls, key=lambda c: (c[0].seq if hasattr(c[0], 'seq') else 0))
        for c in calls:
            if all(c is d or F.dominates(c[0].node, d[0].node) for d in calls):
                first = c
        return fills(ctx, first[1], first[2], depth + 1) if depth < 5 else 'it is unclear who fills it'
    dim = next((e.val for e in F.events if e.kind == 'call' and last(e.name) == 'Dim' and e.obj is vec), None)
    have = C(0)
    todo = list(parts)
    while todo:
        n = len(todo)
        for x in list(todo):
            if x[0] == 'loop':
                idx = x[1].where.args[1]
                for hi in ends(F, dim, x[2]):
                    if not loops.covers(F, x[2], idx, have, hi, lambda k: aborts(F, k)):
                        if full(F, hi, dim):
                            return ''
                        have = hi
                        todo.remove(x)
                        break
            elif x[0] is have or F.decide(eq(x[0], have), F.facts(x[2])) is True:
                if x[1] is None or full(F, x[1], dim):
                    return ''
                have = x[1]
                todo.remove(x)
        if len(todo) == n:
            break
    return 'only its elements up to %s are certain to be filled' % show(have)


def ends(F, dim, node):
    """where a loop may end"""
    H = loops.rounds(F, node)
    if not H:
        return
    seen = set()
    for k, t in F.econd.items():
        for x in walk(t):
            if x.op in ('lt0', 'le0'):
                for y in F.at(H[0]):
                    for s in (add(y, x.args[0], -1), add(y, x.args[0])):
                        if s not in seen and not any(z is y for z in walk(s)):
                            seen.add(s)
                            yield s


def full(F, hi, dim):
    if dim is None:
        return False
    if hi is dim or hi.op == 'm' and hi.args[0] == 'Dim' and dim.op == 'm':
        return True
    return F.decide(eq(hi, dim), F.facts(F.exit)) is True


def view_of(F, e):
    v = F.load(F.endst[e.node], e.obj) if e.obj.op == 'var' else None
    at = off = dim = None
    if v is not None:
        at, off, dim = sel(v, '#at'), sel(v, '#off'), sel(v, 'dim_')
    return at, off, dim


def init_of(loc):
    return T('init', loc)
