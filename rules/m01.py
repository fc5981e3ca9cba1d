"""Every resource is released exactly once."""
from rules.history import *
from flow import bare

MADE = {'malloc': 'malloc', 'calloc': 'malloc', 'realloc': 'malloc', 'strdup': 'malloc', 'posix_memalign': 'malloc',
        'aligned_alloc': 'malloc', 'fopen': 'fopen', 'fdopen': 'fopen', 'freopen': 'fopen', 'tmpfile': 'fopen',
        'operator new': 'operator new', 'operator new[]': 'operator new[]', 'ce_stt_init': 'recognizer', 'ce_utt_init': 'utterance'}
GONE = {'free': 'malloc', 'fclose': 'fopen', 'operator delete': 'operator new', 'operator delete[]': 'operator new[]',
        'delete': 'new', 'delete[]': 'new[]', 'ce_stt_destroy': 'recognizer', 'ce_utt_destroy': 'utterance'}
WORD = {'malloc': 'malloc', 'fopen': 'fopen', 'new': 'new', 'new[]': 'new[]', 'operator new': 'operator new',
        'operator new[]': 'operator new[]'}
OPS = {'operatornew': 'operator new', 'operatornew[]': 'operator new[]', 'operatordelete': 'operator delete',
       'operatordelete[]': 'operator delete[]'}


def lib(n):
    """the plain name of a library function"""
    n = re.sub('^(std)?::', '', n or '')
    return OPS.get(n, n)


def run(ctx):
    ctx.rule('kept', 'what is allocated has one owner or is released, on every path', 8)
    ctx.rule('once', 'what an object owns is neither lost nor released twice when it changes or ends', 20)
    ctx.rule('form', 'everything is released by the operation that matches its allocation', 6)
    ctx.rule('defined', 'what is released has been set', 8)
    ctx.rule('base', 'what is released through a base class has a virtual destructor', 1)
    ctx.rule('copies', 'an owner is never copied member by member', 6)
    ctx.rule('borrowed', 'a file that belongs to the caller is left open', 1)
    ctx.rule('blocks', 'every element of an owned table is released with it', 2)
    O = Owners(ctx)
    for f in O.roots():
        O.judge(f)
    forms(ctx, O)
    bases(ctx)
    O.hold = tables(ctx, O)
    copies(ctx, O)
    borrowed(ctx, O)


def table(f):
    t = f.get('_els')
    if t is None:
        t = f['_els'] = {e['i']: e for b in f['blocks'] for e in b['elems'] if 'i' in e}
    return t


def uses(f):
    """(what, element) of the allocations and releases in f"""
    for e in table(f).values():
        if e['k'] == 'new' and not e.get('placement'):
            yield ('new[]' if e.get('array') else 'new'), e
        elif e['k'] == 'delete':
            yield ('delete[]' if e.get('array') else 'delete'), e
        elif e['k'] == 'call':
            n = lib(e.get('n'))
            if n in MADE or n in GONE:
                yield n, e


def strip(f, i):
    while i in table(f) and table(f)[i]['k'] in ('cast', 'paren'):
        i = table(f)[i].get('a')
    return table(f).get(i)


def locals_of(f):
    """the local variables of f that memory is put into"""
    out, t = set(), table(f)
    fresh = {id(x) for n, x in uses(f) if n in MADE or n in ('new', 'new[]')}
    for n, e in uses(f):
        if n == 'posix_memalign':
            r = strip(f, e['args'][0])
            r = strip(f, r['a']) if r is not None and r['k'] == 'un' else None
            out |= {r['var']} if r is not None and r['k'] == 'var' else set()
    for e in t.values():
        if e['k'] == 'decl' and e.get('init') is not None and id(strip(f, e['init'])) in fresh:
            out.add(e['var'])
        elif e['k'] == 'assign' and 'op' not in e and id(strip(f, e['b'])) in fresh:
            r = strip(f, e['a'])
            out |= {r['var']} if r is not None and r['k'] == 'var' else set()
    return out


def holder(f, e):
    """the class that owns what the member expression e names: (class, field)"""
    if e is None or e['k'] != 'member' or not e.get('ft', '').endswith('*'):
        return None
    rec = e.get('rec', '')
    own = f.get('clst') or f.get('cls')
    base = strip(f, e['base'])
    if own and base is not None and base['k'] == 'this':
        rec = bare(own)
    return rec, e['field']


class Owners:
    def __init__(self, ctx):
        self.ctx = ctx
        self.fields, self.touch, self.flags, self.lent = {}, {}, {}, {}
        for f in self.sources():
            holding = locals_of(f)
            for n, e in uses(f):
                self.touch[f['key']] = f
                if n in GONE:
                    x = strip(f, e['a'] if e['k'] == 'delete' else e['args'][0])
                    self.note(holder(f, x))
                    self.through(f, x)
            for e in table(f).values():
                if e['k'] == 'assign' and 'op' not in e:
                    r = strip(f, e['b'])
                    if r is not None and (any(r is x for n, x in uses(f) if n in MADE or n in ('new', 'new[]')) or
                                          r['k'] == 'var' and r['var'] in holding):
                        self.note(holder(f, strip(f, e['a'])))
        for f in self.sources():
            for e in table(f).values():
                ps = self.lent.get(e['f'].get('m')) if e['k'] == 'call' and e.get('f') else None
                for j in ps or ():
                    x = strip(f, e['args'][j])
                    if x is not None and x['k'] == 'un' and x.get('op') == '&':
                        x = strip(f, x['a'])
                    self.note(holder(f, x))
                    self.touch[f['key']] = f
        for f in self.sources():
            c = bare(f.get('clst') or f.get('cls') or '')
            if c in self.fields and not f['m'].startswith('_ZNK') and any(
                    (holder(f, e) or (0, 0))[1] in self.fields[c] for e in table(f).values()):
                self.touch[f['key']] = f
        for f in self.sources():
            if f.get('dtor') and bare(f.get('clst') or f.get('cls') or '') in self.fields:
                self.touch[f['key']] = f
        for f in self.sources():
            if not f.get('cls') and self.set_by(f):
                self.touch[f['key']] = f
        self.names = {n for fs in self.fields.values() for n in fs}
        for t, r in ctx.prog.records.items():
            if bare(t) in self.fields:
                for x in r['fields']:
                    if x['type'] == 'bool' and 'own' in x['name']:
                        self.flags[bare(t)] = x['name']
        self.memo = {}

    def sources(self):
        return self.ctx.ours()

    def note(self, h):
        if h is not None and h[0]:
            self.fields.setdefault(h[0], set()).add(h[1])

    # -- which functions answer for themselves
    def set_by(self, f):
        return any(e['k'] == 'assign' and (holder(f, strip(f, e['a'])) or (0, 0))[1] in self.fields.get(
            (holder(f, strip(f, e['a'])) or (0, 0))[0], ()) for e in table(f).values())

    def through(self, f, x):
        """what is released is reached through a parameter of a helper"""
        if x is not None and x['k'] == 'un' and x.get('op') == '*':
            x = strip(f, x['a'])
        if x is not None and x['k'] == 'var' and x['var'] in f['params'] and not f.get('cls'):
            t = f['pt'][f['params'].index(x['var'])]
            if t.count('*') + t.count('&') > 1:
                self.lent.setdefault(f['m'], set()).add(f['params'].index(x['var']))

    def roots(self):
        return sorted(self.touch.values(), key=lambda f: (f['q'], f['m']))

    def flow(self, f, chain):
        keys = frozenset(chain)
        cs = {bare(self.ctx.prog.functions[k].get('clst') or self.ctx.prog.functions[k].get('cls') or '-') for k in keys}
        for c in list(cs):
            cs |= {bare(b) for b in self.ctx.prog.records.get(c, {}).get('bases', ())}
        inl = lambda t: t['key'] in self.touch or t['key'] in keys or bare(t.get('clst') or t.get('cls') or '?') in cs
        program = [n for n in API if n.startswith('ce_')] if f['loc'].startswith('main.') else []
        return self.ctx.flow(f, stop=program, inline=inl, key=('m01',) + tuple(sorted(keys)), counting=self.fields)

    def judge(self, f):
        ctx = self.ctx
        res = self.settled(f, (f['key'],))
        label = short(f) if not f.get('clst') else '%s::%s' % (bare(f['clst']).replace(PK, ''), f['n'].split('::')[-1])
        for rule, inst, ok, at, msg in res:
            ctx.check(rule, '%s/%s' % (label, inst), ok, at, msg)

    def settled(self, f, chain):
        """the obligations of f, alone or, while some of them depend on the caller, within its callers"""
        res = self.obligations(f, chain)
        if all(r[2] for r in res) or f.get('dtor') or len(chain) > 3:
            return res
        c = f.get('clst') or f.get('cls')
        ups = [u for u in self.ctx.callers(f) if u['key'] not in chain]
        if not ups or short(f) in API or any((u.get('clst') or u.get('cls')) != c for u in ups):
            return res
        out = []
        for u in ups:
            out += self.settled(u, chain + (u['key'],))
        return out

    def obligations(self, f, chain):
        F = self.flow(f, chain)
        res = list(conserved(self, F))
        if bare(f.get('clst') or f.get('cls') or '-') in self.flags and any(not r[2] and r[0] == 'once' for r in res):
            bad = self.reopened(f)
            if bad is not None:
                res = [r for r in res if r[0] != 'once'] + bad
        return res

    def reopened(self, f):
        """a resource is only taken by an object that holds none yet: decided in the callers of f"""
        out = []
        c = bare(f.get('clst') or f.get('cls'))
        ups = [u for u in self.ctx.callers(f) if u.get('ours')]
        for u in ups:
            F = self.ctx.flow(u, inline=lambda t: bare(t.get('clst') or t.get('cls') or '-') == c, key='m01-' + c)
            n = 0
            for e in F.events:
                if e.kind == 'store' and e.where.op == 'fld' and e.where.args[1] in self.fields[c] and e.frame.fn is f and \
                        F.feasible(e.node) and norm(F, e.val).op != 'null':
                    n += 1
                    old = [v for (v,), fs in cases(F, (previous(F, e),), e.node) or [((T('undef', 0),), 0)]]
                    out.append(('once', short(u), all(v.op == 'null' for v in old), e.loc,
                                'the %s opened before is lost in %s' % (e.where.args[1], short(u))))
            if not n:
                return None
        return out if ups else None


def kind_of(F, e):
    if e.kind == 'new':
        return 'new[]' if e.e.get('array') else 'new'
    return MADE.get(lib(e.name))


def made(F):
    """[(event, value, kind)] of everything allocated"""
    out = []
    for e in F.events:
        if not F.feasible(e.node):
            continue
        if e.kind == 'new' and not e.e.get('placement'):
            out.append((e, e.val, kind_of(F, e)))
        elif e.kind == 'call' and kind_of(F, e):
            v = e.val
            if last(e.name) == 'posix_memalign':
                d = F.deref(e.args[0])
                v = F.load(F.endst[e.node], d) if d is not None else None
                if v is None:
                    continue
            out.append((e, v, kind_of(F, e)))
    return out


def managed(F, e, v):
    """it goes straight into a smart pointer"""
    return any(x.kind == 'ctor' or x.kind == 'call' for x in F.events if x.node is e.node and x.seq > e.seq and
               'unique_ptr' in (x.name or '') and any(a is v for a in (x.args or ()))) 


def conserved(O, F):
    """(rule, instance, holds, where, message)"""
    f = F.root
    end = F.endst[F.exit] if F.exit in F.endst else None
    if end is None:
        return
    me = F.field('x').args[0] if f.get('cls') and not f.get('static') else None
    mine = O.fields.get(bare(f.get('clst') or f.get('cls') or '-'), set()) if me is not None else set()
    objs = {}
    own = bare(f.get('clst') or f.get('cls') or '')
    ok = lambda c: c == own if own else c in ctx_records(O) and not ctx_records(O)[c]['user_dtor']
    if me is not None and mine:
        objs[me] = mine
    for i, t in enumerate(f.get('pt') or ()):
        c = bare(t.replace('*', '').replace('&', ''))
        if c in O.fields and ok(c) and ('*' in t or '&' in t):
            objs[F.paramobj(i)] = O.fields[c]
    news = [x for x in made(F) if x[1] in F.obtained and not managed(F, x[0], x[1])]
    locs = [l for l in end if l.op == 'fld' and l.args[1] in O.names and l.args[0].op != 'var']
    for o, fs in objs.items():
        locs += [fld(o, x) for x in sorted(fs) if fld(o, x) not in locs]
    ghosts = [(v, g) for v, g in F.released.items() if not any(x.op == 'phi' and F.defnode.get(x) in F.loops() for x in walk(v))]
    terms = tuple(F.load(end, l) for l in locs) + tuple(F.load(end, g) for v, g in ghosts) + tuple(v for v, g in ghosts) + tuple(
        F.load(end, F.obtained[v]) for e, v, k in news) + (F.ret if F.ret is not None else C(0),)
    cs = cases(F, terms, F.exit, limit=400)
    if cs is None:
        yield 'kept', 'followed', False, f['loc'], 'what happens to the allocated memory could not be followed'
        return
    nl, ng = len(locs), len(ghosts)
    for vals, fs in cs:
        held, times, what, ret = vals[:nl], vals[nl:nl + ng], vals[nl + ng:nl + 2 * ng], vals[-1]
        known = frozenset(fs)
        held = tuple(apart(h) for h in held)

        def zero(v):
            return v.op == 'null' or v.op == 'sel' and v.args[0] is T('memset', C(0)) or F._prove(eq(v, NULL), known, 3, {}, F.exit)

        def released(v):
            n = 0
            for t, w in zip(times, what):
                if w is v:
                    t = subst(t, {x: C(0) for x in walk(t) if x.op == 'init' and x.args[0].op == 'var'})
                    n = n + t.args[0] if t.op == 'c' else None
                    if n is None:
                        return None
            return n

        def lives(o):
            if o is me and f.get('dtor'):
                return False
            p = pointer(o)
            return not (p is not None and released(p))

        def owners(v):
            return sum(1 for l, h in zip(locs, held) if h is v and lives(l.args[0]))

        def count(v):
            r = released(v)
            return None if r is None else r + owners(v) + (ret is v)
        for e, v, k in news:
            if vals[nl + 2 * ng + news.index((e, v, k))] is not C(1) or entry(F, v) or inner(O, F, e):
                continue
            n = count(v)
            if n == 0 and (zero(v) or failed(F, e, known)):
                continue
            yield 'kept', '%s' % (e.name or 'memory').replace(PK, ''), n == 1, e.loc, \
                'what is allocated here is lost' if not n else 'what is allocated here has %d owners' % n
        for t, w in zip(times, what):
            if t is not C(0) and t.op != 'init' and undefined(w):
                yield 'defined', 'released', False, f['loc'], 'something is released that was never set'
            elif t is not C(0) and t.op != 'init':
                yield 'defined', 'released', True, f['loc'], ''
        if short(f) in API and short(f).endswith('_destroy'):
            if not zero(F.paramval(0)):
                yield 'once', 'object', released(F.paramval(0)) == 1, f['loc'], 'the object itself is not released once'
        for o, names in objs.items():
            if o is me and f.get('ctor'):
                for x in sorted(names):
                    h = held[locs.index(fld(o, x))]
                    yield 'defined', x, h is not T('init', fld(o, x)) and h.op != 'fresh', f['loc'], \
                        '%s is never set' % x
                continue
            for x in sorted(names):
                v = T('init', fld(o, x))
                if zero(v):
                    continue
                n = count(v)
                flag = O.flags.get(bare((f.get('clst') or f.get('cls') or '') if o is me else '-'))
                if flag and f.get('dtor'):
                    w = T('init', fld(o, flag))
                    if F._prove(NOT(w), known, 3, {}, F.exit):
                        yield 'borrowed', '%s' % x, n == 0, f['loc'], 'what is only borrowed is released'
                        continue
                    if n and not F._prove(w, known, 3, {}, F.exit):
                        yield 'borrowed', '%s' % x, False, f['loc'], 'it is released whether it is borrowed or not'
                        continue
                    if n == 0 and close(F, set(known) | {NOT(eq(v, NULL)), w}) is False:
                        continue
                yield 'once', x, n == 1, f['loc'], \
                    'the %s of before is lost' % x if not n else 'the %s of before is released or owned %s times' % (x, n)


def apart(h):
    """what a location holds when the objects that are handed over are different ones"""
    while h.op == 'may':
        h = h.args[0]
    return h


def ctx_records(O):
    return O.ctx.prog.records


def pointer(o):
    """the pointer whose target the location o is"""
    return o.args[0] if o.op in ('deref', 'obj', 'mem') else None


def failed(F, e, known):
    """the allocation gave nothing"""
    r = e.val
    return last(e.name) == 'posix_memalign' and r is not None and not F._prove(eq(r, C(0)), known, 3, {}, F.exit)


def previous(F, s):
    older = [e for e in F.events if e.kind == 'store' and e.where is s.where and e.node is s.node and e.seq < s.seq]
    return older[-1].val if older else F.load(F.instate[s.node], s.where)


def inner(O, F, e):
    """it belongs to another class, and is judged there"""
    c = bare(e.frame.fn.get('clst') or e.frame.fn.get('cls') or '-')
    return c in O.fields and c != bare(F.root.get('clst') or F.root.get('cls') or '-')


def entry(F, v):
    """it is stored as an element of a table"""
    return any(e.kind == 'store' and e.where is not None and e.where.op == 'el' and norm(F, e.val) is v for e in F.events)


def undefined(v):
    while v.op == 'sel':
        v = v.args[0]
    return v.op in ('fresh', 'undef') or v.op == 'init' and v.args[0].op == 'fld' and v.args[0].args[0].op == 'deref' and \
        v.args[0].args[0].args[0].op == 'new'


# ------------------------------------------------------------------ matching operations
def names_of(F, v, seen=()):
    """the fields a value was read from; elements of a table get []"""
    if v.op == 'sel':
        return {v.args[1]}
    if v.op == 'init' and v.args[0].op == 'fld':
        return {v.args[0].args[1]}
    if v.op in ('init', 'ld') and (v.op == 'ld' or v.args[0].op == 'el'):
        b = v.args[0].args[0] if v.op == 'init' else v.args[0]
        for x in walk(b):
            if x.op == 'fld' and not x.args[1].startswith('#'):
                return {x.args[1] + '[]'}
            if x.op == 'sel' and not str(x.args[1]).startswith('#'):
                return {x.args[1] + '[]'}
    if v in F.phis and v not in seen:
        return {n for x in F.phis[v].values() for n in names_of(F, x, seen + (v,))}
    if v.op == 'may':
        return names_of(F, v.args[0], seen)
    return set()


def forms(ctx, O):
    kinds, ends = {}, []
    lent, seen = set(), set()
    for f in O.roots():
        F = O.flow(f, (f['key'],))
        ps = [deref(F.paramval(i)) for i in range(len(F.root['params']))]
        for e in F.events:
            if e.frame.fn is not f and F.feasible(e.node):
                seen.add(e.frame.fn['key'])
            if e.frame.fn is f and (e.kind == 'delete' or e.kind == 'call' and lib(e.name) in GONE) and e.args and \
                    any(place(F, norm(F, e.args[0])) is x for x in ps):
                lent.add(f['key'])
    # what a helper releases through a pointer to the owner is judged where the helper is used
    lent &= seen
    for f in O.roots():
        F = O.flow(f, (f['key'],))
        own = {v: k for e, v, k in made(F)}
        end = F.endst.get(F.exit, ())
        for l in end:
            if l.op == 'fld' and l.args[1] in O.names and own:
                v = F.load(end, l)
                got = {own[x] for x in [v] + list(F.phis.get(v, {}).values()) if x in own}
                cs = [bare(f.get('clst') or f.get('cls') or '')] + [bare(t.replace('*', '').replace('&', '')) for t in f.get('pt') or ()]
                for c in cs:
                    if got and l.args[1] in O.fields.get(c, ()):
                        kinds.setdefault((c, l.args[1]), set()).update(got)
        for e in F.events:
            if not F.feasible(e.node) or e.frame.fn is not f and e.frame.fn['key'] in O.touch and e.frame.fn['key'] not in lent or \
                    e.frame.fn is f and f['key'] in lent:
                continue
            c = bare(e.frame.fn.get('clst') or e.frame.fn.get('cls') or '')
            if e.kind == 'store' and e.val in own and e.where is not None:
                if e.where.op == 'fld':
                    kinds.setdefault((c, e.where.args[1]), set()).add(own[e.val])
                elif e.where.op == 'el':
                    for n in names_of(F, T('init', e.where)):
                        kinds.setdefault((c, n), set()).add(own[e.val])
            elif e.kind == 'delete' or e.kind == 'call' and lib(e.name) in GONE:
                ends.append((F, c, e, norm(F, e.args[0]), own))
    for F, c, e, v, own in ends:
        k = GONE[lib(e.name)]
        label = '%s/%s' % (short(F.root), e.name)
        if v.op == 'null':
            continue
        got = {own[x] for x in ([v] + list(F.phis.get(v, {}).values())) if x in own}
        ns = names_of(F, v)
        for n in ns:
            got |= kinds.get((c, n)) or {y for (cc, nn), ks in kinds.items() if nn == n and not c for y in ks}
        if not got and c and ns:
            got = {y for (cc, nn), ks in kinds.items() if nn in ns and re.sub('<.*', '', cc) == re.sub('<.*', '', c) for y in ks}
        mine = bool(got) or bool(ns & O.names) or v is F.paramval(0) if F.root['params'] else bool(got) or bool(ns & O.names)
        elements = any(n.endswith('[]') or n == '#data' for n in ns) or 'ld' == v.op or 'buf' in show(v)
        ctx.check('form', label, mine or elements, e.loc, 'something is released that is not owned here')
        if got:
            ctx.check('form', label, got == {k}, e.loc, 'memory from %s is released by %s' % (' or '.join(sorted(got)), e.name))
        elif not elements:
            ctx.check('form', label, k == 'new', e.loc, 'an object is released by %s' % e.name)


def bases(ctx):
    P = ctx.prog
    derived = {}
    for t, r in P.records.items():
        for b in r['bases']:
            derived.setdefault(bare(b), []).append(t)
    for t in sorted(derived):
        r = P.records.get(t)
        if r is None or not r['polymorphic']:
            continue
        used = any(re.search(r'unique_ptr<%s\b' % re.escape(t), x['type']) or 'shared_ptr' in x['type'] and t in x['type']
                   for q in P.records.values() for x in q['fields'])
        used |= any(e['k'] == 'delete' and bare(e.get('dt') or '') == t for f in ctx.ours() for e in table(f).values())
        if used:
            ctx.check('base', t.replace(PK, ''), r['virtual_dtor'], r['loc'], '%s is released through a base without a virtual destructor'
                      % derived[t][0].replace(PK, ''))


def copies(ctx, O):
    P = ctx.prog
    made_ = {}
    for f in P.functions.values():
        if (f.get('implicit') or f.get('defaulted')) and (f.get('copyctor') or f.get('copyassign')):
            made_.setdefault(bare(f.get('clst') or f.get('cls') or ''), f)
    for c in sorted(set(O.fields) | O.hold):
        f = made_.get(c)
        r = P.records.get(c)
        ctx.check('copies', c.replace(PK, ''), f is None, r['loc'] if r else '',
                  'an object that owns memory is copied member by member')
    # smart pointers forbid copies by themselves; released ones have to be owned again
    for f in O.sources():
        for e in table(f).values():
            if e['k'] == 'call' and (e.get('n') or '').startswith('std::unique_ptr') and e['n'].endswith('::release'):
                used = any(x['k'] in ('assign', 'ctor', 'decl') and e['i'] in reach(f, x) for x in table(f).values())
                ctx.check('kept', short(f) + '/release', used, f['loc'], 'what a smart pointer gives up is lost')


def reach(f, x):
    out = set()
    todo = [x.get('b'), x.get('init')] + list(x.get('args') or ())
    while todo:
        i = todo.pop()
        if isinstance(i, int) and i not in out:
            out.add(i)
            y = table(f).get(i, {})
            todo += [y.get('a')] if y.get('k') in ('cast', 'paren') else []
    return out


def borrowed(ctx, O):
    for c, flag in O.flags.items():
        for f in O.sources():
            if bare(f.get('clst') or f.get('cls') or '') != c or f.get('dtor'):
                continue
            F = O.flow(f, (f['key'],))
            if f.get('ctor'):
                for x in sorted(O.fields[c]):
                    for (v, w), fs in cases(F, (F.final(F.field(x)), F.final(F.field(flag))), F.exit) or []:
                        own = v.op in ('null', 'res')
                        ctx.check('borrowed', '%s/%d' % (short(f), len(f['params'])), w is C(1) if own else w is C(0), f['loc'],
                                  'a file that is opened here is taken for borrowed' if own else 'a borrowed file is taken for its own')
            else:
                for e in F.events:
                    if e.kind == 'store' and e.where is F.field(flag) and F.feasible(e.node):
                        ctx.check('borrowed', short(f) + '/flag', False, e.loc, 'who owns the file changes')
                    if e.kind == 'store' and e.where.op == 'fld' and e.where.args[1] in O.fields[c] and F.feasible(e.node) and \
                            norm(F, e.val).op not in ('null', 'res'):
                        ctx.check('borrowed', short(f) + '/taken', False, e.loc, 'a file of the caller is taken over')


# ------------------------------------------------------------------ tables of memory
def tables(ctx, O):
    done = set()
    for f in sorted(O.touch.values(), key=lambda f: f['m']):
        c = bare(f.get('clst') or f.get('cls') or '')
        if not c:
            continue
        F = O.flow(f, (f['key'],))
        for e in F.events:
            if not F.feasible(e.node):
                continue
            n = None
            own = {v: k for x, v, k in made(F)}
            if e.kind == 'store' and e.where is not None and e.where.op == 'el' and e.val in own:
                ns = names_of(F, T('init', e.where)) | {x.where.args[1] + '[]' for x in F.events if x.kind == 'store' and
                                                        x.where.op == 'fld' and x.val in set(walk(e.where))}
                for n in ns:
                    element(ctx, O, F, f, c, n[:-2], e, norm(F, e.where.args[1]), own[e.val])
            elif e.kind == 'call' and last(e.name) in ADDS and e.args and allocated(e.args[0]) and hidden(e.obj) and \
                    e.obj == F.field(hidden(e.obj)):
                if (c, hidden(e.obj)) not in done:
                    done.add((c, hidden(e.obj)))
                    pushed(ctx, O, F, f, c, hidden(e.obj), e)
    return {c for c, n in done}


def allocated(v):
    return v.op == 'fn' and str(v.args[0]).replace(' ', '') in ('operatornew', 'operatornew[]')


def hidden(l):
    return l.args[1] if l is not None and l.op == 'fld' else None


def ends_of(ctx, O, c):
    """destructor of c"""
    return next((g for g in ctx.ours() if g.get('dtor') and bare(g.get('clst') or g.get('cls') or '') == c), None)


def sizes_of(ctx, c):
    r = ctx.prog.records.get(c, {'fields': ()})
    return [x['name'] for x in r['fields'] if x['type'] in ('int', 'size_t', 'unsigned int', 'unsigned long', 'long')]


def element(ctx, O, F, f, c, n, e, i, kind):
    g = ends_of(ctx, O, c)
    if not ctx.check('blocks', c + '/' + n, g is not None, f['loc'], 'the memory in %s is never released' % n):
        return
    G = O.flow(g, (g['key'],))
    frees = [x for x in G.events if G.feasible(x.node) and (x.kind == 'delete' or x.kind == 'call' and lib(x.name) in GONE) and
             names_of(G, norm(G, x.args[0])) == {n + '[]'}]
    table_ = [x for x in G.events if G.feasible(x.node) and (x.kind == 'delete' or x.kind == 'call' and lib(x.name) in GONE) and
              names_of(G, norm(G, x.args[0])) == {n}]
    good = False
    for x in frees:
        v = norm(G, x.args[0])
        j = v.args[0].args[1] if v.op == 'init' else v.args[1]
        for s in sizes_of(ctx, c):
            for k in range(-8, 9):
                a = add(T('init', F.field(s)), C(k))
                b = add(T('init', G.field(s)), C(k))
                if not counted_at(F, e.node, i, a) and not counted_at(G, x.node, j, b) and steady(ctx, c, s, f):
                    good = True
        for t in table_:
            ctx.check('blocks', c + '/' + n + '/order', not G.evdom(t, x) and not reaches(G, t, x), x.loc,
                      'an entry is released after the table that holds it')
        ctx.check('blocks', c + '/' + n + '/form', GONE[lib(x.name)] == kind, x.loc, 'an entry is released in the wrong way')
    ctx.check('blocks', c + '/' + n + '/all', good, g['loc'], 'not exactly the entries of %s that were allocated are released' % n)
    if frees:
        held = T('init', G.field(n))
        heads = [h for x in frees for h in loops.rounds(G, x.node)]
        ctx.check('blocks', c + '/' + n + '/always', must_entry(G, [NOT(eq(held, NULL))], heads), g['loc'],
                  'the entries of %s may stay allocated' % n)


def reaches(G, t, x):
    return t.node is x.node and t.seq < x.seq or t.node is not x.node and G.assume(t.node, []).reached(x)


def counted_at(F, node, i, n):
    """i takes each value of [0, n) once; upwards or downwards"""
    if loops.header_phi(F, i) is None:
        return 'is not in a loop'
    return loops.covers(F, node, i, C(0), n, lambda k: aborts(F, k))


def steady(ctx, c, s, maker):
    """the field s only changes in constructors of c"""
    for g in ctx.ours():
        if bare(g.get('clst') or g.get('cls') or '') != c or g.get('ctor') or g.get('dtor'):
            continue
        for e in table(g).values():
            if e['k'] in ('assign', 'un') and (e['k'] == 'assign' or e.get('op') in ('++', '--')):
                m = strip(g, e['a'])
                if m is not None and m['k'] == 'member' and m['field'] == s:
                    return False
    return True


def drained(G, x, p, size):
    """the last element is released and taken away until there is none"""
    pops = [e for e in G.events if e.kind == 'call' and last(e.name) in ('pop_back', 'erase', 'clear', 'resize') and fld(e.obj, '#size') is size]
    if len(pops) != 1 or last(pops[0].name) != 'pop_back' or not (G.evdom(x, pops[0]) or G.evdom(pops[0], x)):
        return False
    end = G.load(G.endst[G.exit], size)
    now = end if p is add(end, C(-1)) else None
    return now is not None and now.op == 'phi' and G._prove(eq(now, C(0)), frozenset(G.facts(G.exit)), 3, {}, G.exit) and \
        set(G.phis[now].values()) <= {G.load(G.endst[k[0]] if isinstance(k, tuple) else now, size) for k in G.phis[now]}


def pushed(ctx, O, F, f, c, n, e):
    g = ends_of(ctx, O, c)
    if not ctx.check('blocks', c + '/' + n, g is not None, f['loc'], 'the memory in %s is never released' % n):
        return
    G = ctx.flow(g, stop=[(c.split('<')[0] + '::Clear')], key='m01-end')
    size = T('init', fld(G.field(n), '#size'))
    frees = [x for x in G.events if G.feasible(x.node) and (x.kind == 'delete' or x.kind == 'call' and lib(x.name) in GONE)]
    ok = False
    for x in frees:
        v = norm(G, x.args[0])
        p = v.args[0].args[1] if v.op == 'init' and v.args[0].op == 'el' else v.args[1] if v.op == 'ld' else None
        if p is None or n not in show(v):
            continue
        kind = 'operator new' if not str(e.args[0].args[0]).endswith('[]') else 'operator new[]'
        ctx.check('blocks', c + '/' + n + '/form', GONE.get(lib(x.name)) == kind, x.loc, 'a block is released in the wrong way')
        h = loops.header_phi(G, p)
        now = G.load(G.instate[G.defnode[h[0]]], fld(G.field(n), '#size')) if h else size
        ok = not counted_at(G, x.node, p, now) and must_entry(G, [], loops.rounds(G, x.node)) or drained(G, x, p, fld(G.field(n), '#size'))
    ctx.check('blocks', c + '/' + n + '/all', ok, g['loc'], 'not every block in %s is released once' % n)
