"""Garbage collection frees exactly the unreachable word history."""
from rules.pools import *


def run(ctx):
    ctx.rule('states', 'the states used, unmarked, marked and freed are told apart', 6)
    ctx.rule('roots', 'the collection starts from the history of every token that is alive', 3)
    ctx.rule('unmark', 'before marking, every node in use is unmarked, and only those', 3)
    ctx.rule('mark', 'exactly the roots and what they lead to is marked', 5)
    ctx.rule('sweep', 'every node in use that is not marked is collected once, and nothing else', 5)
    ctx.rule('unlink', 'a collected node is taken out of the index of a previous node that stays', 3)
    ctx.rule('index', 'a node is entered into the index of its previous node under its own label, if none is there', 3)
    ctx.rule('holders', 'no other part of the program keeps history nodes across a collection', 1)
    st = states(ctx)
    statecheck(ctx, st)
    for f in ctx.prog.byname.get(GCP + 'GC', []):
        G = ctx.flow(f, stop=COLLECT + [DEALLOC])
        unmark(ctx, G, st)
        mark(ctx, G, st)
        sweep(ctx, G, st)
    roots(ctx)
    unlink(ctx, st)
    index(ctx)
    holders(ctx)


def statecheck(ctx, st):
    at = ctx.fn('Collectable::Mark')['loc']
    want = {'Mark': (True, False), 'Unmark': (False, False), 'Free': (None, True), 'Use': (None, False), 'Collectable': (None, None)}
    for m, (mk, fr) in want.items():
        v = st[m]
        for n, w in (('is_marked', mk), ('is_freed', fr)):
            if w is None:
                continue
            r = st[n](v)
            ctx.check('states', m + '/' + n, (r is TRUE) == w and (r is FALSE) == (not w), ctx.fn('Collectable::' + m)['loc'],
                      '%s does not %s %s()' % (m, 'set' if w else 'reset', n))
    # what a pool hands out is in use, what it takes back is freed
    for f in ctx.prog.byname.get(GCP + 'Alloc', []):
        F = ctx.flow(f)
        s = norm(F, F.final(fld(F.deref(F.ret), 'state_'))) if F.ret is not None else None
        ctx.check('states', 'alloc', s is not None and st['is_freed'](s) is FALSE, f['loc'], 'a new node counts as freed')
    for f in ctx.prog.byname.get(GCP + 'Dealloc', []):
        F = ctx.flow(f, stop=[DEALLOC])
        es = calls(F, DEALLOC)
        s = norm(F, F.final(fld(F.paramobj(0), 'state_')))
        ctx.check('states', 'dealloc', st['is_freed'](s) is TRUE or any(x.op in ('out', 'call') for x in walk(s)), f['loc'],
                  'a node given back does not count as freed')
        ctx.check('states', 'given-back', len(es) == 1 and norm(F, es[0].args[0]) is F.paramval(0) and
                  F.exit not in F.assume(F.entry, [], stop={es[0].node}).nodes if es and es[0].node is not F.entry else bool(es),
                  f['loc'], 'the slot of a freed node is not given back once')


def transitions(F):
    """stores to the state of a node: (event, location of the node, value)"""
    for e in F.events:
        if e.kind == 'store' and e.where.op == 'fld' and e.where.args[1] == 'state_' and F.feasible(e.node):
            yield e, locnorm(F, e.where.args[0]), norm(F, e.val)


def knows(F, g, st, test, b, i):
    """a fact decides this test for the slot"""
    for x in {x for f in g for x in walk(f)}:
        if x.op in ('sel', 'init', 'phi', 'ld') and slot_read(F, x, 'state_') == (b, i):
            r = F.decide(st[test](x), g)
            if r is not None:
                return r
    return None


def covered(ctx, F, rid, sites, at, what):
    """the sites together run over all slots in use"""
    kinds = set()
    why = ''
    for b, i in sites:
        k, w = spans(F, b, i, blocksize(ctx))
        if w:
            why = w
        else:
            kinds.add(k)
    ok = 'all' in kinds or kinds >= {'full', 'last'}
    ctx.check(rid, 'everywhere', ok, at, '%s: %s' % (what, why or 'not all blocks are visited'))


def unmark(ctx, F, st):
    at = F.root['loc']
    us = [(e, slot_loc(F, l), v) for e, l, v in transitions(F) if st['is_marked'](v) is FALSE and st['is_freed'](v) is FALSE]
    ctx.check('unmark', 'there', bool(us), at, 'nothing is unmarked before marking')
    if not us:
        return
    for e, s, v in us:
        if not ctx.check('unmark', 'slot', s is not None, e.loc, 'something else than a slot of the pool is unmarked'):
            return
    covered(ctx, F, 'unmark', [s for e, s, v in us], at, 'unmarking')
    for e in F.events:
        if e.name == '__assert_fail' and F.feasible(e.node):
            ctx.check('unmark', 'stops', not any(knows(F, F.facts(e.node), st, 'is_freed', *s) is True for x, s, v in us),
                      e.loc, 'the collection ends the program at a freed node')
    marks = [e for e, l, v in transitions(F) if st['is_marked'](v) is TRUE]
    for e, (b, i), v in us:
        ctx.check('unmark', 'in-use', knows(F, F.facts(e.node), st, 'is_freed', b, i) is False, e.loc,
                  'a freed node comes to life again')
        H = round_of(F, e.node, i)
        R = F.assume(H, [], stop={x.node for x, s, w in us if s[1] is i})
        for k in loops.latches(F, H):
            if k in R.edges and k[0] is not e.node:
                ctx.check('unmark', 'all', all(knows(F, g, st, 'is_freed', b, i) is True for g in loops.ways(F, R, k)), e.loc,
                          'a node in use may stay marked from before')
        for m in marks:
            R = F.assume(m.node, [])
            ctx.check('unmark', 'before', e.node not in R.nodes and m.node is not e.node, e.loc,
                      'nodes are unmarked after marking began')


def mark(ctx, F, st):
    at = F.root['loc']
    ms = [(e, l) for e, l, v in transitions(F) if st['is_marked'](v) is TRUE]
    if not ctx.check('mark', 'there', bool(ms), at, 'nothing is marked'):
        return
    roots = F.paramobj(0) if '&' in F.root['vars'][str(F.root['params'][0])]['type'] else F.param(0)
    for e, l in ms:
        p = l.args[0] if l.op == 'deref' else None
        if not ctx.check('mark', 'node', p is not None, e.loc, 'what is marked is not a node of the search'):
            continue
        hs = loops.rounds(F, e.node)
        if not ctx.check('mark', 'loop', bool(hs), e.loc, 'only one node is marked'):
            continue
        H = hs[0]
        prev = lambda x: isprev(F, x, p)
        queue = worklist(F, H, p)
        if queue is not None:
            ctx.check('mark', 'roots', started(F, queue, roots, H), at, 'the search does not start from all roots')
            done = [k for k in loops.exits(F, H) if not aborts(F, k)]
            for k in done:
                n = [f for f in F.E[k] if any(x.op in ('phi', 'sel', 'init') and '#size' in str(x) for x in walk(f))]
                sz = size_here(F, queue, H)
                ctx.check('mark', 'until-empty', sz is not None and F.decide(eq(sz, C(0)), F.E[k]) is True, e.loc,
                          'the search can end with nodes left')
            pushes = [x for x in F.events if x.kind == 'call' and x.obj is not None and locnorm(F, x.obj) is queue and
                      x.name.split('::')[-1] in ('push_back', 'emplace_back', 'push', 'emplace') and x.node in F.loops()[H]]
            for x in pushes:
                ctx.check('mark', 'next', prev(x.args[0]), x.loc, 'the search continues with another node')
            R = F.assume(H, [], stop={e.node})
            for k in loops.latches(F, H):
                if k in R.edges and k[0] is not e.node:
                    ctx.check('mark', 'skipped', all(stateknown(F, g, st, p) is True for g in loops.ways(F, R, k)), e.loc,
                              'a node that was reached may stay unmarked')
            R = F.assume(e.node, [], stop={x.node for x in pushes} | {H})
            for k in loops.latches(F, H):
                if k in R.edges and not any(x.node is k[0] for x in pushes):
                    ctx.check('mark', 'followed', all(nullprev(F, g, p, st) for g in loops.ways(F, R, k)), e.loc, 'what a node leads to may not be searched')
            if not pushes:
                ctx.bad('mark', 'followed', e.loc, 'what a node leads to is not searched')
            continue
        # a chain followed from each root
        ok = p.op == 'phi' and F.defnode.get(p) is H
        if not ctx.check('mark', 'search', ok, e.loc, 'how nodes are reached is not recognised'):
            continue
        body = F.loops()[H]
        for k, v in F.phis[p].items():
            if k[0] in body:
                ctx.check('mark', 'next', prev(v), e.loc, 'the search continues with another node')
            else:
                v = norm(F, v)
                if taken_out(ctx, F, st, hs[1:], H, v, roots, at, e):
                    continue
                r = place(F, v)
                ok = r is not None and r.op == 'el' and r.args[0] is fld(roots, '#data')
                ok = ok and not loops.covers(F, H, r.args[1], C(0), T('init', fld(roots, '#size')), lambda k: aborts(F, k))
                ctx.check('mark', 'roots', ok, at, 'the search does not start from all roots')
        ctx.check('mark', 'until-empty', all(stateknown(F, F.E[k], st, p) is True or F.decide(eq(p, NULL), F.E[k]) is True
                                             for k in loops.exits(F, H) if not aborts(F, k)), e.loc, 'the search can end with nodes left')
        ctx.check('mark', 'followed', all(F.dominates(e.node, k[0]) for k in loops.latches(F, H)), e.loc,
                  'a node that was reached may stay unmarked')


def taken_out(ctx, F, st, outer, H, v, roots, at, e):
    """the chain starts at a node taken from a queue that starts with all roots"""
    for G in outer:
        q = worklist(F, G, v)
        if q is None:
            continue
        ctx.check('mark', 'roots', started(F, q, roots, G), at, 'the search does not start from all roots')
        sz = size_here(F, q, G)
        for k in loops.exits(F, G):
            if not aborts(F, k):
                ctx.check('mark', 'until-empty', sz is not None and F.decide(eq(sz, C(0)), F.E[k]) is True, e.loc,
                          'the search can end with nodes left')
        R = F.assume(G, [], stop={H})
        for k in loops.latches(F, G):
            if k in R.edges:
                ctx.check('mark', 'skipped', all(stateknown(F, g, st, v) is True or F.decide(eq(v, NULL), g) is True
                                                 for g in loops.ways(F, R, k)), e.loc, 'a node that was reached may stay unmarked')
        return True
    return False


def isprev(F, v, p):
    l = place(F, v)
    return l is not None and l.op == 'fld' and l.args[1] == 'previous_' and l.args[0].op == 'deref' and l.args[0].args[0] is p


def reads_of(F, g, p, field):
    for x in {x for f in g for x in walk(f)}:
        if x.op in ('sel', 'init', 'phi', 'ld', 'out'):
            l = place(F, x)
            if l is not None and l.op == 'fld' and l.args[1] == field and l.args[0].op == 'deref' and l.args[0].args[0] is p:
                yield x


def stateknown(F, g, st, p, test='is_marked'):
    for x in reads_of(F, g, p, 'state_'):
        r = F.decide(st[test](x), g)
        if r is not None:
            return r
    return None


def nullprev(F, g, p, st):
    """there is no previous node, or it is marked already"""
    return any(F.decide(eq(x, NULL), g) is True or stateknown(F, g, st, norm(F, x)) is True
               for x in list(reads_of(F, g, p, 'previous_')))


def worklist(F, H, p):
    """the container whose last (or first) element p is, taken out in this round"""
    body = F.loops()[H]
    for e in F.events:
        if e.kind == 'call' and e.node in body and e.obj is not None and \
                e.name.split('::')[-1] in ('pop_back', 'pop', 'pop_front'):
            q = locnorm(F, e.obj)
            for b in F.events:
                if b.kind == 'call' and b.node in body and b.obj is not None and locnorm(F, b.obj) is q and \
                        b.name.split('::')[-1] in ('back', 'front', 'top') and F.evdom(b, e):
                    v = norm(F, F.load(F.instate[b.node], b.val)) if b.val.op in ('el', 'fld', 'deref', 'var') else norm(F, b.val)
                    l = locnorm(F, b.val) if b.val.op == 'el' else None
                    if v is p or (l is not None and place(F, p) is l):
                        return q
    return None


def size_here(F, q, H):
    v = F.load(F.instate[H], fld(q, '#size'))
    for x in F.at(H):
        if x.args[1] is fld(q, '#size'):
            return x
    return norm(F, v)


def started(F, q, roots, H):
    if q is roots:
        return True
    for e in F.events:
        if e.kind == 'ctor' and 'vector::vector' in (e.name or '') and F.dominates(e.node, H) and F.feasible(e.node):
            a = list(e.args or ())
            lo, n = T('addr', el(fld(roots, '#data'), C(0))), T('init', fld(roots, '#size'))
            mine = e.obj is None or locnorm(F, e.obj) is q
            if not mine:
                continue
            if len(a) >= 2 and a[0] is lo and a[1] is add(lo, n):
                return True
            if a and (place(F, a[0]) is roots or (e.locs if hasattr(e, 'locs') else None) and e.locs[0] is roots):
                return True
        if e.kind == 'call' and e.obj is not None and locnorm(F, e.obj) is q and F.feasible(e.node):
            n = e.name.split('::')[-1]
            if n in ('push_back', 'emplace_back', 'push') and e.node not in F.loops()[H]:
                r = place(F, e.args[0])
                if r is not None and r.op == 'el' and r.args[0] is fld(roots, '#data') and not loops.covers(
                        F, e.node, r.args[1], C(0), T('init', fld(roots, '#size')), lambda k: aborts(F, k)):
                    return True
            if n in ('operator=', 'assign', 'insert', 'swap') and any(x is roots or place(F, x) is roots or
                                                                 (n != 'swap' and x is T('addr', el(fld(roots, '#data'), C(0))))
                                                                 for x in list(e.args) + list(e.locs or ())
                                                                 if x is not None):
                return True
    v = F.load(F.instate[H], fld(q, '#data'))
    return False


def sweep(ctx, F, st):
    at = F.root['loc']
    cs = [e for e in F.events if e.kind == 'call' and e.name in COLLECT and F.feasible(e.node)]
    if not ctx.check('sweep', 'there', bool(cs), at, 'nothing is collected'):
        return
    frees = [(e, l) for e, l, v in transitions(F) if st['is_freed'](v) is TRUE]
    gives = [e for e in F.events if e.kind == 'call' and e.name == DEALLOC and F.feasible(e.node)]
    marks = [e for e, l, v in transitions(F) if st['is_marked'](v) is TRUE]
    sites = []
    lists = []
    for e in cs:
        s = slot_loc(F, e.obj) if e.obj is not None else None
        if not ctx.check('sweep', 'slot', s is not None, e.loc, 'what is collected is not a slot of the pool'):
            return
        sites.append(s)
        b, i = s
        g = F.facts(e.node)
        ctx.check('sweep', 'freed-before', knows(F, g, st, 'is_freed', b, i) is False, e.loc, 'a freed node is collected again')
        ctx.check('sweep', 'unreachable', knows(F, g, st, 'is_marked', b, i) is False, e.loc, 'a node that is reachable may be collected')
        H = round_of(F, e.node, i)
        if H is None:
            continue
        R = F.assume(H, [], stop={x.node for x in cs})
        for k in loops.latches(F, H):
            if k in R.edges and k[0] is not e.node:
                ok = all(knows(F, g, st, 'is_freed', b, i) is True or knows(F, g, st, 'is_marked', b, i) is True
                         for g in loops.ways(F, R, k))
                ctx.check('sweep', 'kept', ok, e.loc, 'an unreachable node may not be collected')
        mine = [x for x, l in frees if slot_loc(F, l) == s]
        ends(ctx, F, e, mine, H, 'state', 'a collected node may not count as freed')
        ctx.check('sweep', 'first-collected', all(F.evdom(e, x) for x in mine), e.loc, 'a node is freed before it is taken out of the index')
        for m in marks:
            ctx.check('sweep', 'after-marking', m.node not in F.assume(e.node, []).nodes, e.loc, 'nodes are collected before all are marked')
        # given back: directly, or by way of a list
        direct = [x for x in gives if slot_at(F, x.args[0]) == s]
        if direct:
            ctx.bad('sweep', 'order', direct[0].loc, 'a node is destroyed that other nodes being collected still ask for its state')
            continue
        pushes = [x for x in F.events if x.kind == 'call' and x.obj is not None and x.args and F.feasible(x.node) and
                  x.name.split('::')[-1] in ('push_back', 'emplace_back', 'push') and slot_at(F, x.args[0]) == s]
        ends(ctx, F, e, pushes, H, 'list', 'the slot of a collected node may not be given back')
        ctx.check('sweep', 'once', len(pushes) == 1, e.loc, 'a slot is given back more than once')
        ctx.check('sweep', 'only', all(F.evdom(e, x) for x in pushes), e.loc, 'a slot is given back whose node was not collected')
        lists += [locnorm(F, x.obj) for x in pushes]
    covered(ctx, F, 'sweep', sites, at, 'collecting')
    for q in set(lists):
        ok, why = False, 'they are not given back'
        for x in gives:
            l = place(F, x.args[0])
            if l is not None and l.op == 'el' and l.args[0] is fld(q, '#data'):
                hs = loops.rounds(F, x.node)
                if hs:
                    n = F.load(F.instate[hs[0]], fld(q, '#size'))
                    why = loops.covers(F, x.node, l.args[1], C(0), norm(F, n), lambda k: aborts(F, k))
                    ok = ok or not why
        ctx.check('sweep', 'given-back', ok, at, 'the slots of collected nodes: ' + why)
    for x in gives:
        l = place(F, x.args[0])
        ctx.check('sweep', 'others', slot_at(F, x.args[0]) in sites or
                  (l is not None and l.op == 'el' and l.args[0].op == 'fld' and l.args[0].args[0] in lists), x.loc,
                  'the slot of another node is given back')


def ends(ctx, F, e, events, H, name, msg):
    """after e, one of the events follows in the same round"""
    if any(x.node is e.node for x in events):
        ctx.check('sweep', name, True, e.loc)
        return
    R = F.assume(e.node, [], stop={x.node for x in events} | {H})
    bad = [k for k in list(loops.latches(F, H)) + [k for k in loops.exits(F, H) if not aborts(F, k)]
           if k in R.edges and not any(x.node is k[0] for x in events)]
    ctx.check('sweep', name, bool(events) and not bad, e.loc, msg)


# ------------------------------------------------------------------ decoder
def roots(ctx):
    F = process(ctx)
    gcs = calls(F, GCP + 'GC')
    every = [f for n, f in ((g['n'], g) for g in ctx.prog.functions.values() if g.get('ours')) for e in f['calls']
             for t in ctx.prog.targets(e) if t['n'] == GCP + 'GC']
    ctx.check('roots', 'callers', all(f['n'] == D + 'Process' or ctx.prog.reaches(f, D + 'Process') if hasattr(ctx.prog, 'reaches')
                                      else True for f in every) and bool(gcs), ctx.fn('Decoder::Process')['loc'],
              'the collection is started elsewhere')
    toks, prevs = F.field('toks_'), F.field('prev_toks_')
    for e in gcs:
        q = None
        for l in list(e.locs or ()) + [copied(F, a) for a in e.args]:
            if l is not None and l.op in ('var', 'fld', 'obj'):
                q = locnorm(F, l)
                break
        pushes = [x for x in F.events if x.kind == 'call' and x.obj is not None and q is not None and locnorm(F, x.obj) is q and
                  x.name.split('::')[-1] in ('push_back', 'emplace_back') and F.feasible(x.node)]
        ok, why = False, 'nothing is collected into them'
        for x in pushes:
            p = of_token(F, x.args[0], ('olabel_',))
            l = place(F, p) if p is not None else None
            if l is None or l.op != 'el' or l.args[0] is not fld(toks, '#data'):
                ctx.bad('roots', 'of-tokens', x.loc, 'a root is not the history of a token in the beam')
                continue
            r = loops.header_phi(F, l.args[1])
            if r is None:
                continue
            H = F.defnode[r[0]]
            n = norm(F, F.load(F.instate[H], fld(toks, '#size')))
            why = loops.covers(F, H, l.args[1], C(0), n, lambda k: aborts(F, k))
            if why:
                continue
            R = F.assume(H, [], stop={x.node})
            for k in loops.latches(F, H):
                if k in R.edges and k[0] is not x.node:
                    ok2 = True
                    for g in loops.ways(F, R, k):
                        o = [y for f in g for y in walk(f) if y.op in ('sel', 'init', 'phi', 'ld', 'out') and
                             of_token(F, y, ('olabel_',)) is p]
                        ok2 = ok2 and any(F.decide(eq(y, NULL), g) is True for y in o)
                    ctx.check('roots', 'skipped', ok2, x.loc, 'the history of a token may be left out')
            ctx.check('roots', 'before', F.dominates(H, e.node), x.loc, 'the roots are not collected before every collection')
            ok = True
        ctx.check('roots', 'all', ok, e.loc, 'the roots: ' + why)
        # no token lives outside the beam at that time
        clears = [x for x in F.events if x.kind == 'call' and x.obj is not None and locnorm(F, x.obj) is prevs and
                  x.name.split('::')[-1] in ('clear',) and F.feasible(x.node)]
        R = F.assume(F.entry, [], stop={x.node for x in clears})
        ctx.check('roots', 'beam-only', e.node not in R.nodes or any(F.evdom(x, e) for x in clears), e.loc,
                  'tokens outside the beam may refer to history that is collected')


def copied(F, a):
    """the container a value is a copy of"""
    l = place(F, a)
    if l is None:
        l = place(F, sel(a, '#data'))
        l = l.args[0] if l is not None and l.op == 'fld' else None
    return l


def unlink(ctx, st):
    F = ctx.flow(OL + '::OnCollect')
    at = F.root['loc']
    prev, lab = T('init', F.field('previous_')), T('init', F.field('olabel_'))
    idx = fld(F.deref(prev), 'nexts_')
    er = [e for e in F.events if e.kind == 'call' and e.obj is not None and e.name.split('::')[-1] == 'erase' and F.feasible(e.node)]
    for e in er:
        ctx.check('unlink', 'index', locnorm(F, e.obj) is locnorm(F, idx), e.loc, 'an entry of another index is removed')
        ctx.check('unlink', 'label', norm(F, e.args[0]) is lab, e.loc, 'the entry of another label is removed')
        ctx.check('unlink', 'alive', F.decide(eq(prev, NULL), F.facts(e.node)) is False, e.loc, 'a previous node that is not there is used')
    R = F.assume(F.entry, [], stop={e.node for e in er})
    s = T('init', fld(F.deref(prev), 'state_'))
    if F.exit in R.nodes and not any(e.node is F.entry for e in er):
        # every other way: no previous node, or one that is freed itself
        bad = F.assume(F.entry, [NOT(eq(prev, NULL)), NOT(st['is_freed'](s))], stop={e.node for e in er})
        ctx.check('unlink', 'always', F.exit not in bad.nodes, at, 'a reachable node may keep referring to a freed one')
    else:
        ctx.check('unlink', 'always', True, at)
    for e in er:
        # the index of a freed node is gone
        ctx.check('unlink', 'not-freed', F.decide(st['is_freed'](s), F.facts(e.node)) is False, e.loc,
                  'the index of a freed node is changed')


def index(ctx):
    F = insertion(ctx)
    at = F.root['loc']
    fs = [e for e in F.events if e.kind in ('new', 'call') and F.feasible(e.node)]
    prev, lab = F.paramval(2), F.paramval(1)
    made = [e for e in F.events if e.kind == 'ctor' and e.name == OL + '::OLabel' or e.kind == 'enter' and e.name == OL + '::OLabel']
    made = [e for e in made if F.feasible(e.node)]
    if not ctx.check('index', 'made', bool(made), at, 'no history node is made'):
        return
    for e in made:
        a = [norm(F, x) for x in e.args]
        none = a[0] is NULL and F.decide(eq(prev, NULL), F.facts(e.node)) is True
        ctx.check('index', 'previous', a[0] is prev or none, e.loc, 'the node does not follow the history of the token')
        ctx.check('index', 'label', a[1] is lab, e.loc, 'the node has another label')
    F = ctx.flow('Decoder::InsertTok', stop=TABLE + [DEALLOC, OL + '::next', OL + '::set_next'], key='index')
    al = [e for e in F.events if e.kind == 'new' and e.name == OL and F.feasible(e.node)]
    nx, sn = calls(F, OL + '::next'), calls(F, OL + '::set_next')
    ctx.check('index', 'pool', bool(al), at, 'no history node is made in the pool')
    prev, lab = F.paramval(2), F.paramval(1)
    for e in al:
        # entered under the label, unless there is no previous node
        good = [x for x in sn if norm(F, x.args[0]) is lab and norm(F, x.args[1]) is norm(F, e.val) and isobj(F, x, prev)]
        R = F.assume(e.node, [NOT(eq(prev, NULL))], stop={x.node for x in good})
        if F.decide(eq(prev, NULL), F.facts(e.node)) is True:
            continue
        ctx.check('index', 'entered', bool(good) and (F.exit not in R.nodes or any(x.node is e.node for x in good)), e.loc,
                  'a new node may not be in the index of its previous node')
        # not if there is one already
        look = [x for x in nx if norm(F, x.args[0]) is lab and isobj(F, x, prev)]
        R = F.assume(F.entry, [NOT(eq(prev, NULL))], stop={x.node for x in look})
        ok = bool(look) and e.node not in R.nodes
        for x in look:
            R = F.assume(x.node, [NOT(eq(norm(F, x.val), NULL)), NOT(eq(prev, NULL))])
            ok = ok and e.node not in R.nodes
        ctx.check('index', 'unique', ok, e.loc, 'a second node for the same history may be made')
    for x in sn:
        ctx.check('index', 'entries', norm(F, x.args[0]) is lab and isobj(F, x, prev) and
                  any(norm(F, x.args[1]) is norm(F, e.val) for e in al), x.loc, 'another node is entered into the index')
    # the methods themselves
    F = ctx.flow(OL + '::OLabel')
    for n, p in (('previous_', 0), ('olabel_', 1)):
        ctx.check('index', 'field/' + n, norm(F, F.final(F.field(n))) is F.paramval(p), F.root['loc'], '%s is not what was asked for' % n)
    for n in ('previous', 'olabel'):
        F = ctx.flow(OL + '::' + n)
        ctx.check('index', 'reads/' + n, F.ret is T('init', F.field(n + '_')), F.root['loc'], '%s() does not return it' % n)


def isobj(F, e, p):
    o = locnorm(F, e.obj) if e.obj is not None else None
    return o is not None and o.op == 'deref' and o.args[0] is p


def holders(ctx):
    ok = {(D + 'Token', 'olabel_'), (OL, 'previous_'), (OL, 'nexts_')}
    for r, rec in ctx.prog.records.items():
        for f in rec['fields']:
            if 'OLabel *' in f['type'].replace('OLabel*', 'OLabel *') and (r, f['name']) not in ok:
                if r.startswith(PK + 'Pool<') or r.startswith(PK + 'GCPool<'):
                    continue
                ctx.bad('holders', r + '::' + f['name'], rec.get('loc', ''), 'keeps history nodes the collection does not know')
    for n, g in ctx.prog.globals.items():
        if 'OLabel *' in g['type']:
            ctx.bad('holders', n, g['loc'], 'keeps history nodes the collection does not know')
    ctx.check('holders', 'token', any(f['name'] == 'olabel_' for f in ctx.prog.records[D + 'Token']['fields'])
              if D + 'Token' in ctx.prog.records else True, '', 'tokens have no history')
