"""Tokens are neither leaked nor used after release; the pool hands out each slot once."""
from rules.pools import *

TOKEN = D + 'Token'
ADDS = ('push_back', 'emplace_back')


def run(ctx):
    ctx.rule('alloc', 'a slot that is handed out is the last free one, which leaves the list, or the next unused one, '
             'which is then counted as used; the object is made in it and returned', 6)
    ctx.rule('blocks', 'a block has room for the slots that are handed out of it', 2)
    ctx.rule('dealloc', 'a slot given back is put on the free list once, after its object was destroyed', 2)
    ctx.rule('clear', 'clearing destroys every object that is alive once and makes all slots unused', 4)
    ctx.rule('counts', 'the numbers of free and used slots are those of the slots', 2)
    ctx.rule('kept', 'every token made is put into the beam', 2)
    ctx.rule('replaced', 'a token that is replaced in the beam is given back once, and none that stays there', 2)
    ctx.rule('expanded', 'every token of the previous beam is given back once per frame', 4)
    ctx.rule('after', 'a token is not used after it was given back', 2)
    size = blocksize(ctx)
    for n in ('Alloc', 'Dealloc', 'Clear', 'Pool', 'free_nodes', 'allocated_nodes'):
        for f in ctx.prog.byname.get(POOL + n, []):
            {'Alloc': alloc, 'Dealloc': dealloc, 'Clear': clear, 'Pool': create, 'free_nodes': counts,
             'allocated_nodes': counts}[n](ctx, f, size)
    insertion_(ctx)
    emitting(ctx)


def at_exit(F, name):
    return norm(F, F.final(F.field(name)))


def vec(F, name, part, final=False):
    l = fld(F.field(name), part)
    return norm(F, F.final(l)) if final else T('init', l)


def element(f):
    """the class this pool holds"""
    import re
    for v in f['vars'].values():
        m = re.match(r'(?:const )?([\w:]+) \*$', v['type'])
        if m:
            return m.group(1)
    return None


# ------------------------------------------------------------------ pool
def alloc(ctx, f, size):
    F = ctx.flow(f)
    at = f['loc']
    made = [e for e in F.events if e.kind == 'new' and F.feasible(e.node)]
    ctx.check('alloc', 'made', len(made) == 1 and F.exit not in F.assume(F.entry, [], stop={made[0].node}).nodes if made and
              made[0].node is not F.entry else bool(made), at, 'an object may be returned that was not made, or made twice')
    for e in made:
        ctx.check('alloc', 'returned', norm(F, e.val) is norm(F, F.ret), at, 'another slot is returned than the object was made in')
    cur, pos, B = f0(F, 'current_block_'), f0(F, 'current_pos_'), size
    nfree, nblocks = vec(F, 'free_', '#size'), vec(F, 'blocks_', '#size')
    ts = (F.ret, at_exit(F, 'current_block_'), at_exit(F, 'current_pos_'), vec(F, 'free_', '#size', True),
          vec(F, 'blocks_', '#size', True), vec(F, 'blocks_', '#data', True))
    kinds = set()
    for (r, c2, p2, n2, b2, d2), g in cases(F, ts, F.exit) or []:
        l = place(F, r)
        if l is not None and l.op == 'el' and l.args[0] is fld(F.field('free_'), '#data'):
            kinds.add('free')
            ctx.check('alloc', 'free/last', l.args[1] is sub(nfree, C(1)) and F.decide(eq(nfree, C(0)), g) is False, at,
                      'the slot is not the last free one')
            ctx.check('alloc', 'free/leaves', n2 is sub(nfree, C(1)), at, 'the slot stays on the free list')
            ctx.check('alloc', 'free/others', c2 is cur and p2 is pos and b2 is nblocks, at, 'other slots are counted as used')
            continue
        s = new_slot(F, r, d2)
        if s is None:
            ctx.bad('alloc', 'slot', at, 'what is handed out is not a slot of the pool: %s' % show(r))
            continue
        b, i = s
        kinds.add('new')
        here = b is cur and i is pos
        next_ = b is add(cur, C(1)) and i is C(0)
        full = F.decide(eq(pos, B), g)
        ctx.check('alloc', 'new/next', (here and full is False) or (next_ and full is True), at,
                  'the slot is not the next unused one')
        ctx.check('alloc', 'new/counted', c2 is b and p2 is add(i, C(1)), at, 'the slot is not counted as used')
        ctx.check('alloc', 'new/list', n2 is nfree, at, 'a free slot is lost')
        if next_:
            last = F.decide(eq(cur, sub(nblocks, C(1))), g)
            ctx.check('alloc', 'new/block', (last is False and b2 is nblocks) or (last is True and b2 is add(nblocks, C(1))), at,
                      'the block of the slot was not made')
    ctx.check('alloc', 'ways', kinds == {'free', 'new'}, at, 'free slots are not used again, or no new ones')
    blocks(ctx, F, f, B)


def new_slot(F, r, data):
    """r = address of slot i of block b in the blocks as they are at the end"""
    d, k = lin(r)
    for a, c in list(d.items()):
        if c == 1 and a.op == 'addr' and a.args[0].op == 'el' and a.args[0].args[0].op == 'buf':
            r = add(sub(r, a), add(a.args[0].args[0].args[0], a.args[0].args[1]))
    d, k = lin(r)
    for a, c in d.items():
        if c == 1 and a.op in ('ld', 'init'):
            if a.op == 'ld' and a.args[0] is data:
                return norm(F, a.args[1]), sub(r, a)
            l = place(F, a)
            if l is not None and l.op == 'el' and l.args[0] is fld(F.field('blocks_'), '#data'):
                return l.args[1], sub(r, a)
        if c == 1 and a.op == 'fn' and a.args[0] == 'operatornew':
            # the block just made, at the end of the list
            b = data
            while b.op == 'st' and b.args[2] is not a:
                b = b.args[0]
            if b.op == 'st':
                return norm(F, b.args[1]), sub(r, a)
    return None


def blocks(ctx, F, f, B):
    el_ = element(f)
    rec = ctx.prog.records.get(el_) or {}
    for e in F.events:
        if e.kind == 'call' and e.name in ('operatornew', 'operator new') and F.feasible(e.node):
            n = norm(F, e.args[0])
            ctx.check('blocks', (el_ or '?').split('::')[-1], n.op == 'c' and rec.get('size') and
                      n.args[0] >= rec['size'] * B.args[0], e.loc, 'a block has %s bytes for %s slots of %s' %
                      (show(n), show(B), rec.get('size')))
            adds = [x for x in F.events if x.kind == 'call' and x.obj is F.field('blocks_') and
                    x.name.split('::')[-1] in ADDS and norm(F, x.args[0]) is norm(F, e.val)]
            ctx.check('blocks', 'listed', len(adds) == 1, e.loc, 'the new block is not in the list of blocks')
        if e.kind == 'new' and e.args and f['n'].endswith('::Pool') and F.feasible(e.node):
            pass


def create(ctx, f, size):
    F = ctx.flow(f)
    ctx.check('alloc', 'start', at_exit(F, 'current_block_') is C(0) and at_exit(F, 'current_pos_') is C(0) and
              vec(F, 'blocks_', '#size', True) is C(1) and vec(F, 'free_', '#size', True) is C(0), f['loc'],
              'a new pool does not start with one unused block')
    blocks(ctx, F, f, size)


def dealloc(ctx, f, size):
    F = ctx.flow(f)
    at = f['loc']
    adds = [e for e in F.events if e.kind == 'call' and e.obj is F.field('free_') and e.name.split('::')[-1] in ADDS and
            F.feasible(e.node)]
    ctx.check('dealloc', 'listed', len(adds) == 1 and norm(F, adds[0].args[0]) is F.paramval(0) and
              vec(F, 'free_', '#size', True) is add(vec(F, 'free_', '#size'), C(1)), at, 'the slot is not put on the free list once')
    T_ = element(f)
    if ctx.prog.byname.get('%s::~%s' % (T_, (T_ or '').split('::')[-1])):
        kills = [e for e in F.events if e.kind == 'enter' and e.name and e.name.split('::')[-1].startswith('~') and
                 e.name.startswith(T_) and F.feasible(e.node)]
        ok = len(kills) == 1 and kills[0].obj is not None and locnorm(F, kills[0].obj) is F.paramobj(0) and \
            (kills[0].node is F.entry or F.exit not in F.assume(F.entry, [], stop={kills[0].node}).nodes)
        ctx.check('dealloc', 'destroyed', ok, at, 'the object in the slot is not destroyed once')


def clear(ctx, f, size):
    F = ctx.flow(f)
    at = f['loc']
    ctx.check('clear', 'unused', at_exit(F, 'current_block_') is C(0) and at_exit(F, 'current_pos_') is C(0) and
              vec(F, 'free_', '#size', True) is C(0), at, 'slots stay in use, or on the free list')
    T_ = element(f)
    if not ctx.prog.byname.get('%s::~%s' % (T_, (T_ or '').split('::')[-1])):
        return
    kills = [e for e in F.events if e.kind == 'enter' and e.name and e.name.split('::')[-1].startswith('~') and
             e.name.startswith(T_) and F.feasible(e.node)]
    kinds, why = set(), 'nothing is destroyed'
    for e in kills:
        s = slot_loc(F, e.obj) if e.obj is not None else None
        if not ctx.check('clear', 'slot', s is not None, e.loc, 'what is destroyed is not a slot of the pool'):
            continue
        k, w = spans(F, s[0], s[1], size)
        why = w or why
        if not w:
            kinds.add(k)
        ctx.check('clear', 'alive', free_slot(F, F.facts(e.node), s) is False, e.loc,
                  'an object that was destroyed already may be destroyed again')
        H = round_of(F, e.node, s[1])
        if H is None:
            continue
        R = F.assume(H, [], stop={x.node for x in kills})
        for l in loops.latches(F, H):
            if l in R.edges and l[0] is not e.node:
                ctx.check('clear', 'all', all(free_slot(F, g, s) is True for g in loops.ways(F, R, l)), e.loc,
                          'an object that is alive may not be destroyed')
    ctx.check('clear', 'everywhere', 'all' in kinds or kinds >= {'full', 'last'}, at, 'destroying the objects: ' + why)
    # not after the counters were reset
    for e in F.events:
        if e.kind == 'store' and e.where in (F.field('current_block_'), F.field('current_pos_')) and F.feasible(e.node):
            ctx.check('clear', 'order', not any(k.node in F.assume(e.node, []).nodes for k in kills if k.node is not e.node), e.loc,
                      'the counters are reset before the objects are destroyed')
    # the set holds every free slot
    for q in {x for e in F.events if e.kind == 'call' and e.name and e.name.split('::')[-1] in ('find', 'count') and
              e.obj is not None for x in [locnorm(F, e.obj)] if F.feasible(e.node)}:
        ins = [e for e in F.events if e.kind == 'call' and e.obj is not None and locnorm(F, e.obj) is q and
               e.name.split('::')[-1] in ('insert', 'emplace') and F.feasible(e.node)]
        ok, why = False, 'is not filled'
        for e in ins:
            l = place(F, e.args[0]) if e.args else None
            if l is not None and l.op == 'el' and l.args[0] is fld(F.field('free_'), '#data'):
                why = loops.covers(F, e.node, l.args[1], C(0), vec(F, 'free_', '#size'), lambda k: aborts(F, k))
                ok = ok or not why
            if len(e.args) == 2 and e.args[0] is T('addr', el(fld(F.field('free_'), '#data'), C(0))) and \
                    e.args[1] is add(e.args[0], vec(F, 'free_', '#size')):
                ok = True
        for e in F.events:
            if e.kind == 'ctor' and len(e.args or ()) >= 2 and e.args[0] is T('addr', el(fld(F.field('free_'), '#data'), C(0))) and \
                    norm(F, e.args[1]) is add(e.args[0], vec(F, 'free_', '#size')):
                ok = True
        ctx.check('clear', 'free-set', ok, at, 'the set of free slots ' + why)


def free_slot(F, g, s):
    """the slot is in the set of free slots: decided by the facts"""
    for x in {x for f in g for x in walk(f)}:
        if x.op == 'mfind' and len(x.args) == 2 and slot_at(F, x.args[1]) == s:
            r = F.decide(eq(x, T('mend')), g)
            if r is not None:
                return not r
    return None


def counts(ctx, f, size):
    F = ctx.flow(f)
    cur, pos = f0(F, 'current_block_'), f0(F, 'current_pos_')
    nf, nb = vec(F, 'free_', '#size'), vec(F, 'blocks_', '#size')
    used = sub(add(scale(cur, size.args[0]), pos), nf)
    want = used if f['n'].endswith('allocated_nodes') else sub(scale(nb, size.args[0]), used)
    ctx.check('counts', f['n'].split('::')[-1], norm(F, F.ret) is norm(F, want), f['loc'], 'is %s' % show(F.ret))


# ------------------------------------------------------------------ tokens
def beam_store(F, e, toks):
    """the event puts a value into a place of the beam: the index"""
    if e.kind == 'store' and F.feasible(e.node):
        l = locnorm(F, e.where)
        if l.op == 'el' and l.args[0] is fld(toks, '#data'):
            return l.args[1]
    return None


def insertion_(ctx):
    F = insertion(ctx)
    at = F.root['loc']
    toks = F.field('toks_')
    made = [e for e in F.events if e.kind == 'new' and e.name == TOKEN and F.feasible(e.node)]
    if not ctx.check('kept', 'made', bool(made), at, 'no token is made'):
        return
    gives = [e for e in calls(F, DEALLOC)]
    puts = []
    for e in F.events:
        i = beam_store(F, e, toks)
        if i is not None:
            puts.append((e, i, norm(F, e.val)))
        elif e.kind == 'call' and e.obj is not None and locnorm(F, e.obj) is toks and F.feasible(e.node):
            n = e.name.split('::')[-1]
            if n in ADDS:
                puts.append((e, None, norm(F, e.args[0])))
            elif n in ('pop_back', 'clear', 'erase', 'resize', 'swap'):
                ctx.bad('replaced', 'dropped', e.loc, 'tokens leave the beam without being given back')
    for e in made:
        mine = [x for x, i, v in puts if v is norm(F, e.val)]
        R = F.assume(e.node, [], stop={x.node for x in mine})
        ok = bool(mine) and (F.exit not in R.nodes or any(x.node is e.node for x in mine))
        ctx.check('kept', 'put', ok, e.loc, 'a new token may not be put into the beam')
        ctx.check('kept', 'once', len(mine) == 1, e.loc, 'a new token is put into the beam twice')
    for e, i, v in puts:
        if i is None:
            continue
        old = [d for d in gives if is_elem(F, d.args[0], toks, i)]
        before = [d for d in old if F.evdom(d, e)]
        saved = [d for d in old if d not in before]
        R = F.assume(e.node, [], stop={d.node for d in saved})
        ok = len(before) == 1 or (not before and bool(saved) and (
            F.exit not in R.nodes or any(d.node is e.node for d in saved)))
        ctx.check('replaced', 'given-back', ok, e.loc, 'the token that is replaced may not be given back')
    for d in gives:
        i = None
        l = place(F, d.args[0])
        if l is not None and l.op == 'el' and l.args[0] is fld(toks, '#data'):
            i = l.args[1]
        if not ctx.check('replaced', 'known', i is not None, d.loc, 'what is given back is not a token of the beam'):
            continue
        over = [e for e, j, v in puts if j is i]
        R = F.assume(d.node, [], stop={e.node for e in over})
        ok = bool(over) and (F.exit not in R.nodes or any(e.node is d.node for e in over) or any(F.evdom(e, d) for e in over))
        ctx.check('replaced', 'overwritten', ok, d.loc, 'a token given back may stay in the beam')
        ctx.check('replaced', 'twice', not any(x is not d and place(F, x.args[0]) is l and (x.node in F.assume(d.node, []).nodes)
                                               for x in gives), d.loc, 'a token may be given back twice')
        unused(ctx, F, d, norm(F, d.args[0]), 'InsertTok')


def is_elem(F, v, toks, i):
    l = place(F, v)
    return l is not None and l.op == 'el' and l.args[0] is fld(toks, '#data') and l.args[1] is i


def touches(F):
    """events that read or write behind a pointer: (event, pointer)"""
    for e in F.events:
        if not F.feasible(e.node):
            continue
        if e.kind == 'access' and e.val is not None:
            yield e, norm(F, e.val)
        elif e.kind in ('call', 'enter') and e.obj is not None:
            o = locnorm(F, e.obj)
            if o.op == 'deref':
                yield e, o.args[0]


def unused(ctx, F, d, p, name, stop=()):
    """nothing behind p is touched after d"""
    R = F.assume(d.node, [], stop=set(stop))
    for e, q in touches(F):
        if q is p and e is not d and ((e.node is d.node and e.seq > d.seq) or (e.node is not d.node and e.node in R.nodes)):
            ctx.bad('after', name, e.loc, 'a token is used after it was given back')
            return
    ctx.check('after', name, True, d.loc)


def emitting(ctx):
    F = process(ctx)
    at = ctx.fn('Decoder::ProcessEmitting')['loc']
    toks, prevs = F.field('toks_'), F.field('prev_toks_')
    gives = calls(F, DEALLOC)
    elems = []
    for d in gives:
        l = place(F, d.args[0])
        if l is not None and l.op == 'el' and l.args[0] is fld(prevs, '#data'):
            elems.append((d, l.args[1]))
        elif l is not None and l.op == 'el' and str(l.args[0]).find('toks_') < 0:
            ctx.bad('expanded', 'known', d.loc, 'what is given back is not a token of the previous beam')
        elif l is None or l.op != 'el':
            ctx.bad('expanded', 'known', d.loc, 'what is given back is not a token of the previous beam')
        else:
            # the vectors were exchanged: the element is found by the name of the one it came from
            elems.append((d, l.args[1]))
    if not ctx.check('expanded', 'there', bool(elems), at, 'tokens of the previous beam are not given back'):
        return
    hs = {}
    for d, i in elems:
        r = loops.header_phi(F, i)
        if not ctx.check('expanded', 'loop', r is not None, d.loc, 'only one token is given back'):
            continue
        hs.setdefault((F.defnode[r[0]], i), []).append(d)
    cl = [e for e in F.events if e.kind == 'call' and e.obj is not None and F.feasible(e.node) and locnorm(F, e.obj) is prevs and
          e.name.split('::')[-1] == 'clear']
    for (H, i), ds in hs.items():
        n = norm(F, F.load(F.instate[H], fld(prevs, '#size')))
        why = loops.covers(F, H, i, C(0), n, lambda k: aborts(F, k))
        ctx.check('expanded', 'all', not why, at, 'the loop over the tokens ' + why)
        nodes = {d.node for d in ds}
        R = F.assume(H, [], stop=nodes)
        bad = [k for k in loops.latches(F, H) if k in R.edges and k[0] not in nodes]
        ctx.check('expanded', 'given-back', not bad, ds[0].loc, 'a token of the previous beam may not be given back')
        for d in ds:
            R = F.assume(d.node, [], stop={H})
            again = [x for x in ds if x is not d and (x.node in R.nodes and x.node is not d.node or
                                                      x.node is d.node and x.seq > d.seq)]
            ctx.check('expanded', 'once', not again, d.loc, 'a token may be given back twice')
            inner = [G for G in loops.rounds(F, d.node) if G is not H and G in F.loops()[H]]
            ctx.check('expanded', 'not-repeated', not inner, d.loc, 'a token may be given back more than once')
            unused(ctx, F, d, norm(F, d.args[0]), 'ProcessEmitting', stop={H})
            # neither later: through the vector, or as the best token
            R = F.assume(d.node, [])
            for e, q in touches(F):
                if e.node not in R.nodes or e.node in F.loops()[H] and same_elem(F, q, d):
                    continue
                l = place(F, q)
                if q.op == 'out' and 'GetCutoff' in str(q.args[0]):
                    ctx.bad('after', 'best', e.loc, 'the best token is used after it was given back')
                elif l is not None and l.op == 'el' and l.args[0] is fld(prevs, '#data') and \
                        not any(F.evdom(c, e) for c in cl):
                    ctx.bad('after', 'previous', e.loc, 'a token of the previous beam is used after it was given back')
            # forgotten before the frame ends
            R = F.assume(d.node, [], stop={c.node for c in cl})
            ctx.check('expanded', 'forgotten', bool(cl) and F.exit not in R.nodes, d.loc,
                      'tokens that were given back stay in the previous beam')
        for c in cl:
            # only when all were given back
            R = F.assume(F.entry, [], stop={H})
            ctx.check('expanded', 'before-clear', c.node not in R.nodes and c.node not in F.loops()[H], c.loc,
                      'tokens are forgotten that were not given back')
    for e in F.events:
        if e.kind == 'call' and e.obj is not None and F.feasible(e.node) and locnorm(F, e.obj) in (toks, prevs):
            n = e.name.split('::')[-1]
            if n in ('pop_back', 'erase', 'resize', 'assign', 'operator=') or (n == 'clear' and locnorm(F, e.obj) is toks):
                ctx.bad('expanded', 'dropped', e.loc, 'tokens leave the beam without being given back')
    for e in F.events:
        i = beam_store(F, e, toks)
        if i is not None:
            ctx.bad('expanded', 'dropped', e.loc, 'a token of the beam is overwritten')


def same_elem(F, q, d):
    return q is norm(F, d.args[0])
