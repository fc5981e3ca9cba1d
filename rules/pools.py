"""The memory pools: which slot of which block a location is, and how sweeps over all slots are recognised."""
from rules.dec import *

POOL, GCP, OL = PK + 'Pool::', PK + 'GCPool::', D + 'OLabel'
DEALLOC = POOL + 'Dealloc'
COLLECT = [OL + '::OnCollect', PK + 'Collectable::OnCollect']


def blocksize(ctx):
    import re
    ns = {int(m.group(1)) for k in ctx.prog.records for m in [re.match(r'.*\bGCPool<.*, (\d+)>$', k)] if m}
    if len(ns) != 1:
        raise AnalysisBroken('the size of a block of the collected pool is not known')
    return C(ns.pop())


def f0(F, name):
    """the value of a field of this pool at the start"""
    return T('init', F.field(name))


def block_of(F, p):
    """p is the address of the first slot of block b: b, else None"""
    l = place(F, p)
    if l is not None and l.op == 'el' and l.args[0].op == 'fld' and l.args[0].args[1] == '#data' and \
            l.args[0].args[0] is F.field('blocks_'):
        return norm(F, l.args[1])
    return None


def slot_at(F, p):
    """pointer p designates slot i of block b: (b, i), else None"""
    p = norm(F, p)
    b = block_of(F, p)
    if b is not None:
        return b, C(0)
    if p.op == 'addr':
        return slot_loc(F, p.args[0])
    d, k = lin(p)
    for a, c in d.items():
        if c == 1 and a.op == 'addr':
            s = slot_loc(F, a.args[0])
            if s is not None:
                return s[0], add(s[1], sub(p, a))
        if c == 1 and (a.op in ('init', 'ld', 'phi', 'sel', 'out')):
            b = block_of(F, a)
            if b is not None:
                return b, sub(p, a)
    return None


def slot_loc(F, l):
    l = locnorm(F, l)
    if l.op == 'el' and l.args[0].op == 'buf':
        b = block_of(F, l.args[0].args[0])
        return None if b is None else (b, l.args[1])
    if l.op == 'deref':
        return slot_at(F, l.args[0])
    return None


def slot_read(F, v, field):
    """v was read from this field of a slot: (b, i)"""
    l = place(F, v)
    if l is not None and l.op == 'fld' and l.args[1] == field:
        return slot_loc(F, l.args[0])
    return None


def states(ctx):
    """what the methods of the collectable base class do to the state: {method: value}, and the tests"""
    out = {}
    for n in ('Mark', 'Unmark', 'Free', 'Use', 'Collectable'):
        F = ctx.flow('Collectable::' + n)
        out[n] = norm(F, F.final(F.field('state_')))
    for n in ('is_marked', 'is_freed'):
        F = ctx.flow('Collectable::' + n)
        s = T('init', F.field('state_'))
        out[n] = lambda v, F=F, s=s: truth(subst(F.ret, {s: v}))
    return out


def spans(F, b, i, size):
    """the inner loop over slot i of block b runs over all slots in use: (kind, why). kind: 'all' for blocks
    0..current, 'full' for those before the current one, 'last' for the current one"""
    cur, pos = f0(F, 'current_block_'), f0(F, 'current_pos_')
    r = loops.header_phi(F, i)
    if r is None:
        return None, 'does not run over the slots of a block'
    H = F.defnode[r[0]]
    kind, cases_ = None, []
    if b is cur or F.decide(eq(b, cur), F.facts(H)) is True:
        kind, cases_ = 'last', [(TRUE, pos)]
    else:
        r2 = loops.header_phi(F, b)
        if r2 is None:
            return None, 'does not run over the blocks'
        H2 = F.defnode[r2[0]]
        if not loops.covers(F, H2, b, C(0), add(cur, C(1)), lambda k: aborts(F, k)):
            kind, cases_ = 'all', [(eq(b, cur), pos), (NOT(eq(b, cur)), size)]
        elif not loops.covers(F, H2, b, C(0), cur, lambda k: aborts(F, k)):
            kind, cases_ = 'full', [(TRUE, size)]
        else:
            return None, 'the loop over the blocks ' + loops.covers(F, H2, b, C(0), add(cur, C(1)), lambda k: aborts(F, k))
        # every block is swept
        for k in loops.latches(F, H2):
            R = F.assume(H2, [], stop={H})
            if k in R.edges and k[0] is not H and H2 is not H:
                return None, 'a block may be passed over'
    if len(cases_) > 1 or cases_[0][0] is not TRUE:
        pass
    init, steps = F.steps(r[0])
    if r[1] != 1 or init is not C(0) or subst(i, {r[0]: C(0)}) is not C(0):
        # downwards is fine when everything is visited
        for c, hi in cases_:
            w = covers_if(F, H, i, hi, c)
            if w:
                return None, w
        return kind, ''
    for c, hi in cases_:
        w = covers_if(F, H, i, hi, c)
        if w:
            return None, w
    return kind, ''


def resolve(F, t, g):
    """t with the conditionals the facts decide replaced"""
    m = {}
    for x in walk(t):
        if x.op == 'ite':
            d = F.decide(x.args[0], g)
            if d is not None:
                m[x] = x.args[1] if d else x.args[2]
        elif x.op == 'phi' and x in F.phis and F.defnode[x] not in F.loops():
            vs = {v for k, v in F.phis[x].items() if F.E.get(k) is not None and
                  not any(f.op != 'c' and F.decide(f, F.E[k]) is False for f in g)}
            if len(vs) == 1:
                m[x] = vs.pop()
    return subst(t, m) if m else t


def covers_if(F, H, i, hi, c):
    """i runs over [0, hi) in the loop at H whenever c holds"""
    p, co = loops.header_phi(F, i)
    body = F.loops()[H]
    init, steps = F.steps(p)
    st = {s.args[0] * co if s.op == 'c' else None for s in steps}
    if len(st) != 1 or not st <= {1, -1}:
        return 'does not advance by one slot'
    up = st == {1}
    i0 = subst(i, {p: init})

    def prove(g, k, fs):
        s = set(fs)
        F.expand(c, s, F.E.get)
        s |= {resolve(F, f, frozenset(s)) for f in s}
        n = F._prove(g, frozenset(s), 3, {}, k[0])
        return n or any(F.decide(x, frozenset(s) - {x}) is False for x in s if x.op != 'c')
    for k in F.phis[p]:
        if k[0] in body or F.E.get(k) is None:
            continue
        if not prove(eq(i0, C(0) if up else sub(hi, C(1))), k, F.E[k]):
            return 'starts at %s' % show(i0)
    for k in loops.exits(F, H):
        if aborts(F, k):
            continue
        if not prove(le(hi, i, True) if up else lt(i, C(0), True), k, F.E[k]):
            return 'can be left before the last slot in use'
    # and not further
    for n in body:
        for j, (s, q) in enumerate(n.succs):
            if s in body and n is H and F.E.get((n, j)) is not None and len(n.succs) > 1:
                if not prove(lt(i, hi, True) if up else le(C(0), i, True), (n, j), F.E[(n, j)]):
                    return 'can run past the last slot in use'
    return ''


def round_of(F, node, i):
    """the header of the loop that i runs with"""
    r = loops.header_phi(F, i)
    return F.defnode[r[0]] if r else None
