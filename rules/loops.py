"""Which values does an index take before a loop is left?"""
from terms import *
import terms as TM


def header_phi(F, idx):
    """the single loop-header merge an index moves with: (phi, coefficient, rest) or None"""
    d, k = lin(idx)
    ps = [(a, c) for a, c in d.items() if a.op == 'phi' and a in F.phis and F.defnode[a] in F.loops()]
    live = [(a, c) for a, c in ps if F.steps(a) and any(s is not C(0) for s in F.steps(a)[1])]
    if len(live) != 1:
        return None
    return live[0]


def exits(F, header):
    body = F.loops()[header]
    for n in body:
        for i, (s, c) in enumerate(n.succs):
            if s not in body and F.E.get((n, i)) is not None:
                yield (n, i)


def latches(F, header):
    body = F.loops()[header]
    return [(n, i) for n in body for i, (s, c) in enumerate(n.succs) if s is header and
            F.E.get((n, i)) is not None]


def covers(F, node, idx, lo, hi, leave=None):
    """idx, evaluated at `node`, takes every value of [lo, hi) exactly once, in order, before the
    loop is left on any edge except those `leave(edge)` accepts (failures). Returns '' or why not."""
    r = header_phi(F, idx)
    if r is None:
        return _single(F, node, idx, lo, hi)
    p, c = r
    header = F.defnode[p]
    body = F.loops()[header]
    init, steps = F.steps(p)
    if c not in (1, -1):
        return 'moves in steps of %d' % c
    st = {s.args[0] * c if s.op == 'c' else None for s in steps}
    if len(st) != 1 or st & {None, 0} or not st <= {1, -1}:
        return 'does not advance by one per round'
    s = st.pop()
    pre = [k for k in F.phis[p] if k[0] not in body]
    i0 = subst(idx, {p: init})
    if s == 1:
        first, done, one = eq(i0, lo), (lambda x: le(hi, x, True)), C(1)
    else:
        first, done, one = eq(i0, sub(hi, C(1))), (lambda x: lt(x, lo, True)), C(-1)
    for k in pre:
        if F.E.get(k) is None:
            continue
        # nothing to cover is fine too
        if not (F._prove(first, frozenset(F.E[k]), 3, {}, k[0]) or
                F._prove(le(hi, lo, True), frozenset(F.E[k]), 3, {}, k[0]) or
                (s == 1 and F._prove(le(i0, lo, True), frozenset(F.E[k]), 3, {}, k[0]) and False)):
            return 'starts at %s' % show(i0)
    for k in latches(F, header):
        if not F.dominates(node, k[0]):
            return 'is skipped in some rounds'
    for k in exits(F, header):
        if leave is not None and leave(k):
            continue
        fs = frozenset(F.E[k])
        if F._prove(done(idx), fs, 3, {}, k[0]):
            continue
        if node is not header and F.dominates(node, k[0]) and F._prove(done(add(idx, one)), fs, 3, {}, k[0]):
            continue
        return 'the loop can be left at %s before the end' % (k[0],)
    return ''


def _single(F, node, idx, lo, hi):
    """outside a loop: the only element"""
    if F._prove(eq(idx, lo), F.facts(node), 3, {}, node) and \
            F._prove(eq(hi, add(lo, C(1))), F.facts(node), 3, {}, node):
        return ''
    return 'is not inside a loop over the range'


def rounds(F, node):
    """loop headers around a node, innermost first"""
    return sorted(F.inloops(node), key=lambda h: len(F.loops()[h]))


def aborts(F, k):
    """after this edge the program only ends abnormally"""
    seen, todo = set(), [k]
    while todo:
        n = todo.pop()
        t = n[0].succs[n[1]][0]
        if t in seen:
            continue
        seen.add(t)
        if getattr(t, 'dead', False):
            continue
        if t is F.exit or not t.succs or t in F.loops():
            return False
        todo += [(t, i) for i in range(len(t.succs)) if F.E.get((t, i)) is not None]
    return True


def after(F, H, facts):
    """[facts]: what holds after leaving the loop at H, one set for each way out that agrees with `facts`"""
    out = []
    mine = [f for f in facts if f.op != 'c']
    for k in exits(F, H):
        e = F.E.get(k)
        if e is None or aborts(F, k):
            continue
        e = frozenset(e)
        if any(F.decide(f, e) is False for f in mine):
            continue
        s = set(e)
        for f in mine:
            F.expand(f, s, None)
        out.append(frozenset(s))
    return out


def ways(F, R, k, limit=64):
    """the facts at edge k, one set for each way of arriving there: merges without a decision of their own are
    taken apart. R: a Reach, or F itself"""
    edges = R.edges if hasattr(R, 'edges') else {x for x, v in F.E.items() if v is not None}
    out, todo, seen = [], [k], set()
    while todo:
        e = todo.pop()
        if e in seen:
            continue
        seen.add(e)
        n = e[0]
        ps = [p for p in n.preds if p in edges]
        if n is getattr(R, 'start', None) or not ps or len([1 for i in range(len(n.succs)) if (n, i) in edges]) > 1 or \
                n in F.loops() or len(seen) > limit:
            out.append(frozenset(R.E[e]))
        else:
            todo += ps
    return out
