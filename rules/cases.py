"""Split merged values into the cases they come from."""
from terms import *
import terms as TM


def leaves(F, p, stop=()):
    """non-merge values that can flow into phi p through merges of the same variable or others;
    merges in `stop` are kept"""
    out, seen, todo = set(), set(), [p]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in F.phis and x not in stop:
            for k, v in F.phis[x].items():
                if F.E.get(k) is not None:
                    todo.append(v)
        else:
            out.add(x)
    return out


def options(F, p):
    """[(value, facts where it was chosen)]: what p can be, through merges, conditionals, minima and maxima"""
    out, seen, todo = {}, set(), [(p, None)]
    while todo:
        x, fs = todo.pop()
        if (x, fs) in seen or len(seen) > 2000:
            continue
        seen.add((x, fs))
        if x.op == 'phi' and x in F.phis:
            for k, v in F.phis[x].items():
                if F.E.get(k) is not None:
                    todo.append((v, frozenset(F.E[k])))
        elif x.op in ('min', 'max'):
            todo += [(v, fs) for v in x.args if hasattr(v, 'op')]
        elif x.op == 'ite':
            todo += [(v, fs) for v in x.args[1:]]
        else:
            out[(x, fs)] = 1
    return list(out)


def norm(F, t):
    """t with every merge replaced that only ever takes one value, available where it merges"""
    memo = getattr(F, '_norm', None)
    if memo is None:
        memo = F._norm = {}

    def one(p):
        if p in memo:
            return memo[p]
        memo[p] = p
        ls = leaves(F, p)
        if len(ls) == 1:
            v = next(iter(ls))
            ds = F.defnodes(v)
            # the same value in every round: defined before the merge
            if all(F.dominates(d, F.defnode[p]) and d is not F.defnode[p] for d in ds):
                memo[p] = norm(F, v)
        return memo[p]
    for _ in range(8):
        m = {}
        for x in walk(t):
            if x.op == 'phi' and x in F.phis:
                y = one(x)
                if y is not x:
                    m[x] = y
        if not m:
            return t
        t = subst(t, m)
    return t


def current(F, d, ctx):
    """a merge at d whose value is still in use at ctx was passed in the same round"""
    return F.dominates(d, ctx) or set(F.inloops(d)) <= set(F.inloops(ctx))


def close(F, fs):
    """resolve the disjunctions in fs by its other facts; False if it contradicts itself"""
    for f in [f for f in fs if (f.args[0] if f.op == 'not' else f).op == 'ite']:
        fs.discard(f)
        F.expand(f, fs, None)
    return not any(f.op != 'c' and NOT(f) in fs for f in fs)


MORE = 1


def cases(F, ts, node, extra=(), limit=64, R=None, keep=(), deep=False, full=False):
    """[(terms, facts)]: the values of a tuple of terms at node, one entry per combination of the
    branches that led there; merges at loop headers and those in `keep` stay symbolic. With R (a Reach)
    only the paths it explored count; `deep` also splits the merges a conditional depends on"""
    E = R.E if R is not None else F.E
    ts = tuple(norm(F, t) for t in ts)
    out, n = [], 0
    heads = F.loops()
    todo = [(ts, frozenset((R.N.get(node) if R is not None else None) or F.facts(node)) | frozenset(extra), node, frozenset(), None)]
    while todo:
        cur, fs, ctx, held, side = todo.pop()
        n += 1
        if n > limit * 4 * MORE:
            return None
        ps = [x for t in cur for x in walk(t) if x.op == 'phi' and x in F.phis and x not in keep and x not in held and
              (R is None or (F.defnode[x] in R.nodes and F.defnode[x] is not R.start))]
        held |= {x for x in ps if F.defnode[x] in heads and F.dominates(F.defnode[x], ctx)}
        ps = [x for x in ps if x not in held]
        ite = next((x for t in cur for x in walk(t) if x.op == 'ite'), None)
        if ite is not None:
            c, a, b = ite.args
            for cond, v in ((c, a), (NOT(c), b)):
                if F.decide(cond, fs) is False:
                    continue
                f2 = set()
                for f in fs:
                    f2.add(subst(f, {ite: v}) if ite in walk(f) else f)
                if FALSE in f2 or any(f.op != 'c' and ite in walk(g) and F.decide(f, fs) is False
                                      for g in fs for f in (subst(g, {ite: v}),)):
                    continue
                F.expand(cond, f2, None)
                if not close(F, f2):
                    continue
                more = tuple(x for x in walk(c) if x.op == 'phi' and x not in cur) if deep else ()
                todo.append((tuple(subst(t, {ite: v}) for t in cur) + more, frozenset(f2), ctx, held, side))
            continue
        if not ps:
            more = set(side or ())
            out.append((cur[:len(ts)], fs | frozenset(more) if more and close(F, more) else fs))
            continue
        if side is None:
            # what is known about values merged here and about those of the loops around
            side = frozenset(f for f in fs if full or held and len(held & set(walk(f))) > 0)
        p = max(ps, key=lambda x: F.rpoi[F.defnode[x]])
        d = F.defnode[p]
        same = [x for x in ps if F.defnode[x] is d]
        kept = [f for f in fs if all(F.dominates(y, d) and y is not d for y in F.defnodes(f))] \
            if current(F, d, ctx) else []
        for k in F.phis[p]:
            e = E.get(k)
            if e is None:
                continue
            m = {x: F.phis[x].get(k, x) for x in same}
            mm = {x: F.phis[x].get(k, x) for x in F.at(d)}
            f2 = set(e) | set(kept)
            dead = any(F.decide(f, frozenset(e)) is False for f in kept)
            # what is known about the merged values holds for the incoming ones
            for f in fs:
                if d in F.defnodes(f) and all(F.dominates(y, d) for y in F.defnodes(f)) and current(F, d, ctx):
                    g = subst(f, mm)
                    if g is FALSE or (g.op != 'c' and F.decide(g, frozenset(f2)) is False):
                        dead = True
                        break
                    if g.op != 'c':
                        f2.add(g)
            if dead or not close(F, f2):
                continue
            todo.append((tuple(norm(F, subst(t, m)) for t in cur), frozenset(f2), k[0], held,
                         frozenset(subst(f, mm) for f in side) if current(F, d, ctx) else frozenset()))
    return out


def disjuncts(F, g, limit=16):
    """the fact set split at the disjunctions in it"""
    todo, out = [frozenset(g)], []
    while todo:
        fs = todo.pop()
        for f in fs:
            i = f.args[0] if f.op == 'not' else f
            if i.op == 'ite' and i.args[0] not in fs and NOT(i.args[0]) not in fs and len(todo) + len(out) < limit:
                for c in (i.args[0], NOT(i.args[0])):
                    if F.decide(c, fs) is False:
                        continue
                    f2 = set(fs) - {f}
                    F.expand(c, f2, None)
                    F.expand(f, f2, None)
                    if not any(F.decide(x, frozenset(f2) - {x}) is False for x in f2 - fs):
                        todo.append(frozenset(f2))
                break
            if i.op == 'phi' and i in F.phis and F.defnode[i] not in F.loops() and len(todo) + len(out) < limit:
                # a truth value merged from several ways: one of them was taken
                for k, v in F.phis[i].items():
                    e = F.E.get(k)
                    c = truth(v) if f is i else NOT(truth(v))
                    if e is None or c is FALSE:
                        continue
                    f2 = set(fs) - {f}
                    for x in e:
                        F.expand(x, f2, None)
                    F.expand(c, f2, None)
                    if not any(x.op != 'c' and F.decide(x, frozenset(f2) - {x}) is False for x in f2):
                        todo.append(frozenset(f2))
                break
        else:
            out.append(fs)
    return out
