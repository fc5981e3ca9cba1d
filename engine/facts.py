"""Must-hold branch facts, a small linear prover, and assumption-pruned reachability."""
import re
import math
from fractions import Fraction
from terms import *
import terms as TM
from program import program
from flow import Flow, NONNEG, PTR


class Top:
    pass


TOP = Top()
# strictness of a comparison of reals
EPS = Fraction(1, 10 ** 18)


# ------------------------------------------------------------------ linear arithmetic
def ineqs(f, out, neqs):
    """f holds -> list of (lin dict, const) meaning expr <= 0"""
    pol = True
    while f.op == 'not':
        pol = not pol
        f = f.args[0]
    if f.op == 'lt0':
        d, k = lin(f.args[0])
        if pol:
            out.append((d, k + (1 if f.args[1] else EPS)))
        else:
            out.append(({a: -c for a, c in d.items()}, -k))
    elif f.op == 'le0':
        d, k = lin(f.args[0])
        if pol:
            out.append((d, k))
        else:
            out.append(({a: -c for a, c in d.items()}, EPS - k))
    elif f.op == 'eq0':
        d, k = lin(f.args[0])
        if pol:
            out.append((d, k))
            out.append(({a: -c for a, c in d.items()}, -k))
        else:
            neqs.append((d, k))


def axioms(atoms, done, out):
    todo = list(atoms)
    while todo:
        a = todo.pop()
        if a in done:
            continue
        done.add(a)
        new = []
        if a in NONNEG or (a.op == 'm' and a.args[0] == 'size') or \
                (a.op in ('init', 'sel') and ((a.op == 'init' and a.args[0].op == 'fld' and a.args[0].args[1] == '#size')
                                              or (a.op == 'sel' and a.args[1] == '#size'))):
            out.append(({a: -1}, 0))
        if a.op == 'init' and a.args[0].op == 'el' and a.args[0].args[0].op == 'glob':
            b = table_bounds(a.args[0].args[0].args[0])
            if b is not None:
                out.append(({a: -1}, b[0]))
                out.append(({a: 1}, -b[1]))
        if a.op in ('min', 'max'):
            s = 1 if a.op == 'min' else -1
            for x in a.args:
                d, k = lin(sub(a, x))
                out.append(({t: s * c for t, c in d.items()}, s * k))
                new += list(d)
        if a.op == 'idiv' and a.args[1].op == 'c' and a.args[1].args[0] > 0:
            c = a.args[1].args[0]
            # (truncating) c*q <= x + (c-1) and c*q >= x - (c-1)
            d, k = lin(sub(scale(a, c), a.args[0]))
            out.append((d, k - (c - 1)))
            out.append(({t: -v for t, v in d.items()}, -k - (c - 1)))
            new += list(d)
        if a.op == 'imod' and a.args[1].op == 'c':
            c = abs(a.args[1].args[0])
            out.append(({a: 1}, -(c - 1)))
            out.append(({a: -1}, -(c - 1)))
        todo += [x for x in new if x not in done]


_tables = {}


def table_bounds(name):
    """(min, max) of a constant table of integers that nothing writes"""
    if name not in _tables:
        r = None
        P = program()
        g = P.globals.get(name)
        if g and g.get('list') and all(x is not None for x in g['list']):
            vals = [int(x) for x in g['list']]
            m = re.search(r'\[(\d+)\]$', g['type'])
            if m and int(m.group(1)) == len(vals) and not written(P, name):
                r = (min(vals), max(vals))
        _tables[name] = r
    return _tables[name]


def written(P, name):
    for f in P.functions.values():
        em = f['emap']
        for b in f['blocks']:
            for e in b['elems']:
                t = e.get('a') if e['k'] == 'assign' or (e['k'] == 'un' and e.get('op') in ('++', '--', '&')) else None
                n = 0
                while t is not None and n < 20:
                    n += 1
                    x = em.get(t)
                    if x is None:
                        break
                    if x['k'] == 'var':
                        v = f['vars'].get(str(x['var'])) or {}
                        if v.get('k') == 'global' and v.get('q', v.get('name')) == name:
                            return True
                        break
                    t = x.get('a', x.get('base'))
    return False


def infeasible(cs, limit=400):
    """Fourier-Motzkin over the rationals with integer tightening left out."""
    # an infinity is no number to reckon with: what it stands in is left out
    cs = [({a: c for a, c in d.items() if c}, k) for d, k in cs
          if math.isfinite(k) and all(math.isfinite(c) for c in d.values())]
    seen = set()

    def key(d, k):
        return (tuple(sorted((a.id, c) for a, c in d.items())), k)
    cur = []
    for d, k in cs:
        if not d:
            if k > 0:
                return True
            continue
        kk = key(d, k)
        if kk not in seen:
            seen.add(kk)
            cur.append((d, k))
    while cur:
        cnt = {}
        for d, k in cur:
            for a, c in d.items():
                p = cnt.setdefault(a, [0, 0])
                p[0 if c > 0 else 1] += 1
        # a variable bounded on one side only is free to move
        free = [a for a, (p, q) in cnt.items() if p == 0 or q == 0]
        if free:
            fs = set(free)
            cur = [(d, k) for d, k in cur if not (fs & set(d))]
            continue
        a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [(d, k) for d, k in cur if d.get(a, 0) > 0]
        ng = [(d, k) for d, k in cur if d.get(a, 0) < 0]
        rest = [(d, k) for d, k in cur if a not in d]
        if len(rest) + len(pos) * len(ng) > limit:
            return False
        for d1, k1 in pos:
            for d2, k2 in ng:
                m1, m2 = -d2[a], d1[a]
                d = {}
                for t, c in d1.items():
                    d[t] = d.get(t, 0) + c * m1
                for t, c in d2.items():
                    d[t] = d.get(t, 0) + c * m2
                d = {t: c for t, c in d.items() if c}
                k = k1 * m1 + k2 * m2
                if not d:
                    if k > 0:
                        return True
                    continue
                kk = key(d, k)
                if kk not in seen:
                    seen.add(kk)
                    rest.append((d, k))
        cur = rest
    return False


def relevant(cs, goal_atoms):
    """constraints connected to the goal through shared atoms"""
    atoms = set(goal_atoms)
    out, rest = [], list(cs)
    ch = True
    while ch:
        ch = False
        nr = []
        for c in rest:
            d = c[0]
            if not d:
                out.append(c)
            elif atoms & set(d):
                atoms |= set(d)
                out.append(c)
                ch = True
            else:
                nr.append(c)
        rest = nr
    return out


def decide_lin(goal, facts):
    """goal: comparison term. True if facts imply it."""
    if goal.op == 'c':
        return bool(goal.args[0])
    neg, dummy = [], []
    g = goal
    pol = True
    while g.op == 'not':
        pol = not pol
        g = g.args[0]
    if g.op == 'eq0' and pol:
        e = g.args[0]
        isint = all(isinstance(c, int) for _, c in lin(e)[0].items())
        return decide_lin(lt(e, C(1), True), facts) and decide_lin(lt(neg_(e), C(1), True), facts)
    if g.op == 'eq0' and not pol:
        e = g.args[0]
        return decide_lin(lt(e, C(0), True), facts) or decide_lin(lt(C(0), e, True), facts)
    if g.op not in ('lt0', 'le0'):
        return False
    ineqs(NOT(goal), neg, dummy)
    cs, neqs = [], []
    for f in facts:
        ineqs(f, cs, neqs)
    atoms = set(neg[0][0]) if neg else set()
    ax, done = [], set()
    allatoms = set(atoms)
    for d, _ in cs:
        allatoms |= set(d)
    axioms(allatoms, done, ax)
    cons = relevant(cs + ax, atoms)
    if infeasible(cons + neg):
        return True
    # use one disequality
    for d, k in neqs:
        if not (set(d) <= allatoms | atoms):
            continue
        up = (d, k + 1)
        dn = ({a: -c for a, c in d.items()}, -k + 1)
        allc = relevant(cs + ax + [up, dn], atoms)
        base = [c for c in allc if c is not up and c is not dn]
        if infeasible(base + neg + [up]) and infeasible(base + neg + [dn]):
            return True
    return False


neg_ = TM.neg


class Analysis(Flow):
    """Flow plus facts."""

    def __init__(self, *a, assuming=None, **k):
        """assuming: F -> facts that hold at the start"""
        super().__init__(*a, **k)
        self._defs = {}
        self._memo = {}
        init = frozenset(assuming(self)) if assuming else frozenset()
        self.E, self.N = self.run(self.entry, init, None)
        for _ in range(2):
            self._memo = {}
            self.E, self.N = self.run(self.entry, init, self.E.get)
        # what always comes before: over the edges that can be taken
        self.idom = self._dominators(lambda k: self.E.get(k) is not None)
        self._memo = {}

    def defnodes(self, t):
        r = self._defs.get(t)
        if r is None:
            r = frozenset(self.defnode[x] for x in walk(t) if x in self.defnode)
            self._defs[t] = r
        return r

    # -- expansion of one condition known to hold
    def expand(self, t, out, E, depth=0):
        if t.op == 'c' or t in out:
            return
        out.add(t)
        if t.op == 'ite':
            a, b, c = t.args
            if c is FALSE:
                self.expand(a, out, E, depth)
                self.expand(truth(b), out, E, depth)
            elif b is FALSE:
                self.expand(NOT(a), out, E, depth)
                self.expand(truth(c), out, E, depth)
            elif a in out:
                self.expand(truth(b), out, E, depth)
            elif NOT(a) in out:
                self.expand(truth(c), out, E, depth)
            return
        if t.op == 'not' and t.args[0].op == 'ite':
            a, b, c = t.args[0].args
            if b is TRUE:
                self.expand(NOT(a), out, E, depth)
                self.expand(NOT(truth(c)), out, E, depth)
            elif c is TRUE:
                self.expand(a, out, E, depth)
                self.expand(NOT(truth(b)), out, E, depth)
            elif a in out:
                self.expand(NOT(truth(b)), out, E, depth)
            elif NOT(a) in out:
                self.expand(NOT(truth(c)), out, E, depth)
            return
        if depth > 6:
            return
        # conditions on a merged value select the incoming paths that can produce it
        if E is None:
            return
        for p in self.phis_in(t):
            keep = []
            for (pn, i), v in self.phis[p].items():
                r = subst(t, {p: v}) if v is not p else t
                if r is FALSE:
                    continue
                fs = E((pn, i), None)
                if fs is None:
                    continue
                if r is not t and self.decide(r, fs) is False:
                    continue
                keep.append(((pn, i), r, fs, v))
            if not keep:
                if self.phis[p] and self.alive(p, E):
                    out.add(FALSE)
                continue
            node = self.defnode[p]
            if len(keep) < len(self.phis[p]):
                common = None
                for k, r, fs, v in keep:
                    s = set(fs)
                    if r is not t:
                        s2 = set()
                        self.expand(r, s2, E, depth + 1)
                        s |= s2
                    common = s if common is None else self.meet(common, s)
                # facts about values produced at the merge itself or since (the merge heads a loop) are stale
                stale = lambda f: any(self.dominates(node, d) for d in self.defnodes(f))
                for f in common:
                    if not stale(f):
                        out.add(f)
                if len(keep) == 1 and keep[0][3] is not p and not stale(keep[0][3]):
                    v = keep[0][3]
                    q = self.same(p, v)
                    if q is not None:
                        out.add(q)

    def alive(self, p, E):
        return any(E(k, None) is not None for k in self.phis[p])

    def same(self, p, v):
        q = eq(p, v)
        return q if q.op in ('eq0', 'eq') else None

    def phis_in(self, t):
        x = t
        while x.op in ('not', 'isok'):
            x = x.args[0]
        c = [x] if x.op == 'phi' else [y for y in walk(x) if y.op == 'phi']
        return [p for p in c if p in self.phis][:3]

    def meet(self, a, b):
        r = set(a) & set(b)
        for x, y in ((a, b), (b, a)):
            for f in x:
                if f not in r and f.op in ('lt0', 'le0', 'eq0', 'not') and len(walk(f)) < 14 and \
                        self._quick(f, y):
                    r.add(f)
        return r

    def _quick(self, f, facts):
        k = ('q', f, frozenset(facts))
        r = self._memo.get(k)
        if r is None:
            atoms = set(x for x in children(f if f.op != 'not' else f.args[0]))
            rel = [g for g in facts if g.op in ('lt0', 'le0', 'eq0', 'not')]
            r = self._memo[k] = decide_lin(f, rel)
        return r

    def decide(self, t, facts, rw=3):
        """True / False / None for a condition under facts"""
        if t.op == 'c':
            return bool(t.args[0])
        if t in facts:
            return True
        n = NOT(t)
        if n in facts:
            return False
        if t.op == 'not':
            r = self.decide(t.args[0], facts, rw)
            return None if r is None else not r
        if t.op == 'ite':
            c = self.decide(t.args[0], facts, rw)
            if c is not None:
                return self.decide(truth(t.args[1 if c else 2]), facts, rw)
            a = self.decide(truth(t.args[1]), facts, rw)
            b = self.decide(truth(t.args[2]), facts, rw)
            return a if a == b else None
        if t.op in ('lt0', 'le0', 'eq0'):
            m = self.rewrite(t, facts) if rw else t
            if m is not t:
                return self.decide(m, facts, rw - 1)
            k = (t, frozenset(facts))
            if k in self._memo:
                return self._memo[k]
            r = None
            if decide_lin(t, facts):
                r = True
            elif decide_lin(n, facts):
                r = False
            else:
                for a in lin(t.args[0])[0]:
                    if a.op == 'ite' and rw:
                        c = self.decide(a.args[0], facts, rw - 1)
                        rs = {self.decide(subst(t, {a: b}), facts, rw - 1)
                              for b, w in ((a.args[1], True), (a.args[2], False)) if c is None or c is w}
                        if len(rs) == 1:
                            r = rs.pop()
                        break
            self._memo[k] = r
            return r
        if t.op in ('isok', 'eq'):
            m = self.rewrite(t, facts) if rw else t
            if m is not t:
                return self.decide(m, facts, rw - 1)
            for a in t.args:
                if isinstance(a, Term) and a.op == 'ite' and rw:
                    c = self.decide(a.args[0], facts, rw - 1)
                    rs = {self.decide(subst(t, {a: b}), facts, rw - 1)
                          for b, w in ((a.args[1], True), (a.args[2], False)) if c is None or c is w}
                    return rs.pop() if len(rs) == 1 else None
            return None
        if t.op in ('phi', 'init'):
            z = eq(t, C(0))
            if z.op != 'c' and z in facts:
                return False
            if z.op != 'c' and NOT(z) in facts:
                return True
        return None

    def rewrite(self, t, facts):
        """replace atoms that the facts equate with constants/status values"""
        m = {}
        for f in facts:
            if f.op == 'eq':
                a, b = f.args
                if a in (NULL, OK) or a.op in ('str', 'fail'):
                    if b not in (NULL, OK) and b.op not in ('str', 'fail'):
                        m[b] = a
                elif b in (NULL, OK) or b.op in ('str', 'fail'):
                    m[a] = b
            elif f.op == 'eq0':
                d, k = lin(f.args[0])
                if len(d) == 1:
                    (a, c), = d.items()
                    if a.op in ('phi', 'init', 'res', 'out', 'm', 'fn', 'sel') and c in (1, -1):
                        m[a] = C(-k * c)
        if not m:
            return t
        return subst(t, m)

    # -- forward propagation of facts from a start point
    def run(self, start, init, Eref, stop=()):
        """Facts on every edge reachable from start. Returns (edge facts, node facts)."""
        E, N = {}, {}
        N[start] = frozenset(init)
        # only nodes reachable from start
        work = [start]
        inq = {start}
        it = 0
        order = self.rpoi
        counts = {}
        import heapq
        heap = [(order[start], start.id, start)]
        while heap:
            _, _, n = heapq.heappop(heap)
            if n not in inq:
                continue
            inq.discard(n)
            it += 1
            counts[n] = counts.get(n, 0) + 1
            if n is start:
                fin = N[start]
            else:
                ins = []
                for p, i in n.preds:
                    if (p, i) in E and E[(p, i)] is not None:
                        ins.append(E[(p, i)])
                if not ins:
                    continue
                cur = set(ins[0])
                for s in ins[1:]:
                    cur = self.meet(cur, s) if counts[n] < 8 else cur & s
                cur = {f for f in cur if n not in self.defnodes(f)}
                fin = frozenset(cur)
                if n in N and counts[n] >= 8:
                    fin = fin & N[n]
                if n in N and N[n] == fin and counts[n] > 1 and not self._dirty(n):
                    continue
                N[n] = fin
            if n in stop and n is not start or n.dead:
                continue
            for i, (s, c) in enumerate(n.succs):
                if (n, i) not in self.edge_live:
                    continue
                t = self.econd[(n, i)]
                d = self.decide(t, fin)
                if d is False:
                    new = None
                else:
                    out = set(fin)
                    self.expand(t, out, Eref)
                    if FALSE in out or self.contradictory(out, t, fin):
                        new = None
                    else:
                        new = frozenset(out)
                old = E.get((n, i), TOP)
                if old is TOP or old != new:
                    if new is None and old is TOP:
                        E[(n, i)] = None
                        continue
                    E[(n, i)] = new
                    if s is start and start is not self.entry:
                        continue
                    if s not in inq:
                        inq.add(s)
                        heapq.heappush(heap, (order[s], s.id, s))
        return E, N

    def _dirty(self, n):
        return False

    def contradictory(self, fs, t, before=frozenset()):
        for x in [t] + [x for x in fs if x not in before]:
            if x.op != 'c' and x in fs and NOT(x) in fs:
                return True
        return False

    def facts(self, n):
        return self.N.get(n, frozenset())

    def feasible(self, n):
        return n in self.N

    # -- proofs
    def prove(self, goal, node, depth=3, extra=()):
        """goal holds whenever control is at node"""
        return self._prove(goal, frozenset(self.facts(node)) | frozenset(extra), depth, {}, node)

    def _prove(self, goal, facts, depth, hyp, node=None):
        if goal.op == 'c':
            return bool(goal.args[0])
        if self.decide(goal, facts) is True:
            return True
        if goal.op == 'ite' and goal.args[2] is FALSE:
            return self._prove(goal.args[0], facts, depth, hyp, node) and \
                self._prove(truth(goal.args[1]), facts, depth, hyp, node)
        if depth <= 0:
            return False
        if goal.op in ('lt0', 'le0', 'eq0', 'not') and depth > 1:
            for x in walk(goal):
                if x.op == 'ite' and x is not goal:
                    c, a, b = x.args
                    r = True
                    for cond, v in ((c, a), (NOT(c), b)):
                        if self.decide(cond, facts) is False:
                            continue
                        fs = set(facts)
                        self.expand(cond, fs, None)
                        r = r and self._prove(subst(goal, {x: v}), frozenset(fs), depth - 1, hyp, node)
                    if r:
                        return True
                    break
        ps = [x for x in walk(goal) if x.op == 'phi' and x in self.phis]
        # facts may relate other merged values to the goal: strengthen with their bounds
        more = set(facts)
        for x in {y for f in list(facts) + [goal] for y in walk(f) if y.op == 'phi' and y in self.phis}:
            more |= self.induct(x)
            more |= self.lockstep(x)
        if len(more) > len(facts):
            if self.decide(goal, frozenset(more)) is True:
                return True
            facts = frozenset(more)
        for p in sorted(ps, key=lambda x: -self.rpoi.get(self.defnode[x], 0)):
            if (p, goal) in hyp:
                continue
            for last in (True, False):
                r = self._apart(goal, p, ps, facts, depth, hyp, node, last)
                if r is True:
                    return True
                if r is None:
                    break
        return False

    def _apart(self, goal, p, ps, facts, depth, hyp, node, last):
        """goal holds for every value p may have taken; `last` uses what is known of the values p was merged with
        now, otherwise the goal is shown for every time the merge was passed. None: no use in trying otherwise"""
        n = self.defnode[p]
        body = self.loops().get(n)
        # what is known here still held when the merge was last left
        keepf, heref = (), ()
        if node is not None and self.dominates(n, node):
            keepf = [f for f in facts if all(d is not n and self.dominates(d, n)
                                             for d in self.defnodes(f))]
            if last:
                heref = [f for f in facts if n in self.defnodes(f) and
                         all(self.dominates(d, n) for d in self.defnodes(f))]
        # other merged values of the same node move together
        same = [x for x in ps if self.defnode[x] is n]
        for (pn, i), v in self.phis[p].items():
            fs = self.E.get((pn, i), TOP)
            if fs is TOP or fs is None:
                continue
            m = {x: self.phis[x].get((pn, i), x) for x in same}
            g = subst(goal, m)
            h = dict(hyp)
            if any(f not in fs and self.decide(f, fs) is False for f in keepf):
                continue
            fs2 = set(fs)
            fs2.update(keepf)
            if heref:
                mm = {x: self.phis[x].get((pn, i), x) for x in self.at(n)}
                dead = False
                for f in heref:
                    f2 = subst(f, mm)
                    if f2 is FALSE or (f2.op != 'c' and self.decide(f2, frozenset(fs2)) is False):
                        dead = True
                        break
                    if f2.op != 'c':
                        fs2.add(f2)
                        if depth > 1 and len(walk(f2)) < 12 and any(y in self.phis for y in walk(f2)) and \
                                self._never(f2, (pn, i)):
                            dead = True
                            break
                if dead:
                    continue
            if body is not None and pn in body:
                # induction: goal held at the previous visit of the header, if that was known then
                inv = all(d not in body or d is n for d in self.defnodes(goal)) and \
                    all(f in fs2 or self.decide(f, frozenset(fs2)) is True for f in heref)
                if inv:
                    fs2.add(goal)
                h[(p, goal)] = True
            if g is goal and goal in fs2:
                continue
            if not self._prove(g, frozenset(fs2), depth - 1, h, pn):
                return False if heref and body is not None else None
        return True

    def _never(self, f, edge):
        """f cannot hold when control takes this edge"""
        k = ('never', f, edge)
        if k not in self._memo:
            self._memo[k] = False
            self._memo[k] = self._prove(NOT(f), frozenset(self.E.get(edge) or ()), 1, {}, edge[0])
        return self._memo[k]

    def induct(self, p):
        """p >= initial value when every back edge only increases it (and dually)."""
        r = self._memo.get(('ind', p))
        if r is not None:
            return r
        self._memo[('ind', p)] = frozenset()
        out = set()
        n = self.defnode[p]
        body = self.loops().get(n)
        if body is not None and p in self.phis:
            inits, steps = [], []
            for (pn, i), v in self.phis[p].items():
                if self.E.get((pn, i), TOP) in (TOP, None):
                    continue
                if pn in body:
                    d = sub(v, p) if v.op not in ('null', 'str', 'ok', 'fail', 'agg') else None
                    steps.append(d)
                else:
                    inits.append(v)
            if inits and all(s is not None for s in steps) and all(
                    v.op not in ('null', 'str', 'ok', 'fail', 'agg') for v in inits):
                up = all(s.op == 'c' and s.args[0] >= 0 or s in NONNEG for s in steps)
                dn = all(s.op == 'c' and s.args[0] <= 0 for s in steps)
                for v in inits:
                    if len(inits) == 1:
                        if up:
                            t = le(v, p, True)
                            if t.op != 'c':
                                out.add(t)
                        if dn:
                            t = le(p, v, True)
                            if t.op != 'c':
                                out.add(t)
        r = frozenset(out)
        self._memo[('ind', p)] = r
        return r

    def steps(self, p):
        """(initial value, [change on each back edge]) of a loop-header merge, or None"""
        r = self._memo.get(('steps', p))
        if r is not None:
            return r or None
        n = self.defnode.get(p)
        body = self.loops().get(n) if n is not None else None
        r = ()
        if body is not None and p in self.phis:
            inits, steps = set(), []
            good = True
            for (pn, i), v in self.phis[p].items():
                if self.E.get((pn, i), TOP) in (TOP, None):
                    continue
                if v.op in ('null', 'str', 'ok', 'fail', 'agg'):
                    good = False
                    break
                if pn in body:
                    steps.append(sub(v, p))
                else:
                    inits.add(v)
            if good and len(inits) == 1 and steps:
                r = (inits.pop(), steps)
        self._memo[('steps', p)] = r
        return r or None

    def lockstep(self, p):
        """equalities between p and the other merged values of the same loop header that move
        in a fixed ratio with it"""
        r = self._memo.get(('lock', p))
        if r is not None:
            return r
        self._memo[('lock', p)] = frozenset()
        out = set()
        s = self.steps(p)
        if s:
            n = self.defnode[p]
            body = self.loops()[n]
            for q in self.at(n):
                if q is p:
                    continue
                t = self.steps(q)
                if not t or len(t[1]) != len(s[1]):
                    continue
                dp, dq = sub(p, s[0]), sub(q, t[0])
                if all(a is b for a, b in zip(s[1], t[1])) and \
                        not any(a.op == 'phi' and p in walk(a) for a in s[1]):
                    out.add(eq(dp, dq))
                    continue
                for (a, da, b, db) in ((s, dp, t, dq), (t, dq, s, dp)):
                    if len(set(a[1])) == 1 and len(set(b[1])) == 1 and a[1][0].op == 'c' and \
                            a[1][0].args[0] != 0 and all(d not in body for d in self.defnodes(b[1][0])):
                        out.add(eq(scale(db, a[1][0].args[0]), mul(da, b[1][0])))
                        break
                else:
                    if all(x.op == 'c' for x in s[1] + t[1]):
                        k = [(x.args[0], y.args[0]) for x, y in zip(s[1], t[1])]
                        a, b = next(((x, y) for x, y in k if x or y), (0, 0))
                        if (a or b) and all(x * b == y * a for x, y in k):
                            out.add(eq(scale(dp, b), scale(dq, a)))
        out = {x for x in out if x.op != 'c'}
        r = frozenset(out)
        self._memo[('lock', p)] = r
        return r

    def at(self, n):
        r = self._memo.get('at')
        if r is None:
            r = self._memo['at'] = {}
            for q in self.phis:
                r.setdefault(self.defnode[q], []).append(q)
        return r.get(n, [])

    # -- assumption propagation
    def assume(self, node, assumptions, stop=()):
        """Explore everything after `node` under extra assumptions on values known there.
        Returns a Reach object."""
        init = set(self.facts(node))
        for a in assumptions:
            self.expand(a, init, self.E.get)
        init = frozenset(init)
        E, N = self.run(node, init, self.E.get, stop)
        for _ in range(2):
            E1 = E

            def ref(k, d=None):
                # merges evaluated before the start keep their unrestricted facts
                tgt = k[0].succs[k[1]][0]
                if self.dominates(tgt, node):
                    return self.E.get(k, d)
                v = E1.get(k, TOP)
                return d if v is TOP else v
            E, N = self.run(node, init, ref, stop)
        return Reach(self, node, E, N)


class Reach:
    def __init__(self, F, start, E, N):
        self.F, self.start, self.E, self.N = F, start, E, N
        self.edges = {k for k, v in E.items() if v is not None}
        self.nodes = set(N)

    def reached(self, ev):
        if ev.node is self.start:
            return True
        return ev.node in self.nodes

    def values(self, v, depth=0, seen=None):
        """possible values of v at the end, following only explored edges"""
        F = self.F
        seen = set() if seen is None else seen
        if v in seen:
            return set()
        seen.add(v)
        if v.op == 'phi' and v in F.phis and depth < 60:
            n = F.defnode[v]
            if n in self.nodes and n is not self.start:
                out = set()
                for k, x in F.phis[v].items():
                    if k in self.edges:
                        out |= self.values(x, depth + 1, seen)
                return out
        return {v}

    def returns(self):
        """values the root function can return on the explored paths (None: cannot return)"""
        F = self.F
        if F.exit not in self.nodes:
            return set()
        return self.values(F.ret) if F.ret is not None else {T('void')}

    def accepts(self):
        """the values among returns() that may report success, given what is known where they arise"""
        F = self.F
        if F.exit not in self.nodes or F.ret is None:
            return set()
        out, seen = set(), set()

        def go(v, facts):
            if v in seen or v.op == 'fail' or F.decide(isok(v), facts) is False:
                return
            if v.op == 'phi' and v in F.phis and F.defnode[v] in self.nodes and F.defnode[v] is not self.start:
                seen.add(v)
                for k, x in F.phis[v].items():
                    if k in self.edges:
                        go(x, self.E[k])
                return
            out.add(v)
        go(F.ret, self.N.get(F.exit, frozenset()))
        return out
