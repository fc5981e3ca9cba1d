"""Interprocedural value-flow analysis: a call-inlined control-flow graph of one
entry function, global value numbering over it, and must-hold branch facts."""
import re
from terms import *
import terms as TM
from program import program, AnalysisBroken, strip_targs
import models

UNSIGNED = ('unsigned', 'size_t', 'uint')
INTTYPES = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short',
            'char', 'signed char', 'unsigned char', 'bool', 'long long', 'unsigned long long',
            'int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t',
            'uint64_t', 'size_t', 'ssize_t', 'ptrdiff_t', 'wchar_t')
NONNEG = set()      # atoms known to be >= 0
PTR = set()         # atoms known to be pointers


def bare(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '):
            t = t[6:]
        for q in (' const', '__restrict', 'restrict', '*const'):
            if t.endswith(q):
                t = t[:-len(q)] + ('*' if q == '*const' else '')
        t = t.strip()
        if t == o:
            return t


def is_ref(t):
    return t.rstrip().endswith('&')


def is_ptr(t):
    t = bare(t)
    return t.endswith('*')


def pointee_const(t):
    return bare(t).rstrip('*& ').startswith('const ') or t.strip().startswith('const ')


def deref_type(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def is_int(t):
    t = bare(deref_type(t))
    return t in INTTYPES or t.startswith('enum ') or t.endswith('*')


def is_float(t):
    return bare(deref_type(t)) in ('float', 'double', 'long double')


def is_unsigned(t):
    t = bare(deref_type(t))
    return t.startswith('unsigned') or t.startswith('uint') or t == 'size_t'


def is_class(t):
    t = bare(deref_type(t))
    return not (t in INTTYPES or is_float(t) or t.endswith('*') or t == 'void' or
                t.startswith('enum '))


class Frame:
    __slots__ = ('fn', 'cid', 'parent', 'site', 'depth', 'name')

    def __init__(self, fn, cid, parent, site):
        self.fn, self.cid, self.parent, self.site = fn, cid, parent, site
        self.depth = parent.depth + 1 if parent else 0
        self.name = fn['n'].replace('pocketkaldi::', '')

    def chain(self):
        f, o = self, []
        while f:
            o.append(f.name)
            f = f.parent
        return o


class Node:
    __slots__ = ('id', 'frame', 'ops', 'succs', 'preds', 'dead', 'blk')

    def __init__(self, i, frame, blk):
        self.id, self.frame, self.blk = i, frame, blk
        self.ops, self.succs, self.preds = [], [], []
        self.dead = False

    def __repr__(self):
        return 'n%d' % self.id


class Uid:
    """Identity of one evaluation point (inlining context, element)."""
    __slots__ = ('cid', 'eid', 'name', 'loc', 'node')
    tab = {}

    @staticmethod
    def get(cid, eid, name, loc, flow):
        k = (flow.fid, cid, eid)
        u = Uid.tab.get(k)
        if u is None:
            u = Uid()
            u.cid, u.eid, u.name, u.loc, u.node = cid, eid, name, loc, None
            Uid.tab[k] = u
        return u

    def __repr__(self):
        return '%s@%s' % (self.name, self.loc)


class Ev:
    __slots__ = ('kind', 'node', 'seq', 'frame', 'e', 'name', 'args', 'locs', 'obj', 'val',
                 'loc', 'where', 'old', 'st')

    def __init__(self, kind, node, seq, frame, e, name=None, args=(), locs=(), obj=None,
                 val=None, where=None, old=None):
        self.kind, self.node, self.seq, self.frame, self.e = kind, node, seq, frame, e
        self.name, self.args, self.locs, self.obj, self.val = name, list(args), list(locs), obj, val
        self.where, self.old = where, old
        self.loc = e.get('loc', '?') if e else '?'
        self.st = None

    def arg(self, i):
        return self.args[i] if i < len(self.args) else None

    def __repr__(self):
        s = '%s n%s %s %s' % (self.kind, self.node.id, self.loc, self.frame.name)
        if self.name:
            s += ' ' + self.name
        if self.obj is not None:
            s += ' obj=' + show(self.obj)
        if self.args:
            s += ' (' + ', '.join(show(a) for a in self.args) + ')'
        if self.where is not None:
            s += ' [' + show(self.where) + ']'
        if self.val is not None:
            s += ' = ' + show(self.val)
        return s


class State(dict):
    pass


_fid = [0]


class Flow:
    def __init__(self, root, stop=(), inline=None, maxdepth=14, maxnodes=6000, prog=None, given=None, extra=None, counting=None):
        """root: function (dict). stop: names never inlined. given: F -> {location: value at the start}.
        extra: further summaries {name: model}. counting: {class: pointer fields its destructor releases}; how often
        each value is released is then counted, in the locations of self.released"""
        _fid[0] += 1
        self.fid = _fid[0]
        self.prog = prog or program()
        self.root = root
        self.stop = set(stop)
        self.inline = inline
        self.given, self.extra = given, extra or {}
        self.counting, self.released, self.obtained = counting, {}, {}
        self.maxdepth, self.maxnodes = maxdepth, maxnodes
        self.nodes, self.frames = [], []
        self.ev = {}
        self.phis = {}
        self.defnode = {}
        self.events = []
        self.rec = False
        self.seq = 0
        self._build()
        self._order()
        self._solve()
        self._record()
        self._facts_cache = {}

    # ---------------------------------------------------------------- graph
    def node(self, frame, blk):
        if len(self.nodes) > self.maxnodes:
            raise AnalysisBroken('inlined graph too large for ' + self.root['q'])
        n = Node(len(self.nodes), frame, blk)
        self.nodes.append(n)
        return n

    def want(self, frame, e):
        """The body to inline at this element, or None."""
        if e['k'] not in ('call', 'ctor') or 'f' not in e:
            return None
        n = e['n']
        f = e['f']
        if n in self.stop or n in models.MODELS or n in models.OPAQUE or n in self.extra:
            return None
        if e['k'] == 'ctor' and (e.get('elide') or ((f.get('copyctor') or f.get('movector')) and
                                                     (f.get('implicit') or f.get('defaulted')))):
            return None
        if f.get('defaulted') and (f.get('copyassign') or f.get('moveassign')):
            return None
        if f.get('implicit') and (f.get('copyassign') or f.get('moveassign')):
            return None
        ts = self.prog.targets(e)
        if len(ts) != 1:
            return None
        t = ts[0]
        if not t.get('ours') or not t['blocks']:
            return None
        if frame.depth >= self.maxdepth:
            return None
        fr = frame
        while fr:
            if fr.fn is t:
                return None
            fr = fr.parent
        if self.inline is not None and not self.inline(t):
            return None
        return t

    def _build(self):
        f = Frame(self.root, 0, None, None)
        self.frames.append(f)
        self.entry, self.exit = self._clone(f)

    def _clone(self, frame):
        fn = frame.fn
        first, last = {}, {}
        for b in fn['blocks']:
            first[b['id']] = self.node(frame, b['id'])
        for b in fn['blocks']:
            cur = first[b['id']]
            for e in b['elems']:
                t = self.want(frame, e)
                if t is None:
                    cur.ops.append(('el', frame, e, None))
                    continue
                nf = Frame(t, len(self.frames), frame, e)
                self.frames.append(nf)
                cur.ops.append(('enter', frame, e, nf))
                en, ex = self._clone(nf)
                cur.succs.append((en, None))
                cur = self.node(frame, b['id'])
                ex.succs.append((cur, None))
                cur.ops.append(('leave', frame, e, nf))
            last[b['id']] = cur
        for b in fn['blocks']:
            cur = last[b['id']]
            # an exception leaves every caller (handlers, were there any, are entered from their try)
            if b.get('noreturn') or any(e['k'] == 'throw' for e in b['elems']):
                cur.dead = True
                continue
            term = b.get('term') or {}
            ss = b['succs']
            cases = term.get('cases')
            for i, s in enumerate(ss):
                if s is None:
                    continue
                c = None
                if term.get('cls') == 'SwitchStmt' and term.get('cond') is not None:
                    c = ('case', frame, term['cond'],
                         cases[i] if cases and i < len(cases) else {'default': True},
                         [x['v'] for x in cases or [] if x and 'v' in x])
                elif len(ss) == 2 and term.get('cond') is not None:
                    c = ('br', frame, term['cond'], i == 0)
                cur.succs.append((first[s], c))
        return first[fn['entry']], first[fn['exit']]

    def _order(self):
        self._sort()
        # one way into each loop
        heads = {s for n in self.rpo for s, _ in n.succs if self.rpoi[s] <= self.rpoi[n]}
        for h in sorted(heads, key=lambda n: n.id):
            ks = [k for k in h.preds if self.rpoi[k[0]] < self.rpoi[h]]
            if len(ks) < 2:
                continue
            p = self.node(h.frame, h.blk)
            for n, i in ks:
                n.succs[i] = (p, n.succs[i][1])
            p.succs.append((h, None))
        for n in self.rpo:
            n.preds.clear()
        self._sort()
        self.idom = self._dominators(lambda k: True)

    def _sort(self):
        seen, post = set(), []
        stack = [(self.entry, iter(self.entry.succs))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s, _ in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                post.append(n)
                stack.pop()
        self.rpo = post[::-1]
        self.rpoi = {n: i for i, n in enumerate(self.rpo)}
        for n in self.rpo:
            for i, (s, c) in enumerate(n.succs):
                s.preds.append((n, i))

    def _dominators(self, live):
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for n in self.rpo[1:]:
                ps = [p for p, i in n.preds if p in idom and live((p, i))]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, b = p, d
                    while a is not b:
                        while self.rpoi[a] > self.rpoi[b]:
                            a = idom[a]
                        while self.rpoi[b] > self.rpoi[a]:
                            b = idom[b]
                    d = a
                if idom.get(n) is not d:
                    idom[n] = d
                    ch = True
        return idom

    def dominates(self, a, b):
        while True:
            if a is b:
                return True
            d = self.idom.get(b)
            if d is None or d is b:
                return False
            b = d

    def evdom(self, a, b):
        """event a is always executed before event b"""
        if a.node is b.node:
            return a.seq < b.seq
        return self.dominates(a.node, b.node)

    def loops(self):
        """natural loops: header -> set of nodes"""
        if not hasattr(self, '_loops'):
            L = {}
            for n in self.rpo:
                for s, _ in n.succs:
                    if self.dominates(s, n):
                        body = L.setdefault(s, {s})
                        todo = [n]
                        while todo:
                            x = todo.pop()
                            if x in body:
                                continue
                            body.add(x)
                            todo += [p for p, _ in x.preds]
            self._loops = L
        return self._loops

    def inloops(self, n):
        return [h for h, b in self.loops().items() if n in b]

    # ---------------------------------------------------------------- memory
    def base(self, st, loc):
        """Value recorded for exactly this location (or projected from an enclosing one)."""
        v = st.get(loc)
        if v is not None:
            return v
        op = loc.op
        if op == 'str':
            return loc
        if op == 'fld':
            return sel(self.base(st, loc.args[0]), loc.args[1])
        if op == 'el':
            return self.ldarr(self.load(st, loc.args[0]), loc.args[1])
        if op == 'glob':
            g = self.prog.globals.get(loc.args[0])
            if g and g.get('const') and g.get('v') is not None and g['v'].lstrip('-').isdigit() and is_int(g['type']):
                return C(int(g['v']))
        return T('init', loc)

    def ldarr(self, arr, i):
        return ld(arr, i)

    def kids(self, st, loc):
        return [k for k in st if k.op == 'fld' and k.args[0] is loc]

    def load(self, st, loc):
        b = self.base(st, loc)
        if loc.op in ('el',):
            return b
        ks = self.kids(st, loc)
        if not ks:
            return b
        fs = tuple(sorted(((k.args[1], self.load(st, k)) for k in ks), key=lambda x: x[0]))
        return self.mkagg(b, fs)

    def mkagg(self, b, fs):
        fs = [(n, v) for n, v in fs if sel(b, n) is not v]
        if not fs:
            return b
        if b.op == 'agg':
            d = dict(b.args[1])
            d.update(fs)
            return self.mkagg(b.args[0], tuple(sorted(d.items())))
        return T('agg', b, tuple(sorted(fs, key=lambda x: x[0])))

    def inarr(self, loc):
        while loc.op == 'fld':
            loc = loc.args[0]
        return loc.op == 'el'

    def drop(self, st, loc):
        dead = [k for k in st if k is not loc and self.under(k, loc)]
        for k in dead:
            del st[k]

    def under(self, k, loc):
        while k.op in ('fld', 'el'):
            k = k.args[0]
            if k is loc:
                return True
        return False

    def store(self, st, loc, v):
        if v is None:
            v = T('undef', loc)
        if loc.op == 'view':
            return
        if loc.op == 'el':
            A, i = loc.args
            arr = self.load(st, A)
            self.store(st, A, T('st', self.trim(arr, i), i, v))
            return
        if loc.op == 'fld' and self.inarr(loc):
            P, f = loc.args
            old = self.load(st, P)
            self.store(st, P, self.mkagg(old, ((f, v),)))
            return
        # same field reached through another pointer may be the same cell
        if loc.op == 'fld':
            r = root(loc)
            if r.op == 'deref':
                for k in list(st):
                    if k.op == 'fld' and k.args[1] == loc.args[1] and k is not loc:
                        r2 = root(k)
                        if r2.op == 'deref' and self.may_alias(r.args[0], r2.args[0]):
                            st[k] = T('may', st[k], v)
        self.drop(st, loc)
        if v.op == 'agg':
            st[loc] = v.args[0]
            for n, x in v.args[1]:
                self.store(st, fld(loc, n), x)
        else:
            st[loc] = v

    def trim(self, arr, i):
        """drop a store that the new one overwrites"""
        if arr.op == 'st' and arr.args[1] is i:
            return arr.args[0]
        return arr

    def may_alias(self, p, q):
        if p is q:
            return False      # same cell: handled exactly
        if p.op == 'new' or q.op == 'new':
            return False
        # different static types never alias here
        tp, tq = self.ptype.get(p), self.ptype.get(q)
        if tp and tq and tp != tq:
            return False
        if p.op == 'init' and q.op == 'init' and root(p.args[0]) is root(q.args[0]) and \
                p.args[0].op == 'fld' and q.args[0].op == 'fld' and not tp:
            return False
        return True

    # ---------------------------------------------------------------- solving
    def uid(self, frame, e, name=None):
        return Uid.get(frame.cid, e['i'], name or e.get('n', e['k']).split('::')[-1],
                       e.get('loc', '?'), self)

    def _solve(self):
        """twice, when the first fixpoint merges values that turn out to be the same one: the merges it
        really needs are then put in place from the start"""
        self.needed = frozenset()
        self._fixpoint()
        if not self.sticky:
            self.phis = {}
            for n in self.rpo:
                if n in self.live and n is not self.entry:
                    self.merge(n)
        red = self.redundant()
        if red:
            heads = {s for n in self.rpo for s, _ in n.succs if self.rpoi[s] <= self.rpoi[n]}
            keep = frozenset(p for p in self.phis if p not in red and self.defnode[p] in heads)
            self.phis = {}
            self.needed = keep
            self.will = {n: sum(1 for k in n.preds if k in self.edge_live) for n in self.rpo}
            self._fixpoint()
            self.needed = frozenset()

    def redundant(self):
        """merges that only ever take one value: sets of merges with a single value from outside"""
        red = {}

        def rep(v):
            while v in red:
                v = red[v]
            return v
        ch = True
        while ch:
            ch = False
            ps = [p for p in self.phis if p not in red]
            succ = {p: [w for w in {rep(v) for v in self.phis[p].values()} if w in self.phis] for p in ps}
            # strongly connected components, iteratively
            idx, low, on, st, k = {}, {}, set(), [], 0
            for r in ps:
                if r in idx:
                    continue
                work = [(r, iter(succ[r]))]
                idx[r] = low[r] = k
                k += 1
                st.append(r)
                on.add(r)
                while work:
                    v, it = work[-1]
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = k
                            k += 1
                            st.append(w)
                            on.add(w)
                            work.append((w, iter(succ[w])))
                            break
                        if w in on:
                            low[v] = min(low[v], idx[w])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == idx[v]:
                            comp = set()
                            while True:
                                w = st.pop()
                                on.discard(w)
                                comp.add(w)
                                if w is v:
                                    break
                            out = {rep(x) for c in comp for x in self.phis[c].values()} - comp
                            if len(out) == 1:
                                o = out.pop()
                                for c in comp:
                                    red[c] = o
                                ch = True
        return red

    def _fixpoint(self):
        self.ptype = {}
        self.rootparams = set(self.root['params'])
        self.out = {}
        self.edge_live = set()
        self.instate = {}
        self.live = set()
        self.came, self.flips = set(), {}
        passes = 0
        while True:
            passes += 1
            self.sticky = passes > 25
            if passes > 60:
                raise AnalysisBroken('value numbering did not converge for ' + self.root['q'])
            changed = False
            for n in self.rpo:
                if n is self.entry:
                    st = State(self.given(self) if self.given else ())
                elif any((p, i) in self.edge_live for p, i in n.preds):
                    st = self.merge(n)
                else:
                    continue
                if n in self.instate and self.instate[n] == st and n in self.live:
                    continue
                self.live.add(n)
                self.instate[n] = State(st)
                changed = True
                self.transfer(n, st)
                self.out[n] = st
                if n.dead:
                    continue
                for i, (s, c) in enumerate(n.succs):
                    if (n, i) in self.edge_live:
                        continue
                    t = self.edgecond(n, i)
                    if t is FALSE and not self.sticky:
                        continue
                    if t is FALSE:
                        continue
                    self.edge_live.add((n, i))
            if not changed:
                break
        self.passes = passes

    def edgecond(self, n, i):
        """Condition term under which edge i of n is taken (TRUE when unconditional)."""
        s, c = n.succs[i]
        if c is None:
            return TRUE
        st = self.out.get(n)
        if st is None:
            return TRUE
        v = self.rv(c[1], c[2], st)
        if c[0] == 'br':
            t = truth(v)
            return t if c[3] else NOT(t)
        case = c[3]
        if case and 'v' in case:
            return eq(v, C(int(case['v'])))
        r = TRUE
        for x in c[4]:
            r = self.AND(r, NOT(eq(v, C(int(x)))))
        return r

    @staticmethod
    def AND(a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        return ITE(a, b, FALSE)

    def merge(self, n):
        ins = [(p, i, self.out[p]) for p, i in n.preds if (p, i) in self.edge_live and p in self.out]
        early = self.needed and len(ins) < self.will[n]
        if len(ins) == 1 and not early:
            return State(ins[0][2])
        keys = {}
        for _, _, s in ins:
            for k in s:
                keys[k] = True
        st = State()
        for k in keys:
            vals = [self.base(s, k) if not self.inarr(k) else None for _, _, s in ins]
            if vals[0] is None:
                continue
            r = root(k)
            if r.op == 'var' and r.args[0] < 0:
                vals = [s.get(k, C(0)) for _, _, s in ins]
            elif r.op == 'var' and (r.args[1] < 0 or r.args[0] != 0 or r.args[1] not in self.rootparams) \
                    and not all(self.present(s, k) for _, _, s in ins):
                continue      # not in scope on every incoming path
            st[k] = self.join(n, k, vals, [(p, i) for p, i, _ in ins])
        for k in list(st):
            v = st[k]
            if v.op == 'init' and v.args[0] is k:
                # only removable when no enclosing entry would shadow it
                if k.op not in ('fld', 'el'):
                    del st[k]
        return st

    @staticmethod
    def present(s, k):
        while True:
            if k in s:
                return True
            if k.op not in ('fld', 'el'):
                return False
            k = k.args[0]

    def only(self, me, vs):
        """the one value that `me` takes, going round through other merges"""
        for x in vs:
            seen, todo = {me, x}, [v for v in vs if v is not x]
            while todo and len(seen) < 16:
                v = todo.pop()
                if v in seen:
                    continue
                if v not in self.phis:
                    break
                seen.add(v)
                todo += self.phis[v].values()
            else:
                if not todo:
                    return x
        return None

    def join(self, n, k, vals, preds, tag=None):
        """merge; one that keeps coming and going stays"""
        me = T('phi', n.id, k, self.fid) if tag is None else T('phi', n.id, T('off', k), self.fid)
        r = self.join_(n, k, vals, preds, tag, me)
        if r is me:
            self.came.add(me)
        elif me in self.came:
            self.came.discard(me)
            self.flips[me] = self.flips.get(me, 0) + 1
        return r

    def join_(self, n, k, vals, preds, tag, me):
        vs = []
        for v in vals:
            if v is not me and v not in vs:
                vs.append(v)
        stay = me in self.phis and (self.sticky or self.flips.get(me, 0) > 2)
        if me in self.needed and len(preds) < self.will[n]:
            vs = vs + [me] if len(vs) == 1 else vs
        if len(vs) == 1 and not stay:
            return vs[0]
        if not vs:
            return me
        if me not in self.needed and not stay:
            x = self.only(me, vs)
            if x is not None:
                return x
        if tag is None and len(vs) > 1 and not stay:
            # pointers into one object: merge the offsets
            common = None
            for v in vals:
                if v is me:
                    continue
                d, c = lin(v) if v.op in ('sum', 'addr', 'new') or v in PTR else ({}, 0)
                ps = {a for a, co in d.items() if co == 1 and
                      (a.op in ('addr', 'new') or a in PTR)}
                common = ps if common is None else common & ps
            if common and len(common) == 1:
                a = next(iter(common))
                offs = [sub(v, a) if v is not me else v for v in vals]
                if me not in offs:
                    return add(a, self.join(n, k, offs, preds, tag='off'))
            # the same going round: one base from outside, and offsets from what it was before
            out = [v for v in vs if me not in lin(v)[0]]
            if me in self.phis and len(out) == 1 and len(out) < len(vs):
                d, c = lin(out[0])
                ps = {a for a, co in d.items() if co == 1 and (a.op in ('addr', 'new') or a in PTR)}
                if len(ps) == 1 and all(v in out or lin(v)[0][me] == 1 for v in vs):
                    a = next(iter(ps))
                    off = T('phi', n.id, T('off', k), self.fid)
                    offs = [sub(v, a) if v in out else off if v is me else add(sub(v, me), off) for v in vals]
                    return add(a, self.join(n, k, offs, preds, tag='off'))
        self.phis[me] = dict(zip(preds, vals))
        self.defnode[me] = n
        if any(v in PTR or v.op in ('addr', 'new') for v in vs):
            PTR.add(me)
        for v in vs:
            if v in self.ptype:
                self.ptype[me] = self.ptype[v]
        if all(v in NONNEG or (v.op == 'c' and isinstance(v.args[0], int) and v.args[0] >= 0)
               for v in vs):
            NONNEG.add(me)
        return me

    # ---------------------------------------------------------------- evaluation
    def elem(self, frame, eid):
        return frame.fn['emap'][eid]

    def lv(self, frame, eid, st):
        """Location denoted by element (materialising a temporary for values)."""
        e = self.elem(frame, eid)
        v = self.ev.get((frame.cid, eid))
        if v is None:
            v = T('undef', Uid.get(frame.cid, eid, 'undef', e.get('loc', '?'), self))
            if not e.get('lv'):
                return self.tmp(frame, eid)
            return T('deref', v)
        if e.get('lv'):
            return v
        loc = self.tmp(frame, eid)
        if loc not in st and not self.kids(st, loc):
            self.store(st, loc, v)
        return loc

    def tmp(self, frame, eid):
        return T('var', frame.cid, -eid, '$t%d' % eid, self.fid)

    def rv(self, frame, eid, st):
        e = self.elem(frame, eid)
        v = self.ev.get((frame.cid, eid))
        if v is None:
            return T('undef', Uid.get(frame.cid, eid, 'undef', e.get('loc', '?'), self))
        if e.get('lv'):
            v = self.load(st, v)
            self.note(v, e)
        return v

    def note(self, v, e):
        t = e.get('t', '')
        if v.op in ('c', 'sum', 'null', 'str', 'agg'):
            return
        if is_ptr(t):
            PTR.add(v)
            b = bare(t)
            if b.endswith('*'):
                self.ptype.setdefault(v, bare(b[:-1]))
        elif is_unsigned(t) and e['k'] != 'cast':
            NONNEG.add(v)

    def deref(self, p, st=None):
        if p.op == 'sum':
            d, k = lin(p)
            ad = [a for a, c in d.items() if c == 1 and a.op == 'addr' and a.args[0].op == 'el']
            if not ad:
                ps = [a for a, c in d.items() if c == 1 and (a in PTR or a.op == 'new')]
                if len(ps) == 1:
                    rest = dict(d)
                    del rest[ps[0]]
                    return el(T('buf', ps[0]), unlin(rest, k))
        return deref(p)

    def index(self, p, i):
        """p[i] for a pointer value p"""
        d, k = lin(p)
        for a, c in d.items():
            if c == 1 and (a in PTR or a.op in ('new', 'addr')):
                rest = dict(d)
                del rest[a]
                off = add(unlin(rest, k), i)
                if a.op == 'addr':
                    t = a.args[0]
                    if t.op == 'el':
                        return el(t.args[0], add(t.args[1], off))
                    return el(T('buf', a), off)
                return el(T('buf', a), off)
        return el(T('buf', p), i)

    def varloc(self, frame, vid):
        v = frame.fn['vars'].get(str(vid), {})
        k = v.get('k')
        if k == 'global' or (k == 'static'):
            return T('glob', v.get('q') or v.get('name'))
        return T('var', frame.cid, vid, v.get('name', '?'), self.fid)

    def thisptr(self, frame):
        return T('var', frame.cid, 0, 'this', self.fid)

    def transfer(self, n, st):
        for op in n.ops:
            kind, frame, e, nf = op
            if kind == 'el':
                self.eval(n, frame, e, st)
            elif kind == 'enter':
                self.enter(n, frame, e, nf, st)
            else:
                self.leave(n, frame, e, nf, st)

    def emit(self, kind, n, frame, e, **kw):
        if not self.rec:
            return None
        self.seq += 1
        ev = Ev(kind, n, self.seq, frame, e, **kw)
        self.events.append(ev)
        return ev

    def argvals(self, frame, e, st):
        """(values, locations) for the arguments of a call element"""
        vals, locs = [], []
        pts = e['f'].get('pt', []) if 'f' in e else []
        for i, a in enumerate(e.get('args', ())):
            ae = self.elem(frame, a)
            pt = pts[i] if i < len(pts) else (ae.get('t', '') + (' &' if ae.get('lv') else ''))
            if is_ref(pt):
                loc = self.lv(frame, a, st)
                locs.append(loc)
                v = self.load(st, loc)
                if ae.get('lv'):
                    self.note(v, ae)
                vals.append(v)
            else:
                v = self.rv(frame, a, st)
                vals.append(v)
                locs.append(self.deref(v) if is_ptr(pt) else None)
        return vals, locs

    def objloc(self, frame, e, st):
        o = e.get('obj')
        if o is None:
            return None
        if e.get('arrow'):
            return self.deref(self.rv(frame, o, st))
        oe = self.elem(frame, o)
        if not oe.get('lv') and is_ptr(oe.get('t', '')) and not is_class(oe['t']):
            return self.deref(self.rv(frame, o, st))
        return self.lv(frame, o, st)

    def enter(self, n, frame, e, nf, st):
        vals, locs = self.argvals(frame, e, st)
        fn = nf.fn
        # forget a previous activation of this context
        for k in [k for k in st if self.ofctx(k, nf.cid)]:
            del st[k]
        obj = None
        if e['k'] == 'ctor':
            obj = self.tmp(frame, e['i'])
            self.drop(st, obj)
            st[obj] = T('fresh', strip_targs(fn.get('cls') or ''))
            st[self.thisptr(nf)] = addr(obj)
        elif e.get('obj') is not None:
            obj = self.objloc(frame, e, st)
            if not fn.get('static'):
                st[self.thisptr(nf)] = addr(obj)
        for i, vid in enumerate(fn['params']):
            loc = T('var', nf.cid, vid, fn['vars'][str(vid)]['name'], self.fid)
            t = fn['vars'][str(vid)]['type']
            if i >= len(vals):
                break
            if is_ref(t):
                st[loc] = addr(locs[i])
            else:
                self.store(st, loc, vals[i])
        self.emit('enter', n, frame, e, name=e['n'], args=vals, locs=locs, obj=obj)

    def ofctx(self, k, cid):
        r = root(k)
        while r.op in ('deref', 'buf'):
            return False
        return r.op in ('var', 'ret') and r.args[0] == cid

    def leave(self, n, frame, e, nf, st):
        fn = nf.fn
        if e['k'] == 'ctor':
            obj = self.tmp(frame, e['i'])
            v = self.load(st, obj)
        else:
            v = st.get(T('ret', nf.cid, self.fid))
            if v is None:
                v = self.load(st, T('ret', nf.cid, self.fid)) if self.kids(
                    st, T('ret', nf.cid, self.fid)) else T('void')
            elif self.kids(st, T('ret', nf.cid, self.fid)):
                v = self.load(st, T('ret', nf.cid, self.fid))
            if is_ref(fn['ret']):
                v = self.deref(v)
        self.ev[(frame.cid, e['i'])] = v
        # a fresh value for this evaluation: forget the old temporary
        if e['k'] != 'ctor':
            t = self.tmp(frame, e['i'])
            self.drop(st, t)
            st.pop(t, None)
        if not e.get('lv'):
            self.note(v, e)
        self.emit('leave', n, frame, e, name=e['n'], val=v)
        for k in [k for k in st if self.ofctx(k, nf.cid)]:
            del st[k]

    def eval(self, n, frame, e, st):
        k = e['k']
        h = getattr(self, 'e_' + k, None)
        if h is None:
            v = self.e_other(n, frame, e, st)
        else:
            v = h(n, frame, e, st)
        if v is not None:
            self.ev[(frame.cid, e['i'])] = v
            if not e.get('lv'):
                if k in ('call',):
                    t = self.tmp(frame, e['i'])
                    if t in st or self.kids(st, t):
                        self.drop(st, t)
                        st.pop(t, None)
                self.note(v, e)

    # -- leaves
    def e_const(self, n, frame, e, st):
        v = e['v']
        if e.get('fl'):
            try:
                return C(float(v))
            except ValueError:
                return T('fconst', v)
        try:
            return C(int(v))
        except ValueError:
            return C(float(v))

    def e_null(self, n, frame, e, st):
        return NULL

    def e_str(self, n, frame, e, st):
        return T('str', e['v'])

    def e_var(self, n, frame, e, st):
        loc = self.varloc(frame, e['var'])
        vt = frame.fn['vars'].get(str(e['var']), {}).get('type', '')
        if is_ref(vt):
            p = self.load(st, loc)
            PTR.add(p)
            return self.deref(p)
        return loc

    def e_func(self, n, frame, e, st):
        return T('func', e['f']['m'])

    def e_this(self, n, frame, e, st):
        v = self.load(st, self.thisptr(frame))
        if v.op == 'init':
            PTR.add(v)
        return v

    def e_methodref(self, n, frame, e, st):
        return T('void')

    def e_member(self, n, frame, e, st):
        if e.get('arrow'):
            p = self.rv(frame, e['base'], st)
            b = self.deref(p)
            self.emit('access', n, frame, e, val=p, where=fld(b, e['field']))
        else:
            b = self.lv(frame, e['base'], st)
        loc = fld(b, e['field'])
        if is_ref(e.get('ft', '')):
            p = self.load(st, loc)
            PTR.add(p)
            return self.deref(p)
        if not e.get('lv'):
            return self.load(st, loc)
        return loc

    def arith(self, op, a, b, t, ta, tb):
        integer = is_int(t)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if is_float(t):
                if b.op == 'c' and b.args[0] != 0:
                    return scale(a, 1.0 / b.args[0]) if a.op != 'c' else C(a.args[0] / b.args[0])
                return mul(a, T('inv', b))
            if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
                q = abs(int(a.args[0])) // abs(int(b.args[0]))
                return C(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
            if b is C(1):
                return a
            if b.op == 'c':
                # (x - x % b) / b
                for m, k in lin(a)[0].items():
                    if k == -1 and m.op == 'imod' and m.args[1] is b and add(a, m) is m.args[0]:
                        return T('idiv', m.args[0], b)
            return T('idiv', a, b)
        if op == '%':
            if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
                import math
                return C(int(math.fmod(a.args[0], b.args[0])))
            if b is C(1):
                return C(0)
            return T('imod', a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            if a.op == 'c' and b.op == 'c':
                x, y = int(a.args[0]), int(b.args[0])
                return C({'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y,
                          '|': lambda: x | y, '^': lambda: x ^ y}[op]())
            if op == '<<' and b.op == 'c':
                return scale(a, 1 << int(b.args[0]))
            if op == '>>' and b.op == 'c' and is_unsigned(ta):
                return T('idiv', a, C(1 << int(b.args[0])))
            if op in ('&', '|', '^'):
                a, b = sorted((a, b), key=lambda x: x.id)
            return T('bit' + op, a, b)
        return T('op' + op, a, b)

    def compare(self, op, a, b, integer):
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return NOT(eq(a, b))
        if op == '<':
            return lt(a, b, integer)
        if op == '>':
            return lt(b, a, integer)
        if op == '<=':
            return le(a, b, integer)
        return le(b, a, integer)

    def e_bin(self, n, frame, e, st):
        a, b = self.rv(frame, e['a'], st), self.rv(frame, e['b'], st)
        op = e['op']
        ta, tb = self.elem(frame, e['a']).get('t', ''), self.elem(frame, e['b']).get('t', '')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, not (is_float(ta) or is_float(tb)))
        if op == ',':
            return b
        return self.arith(op, a, b, e.get('t', ''), ta, tb)

    def e_un(self, n, frame, e, st):
        op = e['op']
        if op == '&':
            return addr(self.lv(frame, e['a'], st))
        if op == '*':
            p = self.rv(frame, e['a'], st)
            self.emit('access', n, frame, e, val=p, where=self.deref(p))
            return self.deref(p)
        if op in ('++', '--', 'x++', 'x--'):
            loc = self.lv(frame, e['a'], st)
            old = self.load(st, loc)
            self.note(old, self.elem(frame, e['a']))
            new = add(old, C(1 if '+' in op else -1))
            self.store(st, loc, new)
            self.emit('store', n, frame, e, where=loc, val=new, old=old, name=op)
            if e.get('lv'):
                return loc
            return old if e.get('post') else new
        a = self.rv(frame, e['a'], st)
        if op == '-':
            return neg(a)
        if op == '+':
            return a
        if op == '!':
            return NOT(truth(a))
        if op == '~':
            return C(~int(a.args[0])) if a.op == 'c' else T('bit~', a)
        return T('un' + op, a)

    def e_logic(self, n, frame, e, st):
        a = truth(self.rv(frame, e['a'], st))
        b = truth(self.rv(frame, e['b'], st))
        if e['op'] == '&&':
            return self.AND(a, b)
        return ITE(a, TRUE, b)

    def e_cond(self, n, frame, e, st):
        c = truth(self.rv(frame, e['c'], st))
        ea, eb = self.elem(frame, e['a']), self.elem(frame, e['b'])
        if e.get('lv') and ea.get('lv') and eb.get('lv'):
            la, lb = self.lv(frame, e['a'], st), self.lv(frame, e['b'], st)
            if c is TRUE:
                return la
            if c is FALSE:
                return lb
            if la is lb:
                return la
            loc = self.tmp(frame, e['i'])
            self.store(st, loc, ITE(c, self.load(st, la), self.load(st, lb)))
            return loc
        v = ITE(c, self.rv(frame, e['a'], st), self.rv(frame, e['b'], st))
        if e.get('lv'):
            loc = self.tmp(frame, e['i'])
            self.store(st, loc, v)
            return loc
        return v

    def e_assign(self, n, frame, e, st):
        loc = self.lv(frame, e['a'], st)
        b = self.rv(frame, e['b'], st)
        old = self.load(st, loc)
        op = e.get('op')
        if op and op != '=':
            self.note(old, self.elem(frame, e['a']))
            ta, tb = self.elem(frame, e['a']).get('t', ''), self.elem(frame, e['b']).get('t', '')
            b = self.arith(op.rstrip('='), old, b, ta, ta, tb)
        self.store(st, loc, b)
        self.emit('store', n, frame, e, where=loc, val=b, old=old, name=op or '=')
        return loc if e.get('lv') else b

    def e_index(self, n, frame, e, st):
        ae = self.elem(frame, e['a'])
        i = self.rv(frame, e['b'], st)
        if ae.get('lv') and not is_ptr(ae.get('t', '')):
            loc = el(self.lv(frame, e['a'], st), i)
            p = None
        else:
            p = self.rv(frame, e['a'], st)
            loc = self.index(p, i)
        self.emit('index', n, frame, e, where=loc, args=[i], obj=loc.args[0] if loc.op == 'el' else None)
        return loc

    def e_cast(self, n, frame, e, st):
        ck = e.get('ck', '')
        ae = self.elem(frame, e['a'])
        t = e.get('t', '')
        if e.get('lv'):
            return self.lv(frame, e['a'], st)
        if ck == 'ArrayToPointerDecay':
            if ae['k'] == 'str':
                return self.ev.get((frame.cid, e['a']), T('str', ''))
            return addr(el(self.lv(frame, e['a'], st), C(0)))
        if ck in ('FunctionToPointerDecay', 'ToVoid', 'BuiltinFnToFnPtr'):
            return self.ev.get((frame.cid, e['a']), T('void'))
        a = self.rv(frame, e['a'], st)
        if ck in ('NullToPointer',):
            return NULL
        if ck == 'PointerToBoolean':
            return NOT(eq(a, NULL))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            if a.op in ('lt0', 'le0', 'eq', 'eq0', 'not', 'isok', 'ite', 'null'):
                return truth(a)
            return NOT(eq(a, C(0)))
        if ck == 'FloatingToIntegral':
            if a.op == 'c':
                return C(int(a.args[0]))
            return T('trunc', a)
        if ck == 'IntegralCast':
            s, d = bare(e.get('st', '')), bare(t)
            w = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'int8_t': 8, 'uint8_t': 8,
                 'short': 16, 'unsigned short': 16, 'int16_t': 16, 'uint16_t': 16,
                 'int': 32, 'unsigned int': 32, 'int32_t': 32, 'uint32_t': 32, 'bool': 1}
            # 64 -> 32 bit keeps its value here (sizes and counts are assumed below 2^31)
            if w.get(d, 64) < min(w.get(s, 64), 32) and a.op != 'c':
                return T('narrow', a, d)
            if d in ('unsigned char', 'uint8_t', 'unsigned short', 'uint16_t') and a.op != 'c' and w.get(d) == w.get(s) and \
                    s in ('char', 'signed char', 'int8_t', 'short', 'int16_t'):
                return T('narrow', a, d)
            return a
        return a

    def e_call(self, n, frame, e, st):
        return models.call(self, n, frame, e, st)

    def e_ctor(self, n, frame, e, st):
        return models.ctor(self, n, frame, e, st)

    def e_new(self, n, frame, e, st):
        u = self.uid(frame, e, 'new')
        self.defnode[T('new', u)] = n
        p = T('new', u)
        size = self.rv(frame, e['size'], st) if e.get('size') is not None else None
        if e.get('placement'):
            pl = e['placement']
            p = self.rv(frame, pl[0] if isinstance(pl, list) else pl, st)
        if e.get('init') is not None:
            v = self.rv(frame, e['init'], st)
            loc = deref(p)
            # a re-executed allocation is a new object
            self.drop(st, loc)
            st.pop(loc, None)
            if v.op != 'void':
                self.store(st, loc, v)
        elif not e.get('placement'):
            loc = deref(p)
            self.drop(st, loc)
            st[loc] = T('fresh', e.get('nt', ''))
        self.ptype[p] = bare(e.get('nt', ''))
        if not e.get('placement'):
            self.obtain(st, p)
        self.emit('new', n, frame, e, val=p, args=[size] if size is not None else [],
                  name=e.get('nt'))
        return p

    def release(self, st, v):
        if self.counting is None or v.op == 'null':
            return
        g = self.released.setdefault(v, T('var', -1, v.id, 'released', self.fid))
        self.store(st, g, add(st.get(g, C(0)), C(1)))

    def obtain(self, st, v):
        if self.counting is not None:
            self.store(st, self.obtained.setdefault(v, T('var', -2, v.id, 'obtained', self.fid)), C(1))

    def e_delete(self, n, frame, e, st):
        v = self.rv(frame, e['a'], st)
        self.release(st, v)
        self.emit('delete', n, frame, e, args=[v], name='delete[]' if e.get('array') else 'delete',
                  where=self.elem_loc(frame, e['a']))
        return T('void')

    def elem_loc(self, frame, eid):
        e = self.elem(frame, eid)
        return self.ev.get((frame.cid, eid)) if e.get('lv') else None

    def e_initlist(self, n, frame, e, st):
        vs = [self.rv(frame, a, st) for a in e.get('args', ())]
        return T('list', *vs)

    def e_throw(self, n, frame, e, st):
        self.emit('throw', n, frame, e)
        return T('void')

    def e_lambda(self, n, frame, e, st):
        return T('func', e.get('op'))

    def e_other(self, n, frame, e, st):
        args = [self.rv(frame, a, st) for a in e.get('args', ()) if a is not None]
        if e.get('lv'):
            return self.tmp(frame, e['i'])
        return T('other', e.get('cls', e['k']), e.get('t', ''), *args)

    def e_decl(self, n, frame, e, st):
        v = frame.fn['vars'].get(str(e['var']), {})
        loc = self.varloc(frame, e['var'])
        t = v.get('type', '')
        if v.get('k') in ('static', 'global'):
            if e.get('init') is not None and not v.get('const'):
                self.emit('decl', n, frame, e, where=loc, name='static')
            return T('void')
        if e.get('init') is None:
            self.drop(st, loc)
            st[loc] = T('undef', Uid.get(frame.cid, e['i'], v.get('name'), e.get('loc'), self))
            self.emit('decl', n, frame, e, where=loc)
            return T('void')
        if is_ref(t):
            st[loc] = addr(self.lv(frame, e['init'], st))
            PTR.add(st[loc])
            self.emit('decl', n, frame, e, where=loc, val=st[loc], name='ref')
            return T('void')
        val = self.rv(frame, e['init'], st)
        self.store(st, loc, val)
        self.emit('decl', n, frame, e, where=loc, val=val)
        return T('void')

    def e_return(self, n, frame, e, st):
        loc = T('ret', frame.cid, self.fid)
        a = e.get('a')
        v = None
        if a is not None:
            if is_ref(frame.fn['ret']):
                v = addr(self.lv(frame, a, st))
                st[loc] = v
            else:
                v = self.rv(frame, a, st)
                self.store(st, loc, v)
        self.emit('return', n, frame, e, val=v)
        return T('void')

    def e_init(self, n, frame, e, st):
        this = self.deref(self.load(st, self.thisptr(frame)))
        a = e.get('a')
        if e.get('field'):
            loc = fld(this, e['field'])
            if a is None:
                return T('void')
            ft = e.get('ft', '')
            rec = self.prog.records.get(frame.fn.get('clst') or frame.fn.get('cls') or '', {})
            if not ft:
                for fl in rec.get('fields', ()):
                    if fl.get('name') == e['field']:
                        ft = fl.get('type', '')
            if is_ref(ft):
                st[loc] = addr(self.lv(frame, a, st))
            else:
                v = self.rv(frame, a, st)
                self.store(st, loc, v)
                self.emit('store', n, frame, e, where=loc, val=v, name='init')
        elif a is not None:
            v = self.rv(frame, a, st)
            if v.op == 'agg':
                for k, x in v.args[1]:
                    self.store(st, fld(this, k), x)
            elif v.op not in ('fresh', 'void'):
                pass
        return T('void')

    def e_stmt(self, n, frame, e, st):
        return T('void')

    def e_autodtor(self, n, frame, e, st):
        self.emit('dtor', n, frame, e, name=e.get('t'),
                  where=self.varloc(frame, e['var']) if e.get('var') is not None else None)
        if e.get('var') is not None and not is_ref(frame.fn['vars'].get(str(e['var']), {}).get('type', '')):
            loc = self.varloc(frame, e['var'])
            if loc.op == 'var':
                for x in (self.counting or {}).get(bare(e.get('t') or ''), ()):
                    self.release(st, self.load(st, fld(loc, x)))
                self.drop(st, loc)
                st.pop(loc, None)
        return T('void')

    def e_memberdtor(self, n, frame, e, st):
        this = self.deref(self.load(st, self.thisptr(frame)))
        self.emit('dtor', n, frame, e, name=e.get('t'), where=fld(this, e.get('field', '?')))
        return T('void')

    def e_basedtor(self, n, frame, e, st):
        self.emit('dtor', n, frame, e, name=e.get('t'))
        return T('void')

    # ---------------------------------------------------------------- recording
    def _record(self):
        # phis of the fixpoint only
        if not self.sticky:
            self.phis = {}
            for n in self.rpo:
                if n in self.live and n is not self.entry:
                    self.merge(n)
        self.rec = True
        self.events = []
        self.endst = {}
        for n in self.rpo:
            if n not in self.live:
                continue
            st = State(self.instate[n])
            self.transfer(n, st)
            self.endst[n] = st
            self.out[n] = st
        self.rec = False
        self.econd = {}
        for n in self.rpo:
            if n in self.live and not n.dead:
                for i in range(len(n.succs)):
                    if (n, i) in self.edge_live:
                        self.econd[(n, i)] = self.edgecond(n, i)
        if self.exit in self.live:
            st = self.endst[self.exit]
            r = T('ret', 0, self.fid)
            self.ret = self.load(st, r) if (r in st or self.kids(st, r)) else None
        else:
            self.ret = None

    def final(self, loc):
        return self.load(self.endst[self.exit], loc)

    def field(self, name, this=None):
        """Location of a field of the root's this object."""
        b = self.deref(T('init', self.thisptr(self.frames[0])))
        return fld(b, name)

    def param(self, i):
        vid = self.root['params'][i]
        return T('var', 0, vid, self.root['vars'][str(vid)]['name'], self.fid)

    def paramval(self, i):
        return T('init', self.param(i))

    def paramobj(self, i):
        """object a reference/pointer parameter designates"""
        return self.deref(self.paramval(i))

    def find(self, name, kinds=('call', 'ctor', 'enter')):
        return [e for e in self.events if e.kind in kinds and e.name is not None and
                (e.name == name or e.name.endswith('::' + name))]

    # ---------------------------------------------------------------- effects of opaque calls
    keepstate = False

    def readonly_params(self, e):
        """Indices of pointer/reference parameters an own callee never writes through."""
        return {}

    def pure_own(self, ts):
        import effects
        return all(effects.pure(self.prog, t) for t in ts)

    def clobber(self, st, obj, ts, u, n):
        """Forget fields the (own) callees may write."""
        import effects
        mods = set()
        for t in ts:
            mods |= effects.modfields(self.prog, t)
        if self.extra and mods and any(re.search(r'(Vector|Matrix)(Base)?$', t.get('cls', '')) for t in ts):
            mods = mods | {'#v'}
        hit = []
        for k in list(st):
            if k.op != 'fld':
                continue
            x = k
            names = []
            while x.op in ('fld', 'el'):
                if x.op == 'fld':
                    names.append(x.args[1])
                x = x.args[0]
            if not any(m in mods for m in names):
                continue
            if obj is not None and (self.under(k, obj)):
                hit.append(k)
            elif x.op in ('deref', 'glob', 'buf') and names != ['#v'] and any(m in mods and m != '#v' for m in names):
                hit.append(k)
        for k in hit:
            if k in st:
                o = T('out', u, k)
                self.defnode[o] = n
                st[k] = o
        if obj is not None:
            # fields never seen so far: record an explicit unknown for each modified one
            for m in sorted(mods):
                k = fld(obj, m)
                if (m.startswith('#') and m != '#v') or k in st or self.inarr(k):
                    continue
                o = T('out', u, k)
                self.defnode[o] = n
                st[k] = o
            if self.inarr(obj):
                o = T('out', u, obj)
                self.defnode[o] = n
                self.store(st, obj, o)
