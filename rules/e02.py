"""Malformed files are refused: assume the bad value, every continuation must fail."""
from rules.common import *
from rules import e01, loops

RD = PK + 'util::ReadableFile::Read'
RV = PK + 'util::ReadableFile::ReadAndVerifyString'
WIDTH = {'float': 4, 'double': 8, 'int': 4, 'unsigned char': 1}


class Loader:
    """the reads of one loader, in file order"""

    def __init__(self, ctx, f, stop=()):
        self.ctx, self.f = ctx, f
        self.F = F = ctx.flow(f, stop=sorted({RD, RV} | set(stop)))
        self.scal, self.bulk, self.tags = [], [], []
        self.reads = [e for e in F.events if e.kind == 'call' and e.name in (RD, RV) and F.feasible(e.node)]
        for ev in sorted((e for e in F.events if e.kind == 'call' and e.name in (RD, RV)),
                         key=lambda e: (F.rpoi[e.node], e.seq)):
            if not F.feasible(ev.node):
                continue
            if ev.name == RV:
                self.tags.append(ev)
                continue
            l = ev.locs[0] if ev.locs else None
            o = out_of(F, ev)
            if o is None:
                continue
            if l is not None and l.op == 'var' and ev.args[1].op == 'c' and ev.args[1].args[0] in (1, 2, 4, 8):
                self.scal.append((ev, o))
            else:
                self.bulk.append((ev, o))

    def before(self, node):
        """the reads up to this point succeeded"""
        F = self.F
        return [isok(e.val) for e in self.reads if e.node is node or F.dominates(e.node, node)]

    def refused(self, rid, inst, node, conds, msg, at=None):
        F = self.F
        R = F.assume(node, conds + self.before(node))
        ok = not R.accepts() and not aborts(R)
        return self.ctx.check(rid, '%s/%s' % (short(self.f), inst), ok, at or self.f['loc'],
                              '%s is accepted by %s' % (msg, short(self.f)))

    def accepted(self, rid, inst, node, conds, msg):
        """a usable value must not be refused outright"""
        F = self.F
        R = F.assume(node, conds + self.before(node))
        ok = bool(R.accepts())
        return self.ctx.check(rid, '%s/%s' % (short(self.f), inst), ok, self.f['loc'],
                              '%s is refused by %s' % (msg, short(self.f)))


def aborts(R):
    return any(getattr(n, 'dead', False) for n in R.nodes)


def out_of(F, ev):
    for x, n in F.defnode.items():
        if x.op == 'out' and n is ev.node and x.args[1] == 0 and ev.val is not None and ev.val.op == 'res' and \
                x.args[0] is ev.val.args[0]:
            return x
    return None


def need(L, n, what):
    if len(L.scal) < n:
        raise AnalysisBroken('%s reads %d scalars, %d expected (%s)' % (L.f['q'], len(L.scal), n, what))


def last(L, *ix):
    """the node of the latest of these reads"""
    return max((L.scal[i][0] for i in ix), key=lambda e: L.F.rpoi[e.node]).node


def failing_edge(F):
    memo = {}

    def leave(k):
        if k not in memo:
            R = F.assume(k[0], list(F.E.get(k) or ()))
            # only what follows this edge counts
            tgt = k[0].succs[k[1]][0]
            R = F.assume(tgt, [])
            memo[k] = bool(R.returns()) and all(v.op == 'fail' for v in values_from(F, R, k))
        return memo[k]
    return leave


def values_from(F, R, k):
    """values the root can return once edge k is taken"""
    nodes = set()
    todo = [k[0].succs[k[1]][0]]
    while todo:
        n = todo.pop()
        if n in nodes:
            continue
        nodes.add(n)
        for i, (s, c) in enumerate(n.succs):
            if F.E.get((n, i)) is not None:
                todo.append(s)
    edges = {(n, i) for n in nodes for i in range(len(n.succs)) if F.E.get((n, i)) is not None} | {k}

    def vals(v, seen):
        if v in seen:
            return set()
        seen.add(v)
        if v.op == 'phi' and v in F.phis and F.defnode[v] in nodes:
            out = set()
            for e, x in F.phis[v].items():
                if e in edges:
                    out |= vals(x, seen)
            return out
        return {v}
    return vals(F.ret, set())


def elements(ctx, L, rid, ev, o, count, bads, inst):
    """every element of the array read by ev is examined and refused when bad. bads: [(field, cond(x))]"""
    F = L.F
    for fieldname, what, cond in bads:
        cands = {}
        for (n, i), t in F.econd.items():
            if not F.feasible(n):
                continue
            for x in walk(t):
                ld = x
                if fieldname is not None:
                    if x.op != 'sel' or x.args[1] != fieldname:
                        continue
                    ld = x.args[0]
                if ld.op == 'ld' and contains(ld.args[0], o):
                    cands.setdefault((x, ld.args[1]), n)
        good, why = False, 'no test of it was found'
        at = ev.loc
        for (x, idx), n in cands.items():
            r = loops.header_phi(F, idx)
            if r is None:
                continue
            h = F.defnode[r[0]]
            cs = cond(x, idx)
            if cs is None:
                continue
            R = F.assume(h, [lt(idx, count, True), le(C(0), idx, True)] + cs)
            if R.accepts() or any(e01.F_tgt(F, k) is h for k in R.edges):
                why = 'an element with %s can be accepted' % what
                continue
            # the header is the first node of every round: each index is visited
            w = loops.covers(F, h, idx, C(0), count, leave=failing_edge(F))
            if w:
                why = 'the examined element %s %s' % (show(idx), w)
                continue
            good = True
            break
        ctx.check(rid, '%s/%s' % (short(L.f), inst + '-' + what.replace(' ', '-')), good, at,
                  '%s: %s' % (short(L.f), why))


def contains(a, o):
    return o in walk(a)


def run(ctx):
    ctx.rule('tag', 'each section starts with the comparison of its tag, before anything else is read from it', 5)
    ctx.rule('range', 'assuming a value read from the file is unusable, every continuation of the loader fails', 20)
    ctx.rule('element', 'every element of an index or arc table is examined before the table is accepted', 4)
    ctx.rule('usable', 'the refusals leave usable values: an ordinary file is not refused on the same test', 6)
    prog = ctx.prog
    vectors(ctx)
    matrices(ctx)
    fst(ctx)
    nnet(ctx)
    header(ctx)
    words(ctx)
    context(ctx)


def one_of(ctx, name):
    return ctx.fns(name)


def width(f):
    for t, w in WIDTH.items():
        if '<%s>' % t in f['q']:
            return w
    return None


def vectors(ctx):
    for f in ctx.fns('Vector::Read'):
        w = width(f)
        if w is None:
            continue
        L = Loader(ctx, f)
        need(L, 2, 'section size, dimension')
        inst = lambda s: s + '<%d>' % w
        size, dim = L.scal[0][1], L.scal[1][1]
        nd = last(L, 0, 1)
        tag(ctx, L, ['VEC0'], 1)
        L.refused('range', inst('negative'), nd, [lt(dim, C(0), True)], 'a negative dimension')
        d = sub(size, add(scale(dim, w), C(4)))
        L.refused('range', inst('short'), nd, [lt(d, C(0), True)], 'a section size below its contents')
        L.refused('range', inst('long'), nd, [lt(C(0), d, True)], 'a section size above its contents')
        L.accepted('usable', inst('good'), nd, [eq(d, C(0)), lt(C(0), dim, True)], 'a consistent vector')
        for ev, o in L.bulk:
            F = L.F
            ctx.check('range', '%s/%s' % (short(f), inst('data')),
                      F.prove(eq(ev.args[1], scale(dim, w)), ev.node), ev.loc,
                      'the number of bytes read is not the dimension times the element size')


def matrices(ctx):
    for f in ctx.fns('Matrix::Read'):
        w = width(f)
        if w is None:
            continue
        L = Loader(ctx, f, stop=[PK + 'Vector::Read'])
        F = L.F
        need(L, 3, 'section size, rows, columns')
        rows, cols = L.scal[1][1], L.scal[2][1]
        nd = last(L, 1, 2)
        inst = lambda s: s + '<%d>' % w
        tag(ctx, L, ['MAT0'], 1)
        L.refused('range', inst('negative-rows'), nd, [lt(rows, C(0), True)], 'a negative number of rows')
        L.refused('range', inst('negative-columns'), nd, [lt(cols, C(0), True)], 'a negative number of columns')
        L.accepted('usable', inst('good'), nd, [lt(C(0), rows, True), lt(C(0), cols, True)], 'an ordinary matrix')
        rv = [e for e in F.events if e.kind == 'call' and e.name == PK + 'Vector::Read' and F.feasible(e.node)]
        ctx.check('range', '%s/%s' % (short(f), inst('rows-read')), bool(rv), f['loc'], 'no row is read')
        for e in rv:
            dims = [x for x in F.defnode if x.op == 'out' and F.defnode[x] is e.node and e.val.op == 'res' and
                    x.args[0] is e.val.args[0] and 'dim_' in str(x.args[1])]
            # the size the matrix was given is the one in the file
            st = F.endst[e.node]
            nr, nc = F.load(st, F.field('num_rows_')), F.load(st, F.field('num_cols_'))
            h = [lt(C(0), nr, True)] if F.prove(lt(C(0), nr, True), e.node) else []
            same = [eq(nc, cols)] if F.prove(eq(nc, cols), e.node, depth=4, extra=h) else []
            ctx.check('range', '%s/%s' % (short(f), inst('size')), bool(same) and
                      F.prove(eq(nr, rows), e.node, depth=4, extra=h), e.loc,
                      'the matrix is not given the size read from the file')
            good = False
            for d in dims:
                ok = True
                for c in (lt(d, cols, True), lt(cols, d, True)):
                    R = F.assume(e.node, [isok(e.val), c] + same)
                    ok = ok and not R.accepts() and not aborts(R) and \
                        not any(e01.F_tgt(F, k) is e.node for k in R.edges)
                good = good or ok
            ctx.check('range', '%s/%s' % (short(f), inst('row-dimension')), good, e.loc,
                      'a row whose length differs from the number of columns is accepted')


def tag(ctx, L, texts, n):
    """the first read of the loader is the comparison with one of the known tags"""
    F = L.F
    got = [tagtext(ctx, e) for e in L.tags]
    first = sorted(L.tags + [e for e, _ in L.scal] + [e for e, _ in L.bulk],
                   key=lambda e: (F.rpoi[e.node], e.seq))
    ok = bool(got) and got[0] == texts[0] and first and first[0] is L.tags[0] and \
        all(F.evdom(first[0], e) for e in first[1:])
    ctx.check('tag', '%s<%s>' % (short(L.f), L.f['q'].split('<')[-1][:8]), ok, L.f['loc'],
              '%s does not start by verifying the tag %s (%s)' % (short(L.f), texts[0], got))


def tagtext(ctx, ev):
    a = ev.args[0]
    if a.op == 'str':
        return a.args[0]
    for x in walk(a):
        if x.op == 'glob':
            g = ctx.prog.globals.get(x.args[0])
            if g and g.get('str') is not None:
                return g['str']
            if g:
                return g.get('init')
    return None


def fst(ctx):
    f = ctx.fn('Fst::Read')
    L = Loader(ctx, f)
    F = L.F
    need(L, 4, 'section size, states, arcs, start')
    size, ns, na, start = [o for _, o in L.scal[:4]]
    nd = last(L, 0, 1, 2, 3)
    # the section name is read first and compared with the constant
    first = min((e for e, _ in L.scal + L.bulk), key=lambda e: (F.rpoi[e.node], e.seq))
    nameev = [(e, o) for e, o in L.bulk if e is first]
    good = False
    if nameev or L.tags:
        good = bool(L.tags) or named(ctx, F, *nameev[0])
    ctx.check('tag', 'Fst::Read', good, f['loc'], 'a wrong section name is accepted')
    L.refused('range', 'negative-states', nd, [lt(ns, C(0), True)], 'a negative number of states')
    L.refused('range', 'negative-arcs', nd, [lt(na, C(0), True)], 'a negative number of arcs')
    L.refused('range', 'negative-start', nd, [lt(start, C(0), True)], 'a negative start state')
    L.refused('range', 'start', nd, [le(ns, start, True)], 'a start state beyond the last state')
    d = sub(size, add(C(12), add(scale(ns, 8), scale(na, 16))))
    L.refused('range', 'short', nd, [lt(d, C(0), True)], 'a section size below its contents')
    L.refused('range', 'long', nd, [lt(C(0), d, True)], 'a section size above its contents')
    L.accepted('usable', 'good', nd, [eq(d, C(0)), lt(C(0), ns, True), eq(start, C(0)), lt(C(0), na, True)],
               'a consistent graph')
    bulk = [b for b in L.bulk if b[0] is not first]
    idx = [b for b in bulk if field_of(b[0]) == 'state_idx_']
    arc = [b for b in bulk if field_of(b[0]) == 'arcs_']
    if not idx or not arc:
        raise AnalysisBroken('Fst::Read: the state index or the arcs are not read in bulk')
    for (ev, o), cnt, w, nm in ((idx[0], ns, 4, 'index'), (arc[0], na, 16, 'arcs')):
        ctx.check('range', 'Fst::Read/%s-bytes' % nm, F.prove(eq(ev.args[1], scale(cnt, w)), ev.node), ev.loc,
                  'the table is not read completely')
    elements(ctx, L, 'element', idx[0][0], idx[0][1], ns,
             [(None, 'an index beyond the arcs', lambda x, i: [le(na, x, True), le(C(0), x, True)]),
              (None, 'an index below an earlier one', lambda x, i: order(F, x, i))], 'state-index')
    elements(ctx, L, 'element', arc[0][0], arc[0][1], na,
             [('next_state', 'a negative destination', lambda x, i: [lt(x, C(0), True)]),
              ('next_state', 'a destination beyond the states', lambda x, i: [le(ns, x, True)]),
              ('input_label', 'a negative label', lambda x, i: [lt(x, C(0), True)])], 'arc')


def order(F, x, idx):
    """x (an index, >= 0) below the largest one seen so far: the running maximum is a merge of the
    same loop that starts at 0 and takes the elements"""
    p = loops.header_phi(F, idx)[0]
    for q in F.at(F.defnode[p]):
        if q is p:
            continue
        body = F.loops()[F.defnode[p]]
        vals, inits = set(), set()

        def leaves(v, seen):
            if v in seen:
                return
            seen.add(v)
            if v.op == 'phi' and v is not q and v in F.phis and F.defnode[v] in body:
                for k, y in F.phis[v].items():
                    leaves(y, seen)
            else:
                vals.add(v)
        for k, v in F.phis[q].items():
            if k[0] in body:
                leaves(v, set())
            else:
                inits.add(v)
        if x in vals and vals <= {x, q} and inits <= {C(0), C(-1)}:
            return [le(C(0), x, True), lt(x, q, True)]
    return None


def field_of(ev):
    l = ev.locs[0]
    names = []
    while l is not None and l.op in ('fld', 'el'):
        if l.op == 'fld':
            names.append(l.args[1])
        l = l.args[0]
    names = [n for n in names if not str(n).startswith('#')]
    return names[0] if names else None


def named(ctx, F, ev, o):
    """some comparison of the bytes read with a constant decides between failure and going on"""
    base = root(ev.locs[0])
    for (n, i), t in F.econd.items():
        if not F.feasible(n):
            continue
        if not any(x is o or x is base or (x.op in ('init', 'el', 'fld') and base in walk(x)) for x in walk(t)):
            continue
        for lit in (t, NOT(t)):
            x, pol = lit, True
            while x.op == 'not':
                pol = not pol
                x = x.args[0]
            if pol and x.op in ('eq', 'eq0'):
                continue
            if x.op in ('fn', 'm') and not whole_cmp(x):
                continue
            R = F.assume(n, [lit])
            if not R.accepts() and R.returns():
                return True
    return False


def whole_cmp(x):
    return True


def nnet(ctx):
    # layers that read parameters
    f = ctx.fn('SpliceLayer::Read')
    L = Loader(ctx, f)
    need(L, 1, 'number of indices')
    n = L.scal[0][1]
    L.refused('range', 'negative', last(L, 0), [lt(n, C(0), True)], 'a negative number of indices')
    L.refused('range', 'empty', last(L, 0), [eq(n, C(0))], 'a context layer without any offset')
    f = ctx.fn('NarrowLayer::Read')
    L = Loader(ctx, f)
    need(L, 2, 'left, right')
    for k, nm in ((0, 'left'), (1, 'right')):
        L.refused('range', nm, last(L, 0, 1), [lt(L.scal[k][1], C(0), True)], 'a negative width')
    L.accepted('usable', 'good', last(L, 0, 1), [lt(C(0), L.scal[0][1], True), lt(C(0), L.scal[1][1], True)],
               'an ordinary narrow layer')
    F = L.F
    for k, nm in ((0, 'narrow_left_'), (1, 'narrow_right_')):
        R = F.assume(last(L, 0, 1), [])
        v = F.final(F.field(nm))
        vs = R.values(v) - {T('init', F.field(nm))}
        ctx.check('range', 'NarrowLayer::Read/%s' % nm, vs == {L.scal[k][1]}, f['loc'],
                  'the %s width is not the value read at that place' % ('left' if k == 0 else 'right'))
    pair(ctx, 'LinearLayer::Read', 'a bias whose length differs from the number of outputs', 'b_', 'dim_',
         'W_', 'num_cols_')
    pair(ctx, 'BatchNormLayer::Read', 'scale and offset of different lengths', 'scale_', 'dim_', 'offset_', 'dim_')
    # layer type
    f = ctx.fn('Nnet::ReadLayer')
    L = Loader(ctx, f, stop=[PK + x for x in ('Layer::Read',)])
    F = L.F
    tag(ctx, L, ['LAY0'], 1)
    need(L, 1, 'layer type')
    ty = L.scal[0][1]
    known = enum(ctx)
    nd = last(L, 0)
    L.refused('range', 'type-low', nd, [lt(ty, C(min(known)), True)], 'a layer type below every known one')
    L.refused('range', 'type-high', nd, [lt(C(max(known)), ty, True)], 'a layer type above every known one')
    for v in range(min(known), max(known) + 1):
        if v not in known:
            L.refused('range', 'type-%d' % v, nd, [eq(ty, C(v))], 'the unknown layer type %d' % v)
        else:
            L.accepted('usable', 'type-%d' % v, nd, [eq(ty, C(v))], 'layer type %d' % v)
    f = ctx.fn('Nnet::Read')
    L = Loader(ctx, f, stop=[PK + 'Nnet::ReadLayer'])
    F = L.F
    tag(ctx, L, ['NN02'], 1)
    need(L, 3, 'contexts, number of layers')
    n = L.scal[2][1]
    L.refused('range', 'negative-layers', last(L, 2), [lt(n, C(0), True)], 'a negative number of layers')
    L.accepted('usable', 'good', last(L, 2), [lt(C(0), n, True)], 'an ordinary network')


def enum(ctx):
    """layer numbers the converter writes"""
    import ast, os
    import program
    src = open(os.path.join(program.REPO, 'tool', 'convert_am.py')).read()
    vals = set()
    for nd in ast.walk(ast.parse(src)):
        if isinstance(nd, ast.Assign) and len(nd.targets) == 1 and isinstance(nd.targets[0], ast.Name) and \
                nd.targets[0].id.endswith('_LAYER') and isinstance(nd.value, ast.Constant) and \
                isinstance(nd.value.value, int):
            vals.add(nd.value.value)
    if not vals:
        raise AnalysisBroken('no layer numbers found')
    # ReLU-family layers the file format defines but this converter never emits
    return vals | {2, 3}


def pair(ctx, name, what, a, af, b, bf):
    f = ctx.fn(name)
    L = Loader(ctx, f, stop=[PK + 'Vector::Read', PK + 'Matrix::Read'])
    F = L.F
    evs = sorted((e for e in F.events if e.kind == 'call' and e.name in (PK + 'Vector::Read', PK + 'Matrix::Read')),
                 key=lambda e: F.rpoi[e.node])
    if len(evs) < 2:
        raise AnalysisBroken('%s does not read two parameters' % name)
    nd = evs[-1].node
    st = F.endst[nd]
    va = F.load(st, fld(F.field(a), af))
    vb = F.load(st, fld(F.field(b), bf))
    oks = [isok(e.val) for e in evs]
    for k, c in (('less', lt(va, vb, True)), ('more', lt(vb, va, True))):
        L.refused('range', '%s-%s' % (a, k), nd, [c] + oks[-1:], what)
    L.refused('range', a + '-empty', nd, [eq(va, C(0)), eq(vb, C(0))] + oks[-1:], 'a layer without parameters')
    L.accepted('usable', 'good', nd, [eq(va, vb), lt(C(0), va, True)] + oks[-1:], 'an ordinary layer')


def header(ctx):
    f = ctx.fn('ReadPcmHeader')
    L = Loader(ctx, f)
    F = L.F
    got = [tagtext(ctx, e) for e in L.tags]
    ctx.check('tag', 'ReadPcmHeader', got == ['RIFF', 'WAVE', 'fmt ', 'data'], f['loc'],
              'the audio header tags checked are %s' % got)
    need(L, 9, 'audio header')
    w = [e.args[1].args[0] for e, _ in L.scal]
    ctx.check('range', 'ReadPcmHeader/layout', w[:9] == [4, 4, 2, 2, 4, 4, 2, 2, 4], f['loc'],
              'the fields of the audio header are read with sizes %s' % w)
    sub1, fmt, chan, rate, brate, align, bits = [o for _, o in L.scal[1:8]]
    S = L.scal
    for nm, i, o, v in (('fmt-size', 1, sub1, 16), ('audio-format', 2, fmt, 1)):
        L.refused('range', nm + '-low', S[i][0].node, [lt(o, C(v), True)], 'a header with another ' + nm)
        L.refused('range', nm + '-high', S[i][0].node, [lt(C(v), o, True)], 'a header with another ' + nm)
    want = T('idiv', mul(rate, bits), C(8))
    nd = last(L, 4, 5, 6, 7)
    for k, c in (('low', lt(brate, want, True)), ('high', lt(want, brate, True))):
        L.refused('range', 'byte-rate-' + k, nd, [c], 'an inconsistent byte rate')
    want = T('idiv', bits, C(8))
    for k, c in (('low', lt(align, want, True)), ('high', lt(want, align, True))):
        L.refused('range', 'block-align-' + k, nd, [c], 'an inconsistent block alignment')
    out = F.paramobj(1)
    R = F.assume(F.entry, [])
    for nm, o in (('num_channels', chan), ('sample_rate', rate), ('bits_per_sample', bits)):
        v = F.final(fld(out, nm))
        vs = R.values(v) - {T('init', fld(out, nm))}
        ctx.check('range', 'ReadPcmHeader/' + nm, vs == {o}, f['loc'], 'the %s reported is not the one in the '
                  'header' % nm)
        # set on every successful path
        ok = all(not success_edge(F, k) or True for k in F.phis.get(v, {}))
        ctx.check('range', 'ReadPcmHeader/%s-set' % nm, always_set(F, fld(out, nm)), f['loc'],
                  'the %s is not reported on every successful path' % nm)


def always_set(F, loc):
    nodes = {e.node for e in F.events if e.kind == 'store' and e.where is loc}
    R = F.assume(F.entry, [], stop=nodes)
    return not any(v is OK or v.op == 'ok' for v in R.returns())


def success_edge(F, k):
    return False


def words(ctx):
    f = ctx.fn('SymbolTable::Read')
    stop = [PK + 'util::Split', PK + 'util::StringToLong', PK + 'util::ReadableFile::ReadLine',
            PK + 'util::ReadableFile::Open']
    L = Loader(ctx, f, stop=stop)
    F = L.F
    sp = [e for e in F.events if e.kind == 'call' and e.name == PK + 'util::Split' and F.feasible(e.node)]
    nums = [e for e in F.events if e.kind == 'call' and e.name == PK + 'util::StringToLong' and F.feasible(e.node)]
    if not sp or not nums:
        raise AnalysisBroken('SymbolTable::Read: no Split/StringToLong')
    for e in nums:
        o = [x for x in F.defnode if x.op == 'out' and F.defnode[x] is e.node and x.args[1] == 1 and
             x.args[0] is e.val.args[0]]
        if not o:
            raise AnalysisBroken('SymbolTable::Read: the number read is not found')
        oks = [isok(e.val)]
        L.refused('range', 'negative-id', e.node, [lt(o[0], C(0), True)] + oks, 'a negative symbol id')
        L.refused('range', 'huge-id', e.node, [le(C(2147483647), o[0], True)] + oks, 'a symbol id beyond the '
                  'integer range')
        L.accepted('usable', 'id', e.node, [lt(C(0), o[0], True), lt(o[0], C(1000), True)] + oks,
                   'an ordinary symbol id')
    for e in sp:
        sizes = [x for n in F.econd for x in walk(F.econd[n]) if is_size_of(F, x, e)]
        good = False
        for s in set(sizes):
            ok = True
            for c in (lt(s, C(2), True), lt(C(2), s, True)):
                R = F.assume(e.node, [c])
                ok = ok and not R.accepts()
            good = good or ok
        ctx.check('range', 'SymbolTable::Read/columns', good, e.loc,
                  'a line without exactly two columns is accepted')
    # both sentence markers must be present
    finds = [e for e in F.events if e.kind == 'call' and (e.name or '').endswith(('::find', '::count')) and F.feasible(e.node)]
    seen = {}
    for e in finds:
        lits = {a for n, t in F.econd.items() if F.feasible(n[0]) for a in walk(t) if a.op == 'eq0' and
                e.val in walk(a) and not any(o is not e and o.val in walk(a) for o in finds)}
        if any(not F.assume(e.node, [a]).accepts() for a in lits) and \
                not F.assume(F.entry, [], stop={e.node}).accepts():
            seen[symbol(ctx, e)] = True
    for s in ('kBosSymbol', 'kEosSymbol'):
        ctx.check('range', 'SymbolTable::Read/' + s, s in seen, f['loc'],
                  'a word list without %s is accepted' % s)


def symbol(ctx, ev):
    for a in ev.args:
        for x in walk(a):
            if x.op == 'glob':
                return x.args[0].split('::')[-1]
    return None


def is_size_of(F, x, ev):
    if x.op == 'm' and x.args[0] == 'size' and ev.val in walk(x.args[1]):
        return True
    return x.op == 'sel' and x.args[1] == '#size' and ev.val in walk(x.args[0])


def context(ctx):
    f = ctx.fn('AcousticModel::Read')
    F = ctx.flow(f, stop=[PK + 'Configuration::GetInteger', PK + 'Configuration::GetPath', RD, RV,
                          PK + 'Nnet::Read', PK + 'Vector::Read', PK + 'util::ReadableFile::Open',
                          PK + 'VectorBase::ApplyLog'])
    L = Loader.__new__(Loader)
    L.ctx, L.f, L.F, L.reads = ctx, f, F, []
    for ev in F.events:
        if ev.kind == 'call' and ev.name == PK + 'Configuration::GetInteger' and F.feasible(ev.node):
            key = [a.args[0] for a in ev.args if a.op == 'str']
            o = [x for x in F.defnode if x.op == 'out' and F.defnode[x] is ev.node and x.args[1] == 1 and
                 x.args[0] is ev.val.args[0]]
            if not key or not o:
                continue
            k = key[0] if isinstance(key[0], str) else key[0].decode()
            bad = {'left_context': lt(o[0], C(0), True), 'right_context': lt(o[0], C(0), True),
                   'chunk_size': le(o[0], C(0), True)}.get(k)
            if bad is None:
                continue
            L.refused('range', k, ev.node, [bad, isok(ev.val)], 'an unusable ' + k)
