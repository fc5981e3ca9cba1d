"""Text files are read uniformly line by line."""
from rules.stream import *
import models as M

S = 'std::basic_string::'
LINE = PK + 'util::ReadableFile::ReadLine'
EOF_ = PK + 'util::ReadableFile::Eof'
FG = ('fgets', 'std::fgets')


def _base(v):
    """the memory a pointer to its first character points into"""
    if v is None:
        return None
    if v.op == 'addr':
        return v.args[0].args[0] if v.args[0].op == 'el' else v.args[0]
    return None


def _content(c, v):
    """the text a char pointer stands for"""
    b = _base(v)
    if b is not None:
        return c.load(b)
    if v.op in ('res', 'phi') and BUF.get(c.F) is not None:
        return c.load(BUF[c.F])
    if v.op == 'm' and v.args[0] in ('c_str', 'data'):
        return v.args[1]
    return v


BUF = {}


def _fgets(c):
    u = c.uid()
    t = T('text', u)
    c.F.defnode[t] = c.n
    b = _base(c.vals[0])
    if b is not None:
        c.store(b, t)
        BUF[c.F] = b
    r = T('res', u)
    c.F.defnode[r] = c.n
    return r


def _strlen(c):
    return M.strsize(_content(c, c.vals[0]))


def _strassign(c):
    v = _content(c, c.vals[0]) if len(c.vals) == 1 else T('fn', 'string', *c.vals)
    if len(c.vals) == 2 and c.vals[1].op in ('c', 'm', 'sum'):
        t = _content(c, c.vals[0])
        v = t if c.vals[1] is M.strsize(t) else v
    if len(c.vals) == 3 and c.vals[0].op in ('str',) or (len(c.vals) == 1 and c.e.get('args') is None):
        v = c.vals[0]
    c.store(c.obj, v)
    return c.obj


def _strapp(c):
    old = c.load(c.obj)
    v = _content(c, c.vals[0])
    if len(c.vals) == 2 and c.vals[1] is not M.strsize(v):
        v = T('fn', 'part', v, c.vals[1])
    c.store(c.obj, v if old is T('str', '') else T('cat', old, v))
    return c.obj


def _strctor(c):
    a = [x for x in c.vals if x.op not in ('void', 'fresh')]
    if not a:
        return T('str', '')
    if len(a) == 1:
        return _content(c, a[0])
    return M._strctor(c)


def _pop(c):
    c.store(c.obj, T('chop', c.load(c.obj)))
    return T('void')


def _cut(c):
    old = c.load(c.obj)
    n = c.vals[0] if c.vals else C(0)
    c.store(c.obj, T('chop', old) if n is sub(M.strsize(old), C(1)) else T('cut', old, n) if n is not C(0) else T('str', ''))
    return T('void')


def _substr(c):
    old = c.load(c.obj)
    if c.vals and c.vals[0] is C(0) and len(c.vals) > 1:
        return T('chop', old) if c.vals[1] is sub(M.strsize(old), C(1)) else T('cut', old, c.vals[1])
    return T('fn', 'substr', old, *c.vals)


def _trimpos(c):
    return T('trimpos', c.load(c.obj), *c.vals)


MODEL = {'fgets': _fgets, 'std::fgets': _fgets, 'strlen': _strlen, 'std::strlen': _strlen, S + 'operator=': _strassign,
         S + 'assign': _strassign, S + 'operator+=': _strapp, S + 'append': _strapp, S + 'pop_back': _pop,
         S + 'resize': _cut, S + 'erase': _cut, S + 'substr': _substr, S + 'find_last_not_of': _trimpos,
         S + 'basic_string': _strctor}


def reading(ctx):
    return ctx.flow(LINE, extra=MODEL, key='e06')


def run(ctx):
    ctx.rule('whole', 'everything fgets delivers becomes part of the line exactly once and in order; what the '
             'caller had in the string before does not', 4)
    ctx.rule('end', 'reading goes on exactly while the line has no newline yet and the buffer was filled; it '
             'stops at the newline, at the end of the file, and nowhere else', 4)
    ctx.rule('trim', 'only LF and CR at the end of the line are removed, and they always are', 1)
    ctx.rule('eof', 'the end of the file is no error and a read error always is; true is returned if and only '
             'if something was read', 4)
    ctx.rule('callers', 'a loop over the lines of a file uses each line it is given and goes on to the end of the file', 3)
    whole(ctx)
    callers(ctx)


def texts(v):
    return [x for x in walk(v) if x.op == 'text']


def leaf_values(F, v):
    out, seen, todo = [], set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in F.phis:
            todo += [y for k, y in F.phis[x].items() if F.E.get(k) is not None]
        elif x.op in ('ite', 'min', 'max'):
            todo += [y for y in x.args[-2:]]
        else:
            out.append(x)
    return out


def whole(ctx):
    f = ctx.fn(LINE)
    F = reading(ctx)
    line, status = F.deref(F.paramval(0)), F.deref(F.paramval(1))
    fg = [e for e in F.events if e.kind == 'call' and last(e.name) == 'fgets']
    if not ctx.check('whole', 'reads', bool(fg), f['loc'], 'the line is not read with fgets'):
        return
    res = {k: T('res', uid_of(F, k)) for k in fg}
    got = {k: NOT(eq(NULL, res[k])) for k in fg}
    nil = {k: eq(NULL, res[k]) for k in fg}
    byuid = {uid_of(F, k): k for k in fg}
    knodes = {k.node for k in fg}
    ret = F.ret

    def yes(R):
        return [v for v in R.returns() if v is not C(0)]

    def no(R):
        return [v for v in R.returns() if v is not C(1)]
    # --- what the line is made of
    Y = [(t[0], fs) for t, fs in (cases(F, (F.final(line), ret), F.exit, limit=256) or []) if t[1] is not C(0)]
    ctx.check('whole', 'returned', bool(Y), f['loc'], 'no line is ever returned')
    used, bad = set(), None
    first = {k for k in fg if not any(k2 is not k and F.dominates(k2.node, k.node) for k2 in fg)}

    def grammar(v, seen, head):
        """v is made of what was read; head: nothing may come before it"""
        nonlocal bad
        if v in seen:
            return
        seen.add(v)
        if v.op in ('chop', 'cut'):
            grammar(v.args[0], seen, head)
        elif v.op == 'phi' and v in F.phis:
            for k, y in F.phis[v].items():
                if F.E.get(k) is not None:
                    grammar(y, seen, head)
        elif v.op == 'text':
            used.add(v.args[0])
        elif v.op == 'cat':
            grammar(v.args[0], seen, head)
            for x in v.args[1:]:
                for y in leaf_values(F, x):
                    if y.op == 'text':
                        used.add(y.args[0])
                    elif not (y.op == 'str' and y.args[0] == ''):
                        bad = y
        elif v.op == 'str' and v.args[0] == '':
            pass
        else:
            bad = v
    for v, fs in Y:
        grammar(v, set(), True)
    ctx.check('whole', 'only-read', bad is None, f['loc'], 'the line delivered can contain %s, which is not what was read'
              % (show(bad)[:80] if bad is not None else ''))
    for k in fg:
        ctx.check('whole', 'used/%d' % fg.index(k), uid_of(F, k) in used, k.loc, 'what is read at %s never becomes part of the line' % k.loc)
    # --- each read is added before the next one
    adds = {}
    for e in F.events:
        if e.kind in ('call', 'ctor') and (e.name or '') in (S + 'operator=', S + 'assign', S + 'operator+=', S + 'append',
                                                   S + 'basic_string', S + 'swap') and (e.obj is not None or e.kind == 'ctor'):
            a = e.args[0] if e.args else None
            t = set()
            if a is not None and (e.e['f'].get('pt') or [''])[0].rstrip().endswith('*') and (a.op in ('res', 'phi') or _base(a) is not None):
                t = {x.args[0] for x in leaf_values(F, at_event(F, e, _base(a) or BUF.get(F))) if x.op == 'text'}
            if t:
                kind = '=' if e.name in (S + 'operator=', S + 'assign', S + 'basic_string') else '+'
                for u in t:
                    adds.setdefault(u, []).append((e, kind))
    resets = [e for e in F.events if e.kind == 'call' and e.name in (S + 'clear',)]
    for k in fg:
        A = adds.get(uid_of(F, k), [])
        an = {e.node for e, _ in A}
        i = '%d' % fg.index(k)
        R = F.assume(k.node, [got[k]], stop=an - {k.node})
        lost = again(F, R, k, knodes, an) or \
            (F.exit in R.nodes and bool(yes(R)))
        ctx.check('whole', 'once/' + i, not lost, k.loc, 'what is read at %s may be dropped' % k.loc)
        # not twice
        for e, kind in A:
            R2 = F.assume(e.node, [], stop=knodes)
            twice = [x for x, kk in A if x is not e and kk == '+' and (x.node in R2.nodes and x.node is not e.node or
                                                                      x.node is e.node and x.seq > e.seq)]
            ctx.check('whole', 'twice/%s' % i, not twice, e.loc, 'what is read at %s is added to the line twice' % k.loc)
    # an assignment after earlier pieces would lose them
    for u, A in adds.items():
        for e, kind in A:
            if kind == '=' and e.name != S + 'basic_string':
                before = [k for k in fg if k in fg and prior(F, k, e, adds, got)]
                ctx.check('whole', 'kept/%s' % e.name.split('::')[-1], not before, e.loc,
                          'the assignment at %s drops the part of the line read before' % e.loc)
    end(ctx, F, f, fg, res, got, nil, adds, yes)
    trim(ctx, F, f, line, Y)
    eof(ctx, F, f, fg, res, got, nil, line, status, yes, no)


def uid_of(F, k):
    return F.uid(k.frame, k.e)


def at_event(F, e, loc):
    v = F.load(F.instate[e.node], loc)
    for x in F.events:
        if x.node is e.node and x.seq < e.seq and x.kind == 'call' and last(x.name) == 'fgets':
            v = T('text', uid_of(F, x))
    return v


def again(F, R, k, knodes, an):
    """another read is reached (including the same one again)"""
    for n in knodes:
        if n in R.nodes and n is not k.node:
            return True
    # back to the node itself
    return any(a in R.nodes and (a, i) in R.edges and t is k.node for a in list(R.nodes) for i, (t, *_) in enumerate(a.succs))


def prior(F, k, e, adds, got):
    """the text read at k is in the line when e overwrites it, and e does not belong to that read"""
    A = [x for x, _ in adds.get(uid_of(F, k), [])]
    for x in A:
        if x is e:
            # itself again: only through another read, which then would be overwritten text
            R = F.assume(e.node, [])
            if any((a, i) in R.edges and t is e.node for a in R.nodes for i, (t, *_) in enumerate(a.succs)):
                return True
            continue
        R = F.assume(x.node, [])
        if e.node in R.nodes and e.node is not x.node:
            return True
    return False


def backs(F):
    """the terms naming the last character of a string, by the string"""
    out = {}
    for fs in list(F.E.values()):
        for g in fs or ():
            for x in walk(g):
                if x.op == 'ld' and len(x.args) == 2 and x.args[1] is sub(M.strsize(x.args[0]), C(1)):
                    out[x.args[0]] = x
    return out


def lens(F):
    out = set()
    for fs in list(F.E.values()):
        for g in fs or ():
            for x in walk(g):
                if x.op == 'm' and x.args[0] == 'size' and leaf_values(F, x.args[1]) and \
                        all(y.op == 'text' for y in leaf_values(F, x.args[1])):
                    out.add(x)
    return out


def end(ctx, F, f, fg, res, got, nil, adds, yes):
    N = {k: k.args[1] for k in fg}
    B, LN = backs(F), lens(F)
    knodes = {k.node for k in fg}
    later = [k for k in fg if any(k.node in F.assume(k2.node, [got[k2]]).nodes and
                                  (k is not k2 or again(F, F.assume(k2.node, [got[k2]]), k2, {k2.node}, ()))
                                  for k2 in fg)]
    if not ctx.check('end', 'goes-on', bool(later), f['loc'], 'a line longer than the buffer is cut in pieces'):
        return

    def full(t):
        """facts: the buffer was filled and holds no newline at its end"""
        out = []
        for x in LN:
            for k in fg:
                out.append(eq(x, sub(N[k], C(1))))
        return list(dict.fromkeys(out))
    chars = [x for s, x in B.items() if made_of_text(F, s)]
    ctx.check('end', 'looks', bool(chars), f['loc'], 'nothing looks for the newline')
    for k in fg:
        i = '%d' % fg.index(k)
        # the line ends in a newline: no more is read
        A = [e for e, _ in adds.get(uid_of(F, k), [])]
        froms = {defn(F, x.args[0]) for x in chars} & ({n for n in F.assume(k.node, [got[k]], stop=knodes - {k.node}).nodes} | {k.node})
        ok = bool(froms)
        for n in froms:
            cs = [x for x in chars if defn(F, x.args[0]) is n]
            R = F.assume(n, [eq(x, C(10)) for x in cs] , stop=knodes - {n})
            if any(m in R.nodes and m is not n for m in knodes) or (n in knodes and again(F, R, fake(n), {n}, ())):
                ok = False
        R0 = F.assume(k.node, [got[k]])
        if not any(m in R0.nodes and m is not k.node for m in knodes) and not again(F, R0, k, {k.node}, ()):
            ok = True
        ctx.check('end', 'newline/' + i, ok, k.loc, 'another piece is read although the line is complete')
        # full without newline: more is read before the line is returned
        ok, hit = True, False
        for n in froms | {defn(F, x.args[1]) for x in LN} & F.assume(k.node, [got[k]]).nodes:
            fs = [NOT(eq(x, C(10))) for x in chars] + full(None)
            fs = [g for g in fs if all(F.dominates(d, n) for d in F.defnodes(g))]
            if len([g for g in fs if any(x in chars for x in walk(g))]) == 0:
                continue
            hit = True
            R = F.assume(n, fs, stop=knodes - {n})
            if F.exit in R.nodes and yes(R):
                ok = False
        ctx.check('end', 'full/' + i, ok and hit, k.loc, 'a line longer than the buffer may be delivered in pieces')
        # shorter than the buffer: it was the last piece, or the line would be lost at the end of the file
    for k in later:
        i = '%d' % fg.index(k)
        R = F.assume(k.node, [nil[k]], stop=knodes - {k.node})
        ctx.check('end', 'no-more/' + i, F.exit in R.nodes and not again(F, R, k, knodes, ()), k.loc,
                  'reading goes on after the end of the file')


class fake:
    def __init__(self, n):
        self.node = n


def made_of_text(F, v):
    """built up from what was read only, nothing trimmed yet"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        for y in leaf_values(F, x):
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'cat':
                todo += y.args
            elif not (y.op == 'text' or y.op == 'str' and y.args[0] == '' or y.op == 'init'):
                return False
    return any(y.op == 'text' for y in seen)


def defn(F, v):
    if v.op == 'phi':
        return F.defnode[v]
    ds = list(F.defnodes(v))
    best = F.entry
    for d in ds:
        if F.dominates(best, d):
            best = d
    return best


def trim(ctx, F, f, line, Y):
    # only LF / CR
    n = 0
    B = backs(F)
    for e in F.events:
        if e.kind != 'call' or not e.name or e.obj is None or not e.name.startswith(S):
            continue
        m = last(e.name)
        if m not in ('pop_back', 'resize', 'erase', 'substr'):
            continue
        n += 1
        v = value_before(F, e)
        if m != 'pop_back':
            a = e.args[-1] if m == 'substr' and len(e.args) > 1 else e.args[0]
            if set_trim(F, a, v) or counted_trim(F, a, v):
                ctx.check('trim', 'only/%s' % m, True, e.loc, '')
                continue
            if a is not sub(M.strsize(v), C(1)):
                ctx.check('trim', 'only/%s' % m, False, e.loc, 'more than the line ending is removed')
                continue
        b = back_of(v)
        d = born(F, v)
        ok = d is not e.node and e.node not in F.assume(d, [NOT(eq(b, C(10))), NOT(eq(b, C(13)))], stop={d}).nodes
        ctx.check('trim', 'only/%s' % m, ok, e.loc, 'a character that is not part of the line ending may be removed')
    ctx.check('trim', 'some', n > 0, f['loc'], 'the line ending is not removed')
    # always
    rets, todo = set(), [F.ret]
    while todo:
        x = todo.pop()
        if x.op == 'phi' and x in F.phis and F.defnode[x] not in rets:
            rets.add(F.defnode[x])
            todo += list(F.phis[x].values())
    keep = {x for x in F.phis if F.defnode[x] not in rets}
    Y = [(t[0], fs) for t, fs in (cases(F, (F.final(line), F.ret), F.exit, limit=256, keep=keep) or []) if t[1] is not C(0)]
    for ch, name in ((10, 'LF'), (13, 'CR')):
        ctx.check('trim', 'always/' + name, all(free(F, v, ch, {}) for v, fs in Y), f['loc'],
                  'a line may be delivered with its %s' % name)


def counted_trim(F, a, v, ch=None):
    """a counts down from the length of v over the characters CR and LF; with ch: as long as there are any"""
    if a.op != 'phi' or a not in F.phis:
        return False
    s = F.steps(a)
    if not s or s[0] is not M.strsize(v) or set(s[1]) != {C(-1)}:
        return False
    H, b = F.defnode[a], T('ld', v, sub(a, C(1)))
    if ch is None:
        R = F.assume(H, [NOT(eq(b, C(10))), NOT(eq(b, C(13)))], stop={H})
        return not any(k[0] in R.nodes and k in R.edges for k in loops.latches(F, H))
    R = F.assume(H, [eq(b, C(ch)), lt(C(0), a, True)], stop={H})
    return F.exit not in R.nodes or not [x for x in R.returns() if x is not C(0)]


def back_of(v):
    return T('ld', v, sub(M.strsize(v), C(1)))


def born(F, v):
    """where the value v comes to be"""
    if v.op == 'chop':
        for e in removals(F):
            if value_before(F, e) is v.args[0]:
                return e.node
    return defn(F, v)


def removals(F):
    return [e for e in F.events if e.kind == 'call' and e.obj is not None and (e.name or '').startswith(S) and
            last(e.name) in ('pop_back', 'resize', 'erase', 'substr')]


def free(F, v, ch, memo):
    """at the end, v does not end in this character: it was tested for, or removed (a line has one LF only)"""
    if v in memo:
        return memo[v]
    memo[v] = True
    memo[v] = _free(F, v, ch, memo)
    return memo[v]


def _free(F, v, ch, memo):
    if set_trimmed(F, v) or v is T('str', '') or v.op == 'cut' and counted_trim(F, v.args[1], v.args[0], ch):
        return True
    d = born(F, v)
    own = {e.node for e in removals(F) if value_before(F, e) is v} - {d}
    R = F.assume(d, [eq(back_of(v), C(ch)), NOT(eq(M.strsize(v), C(0)))], stop=own | {d})
    if F.exit not in R.nodes or not [x for x in R.returns() if x is not C(0)]:
        return True
    if v.op == 'phi' and v in F.phis:
        return all(free(F, y, ch, memo) for k, y in F.phis[v].items() if F.E.get(k) is not None)
    if v.op == 'chop':
        w = v.args[0]
        b = back_of(w)
        dw = born(F, w)
        if dw is not d and d not in F.assume(dw, [NOT(eq(b, C(ch)))], stop={dw}).nodes:
            return True
        return ch == 10 and free(F, w, ch, memo)
    return False


def value_before(F, e):
    v = F.load(F.instate[e.node], e.obj)
    for x in sorted((x for x in F.events if x.node is e.node and x.seq < e.seq and x.kind == 'call'), key=lambda x: x.seq):
        if x.obj is e.obj and last(x.name) == 'pop_back':
            v = T('chop', v)
    return v


def set_trim(F, a, v):
    """a is one past the last character that is neither CR nor LF"""
    x = sub(a, C(1))
    return x.op == 'trimpos' and x.args[0] is v and x.args[1].op == 'str' and set(x.args[1].args[0]) == {'\r', '\n'}


def set_trimmed(F, v):
    return v.op == 'cut' and set_trim(F, v.args[1], v.args[0])


def eof(ctx, F, f, fg, res, got, nil, line, status, yes, no):
    knodes = {k.node for k in fg}
    ws = [e for e in F.events if e.kind == 'call' and e.obj is status and last(e.name) == 'operator=' and e.args and
          e.args[0].op != 'ok' or e.kind == 'store' and e.where is status and e.val is not None and e.val.op != 'ok']
    wn = {e.node for e in ws}
    ff = {}
    for e in F.events:
        if e.kind == 'call' and last(e.name) in ('feof', 'ferror', 'Eof'):
            ff[e] = e.val
    first = {k for k in fg if k.node in F.assume(F.entry, [], stop=knodes).nodes}

    def after(k, e):
        return e.node in F.assume(k.node, [nil[k]], stop=knodes - {k.node}).nodes or (e.node is k.node and e.seq > k.seq)
    # success is never an error
    for k in fg:
        i = '%d' % fg.index(k)
        if k in first:
            R = F.assume(k.node, [got[k]], stop=wn | (knodes - {k.node}))
            ctx.check('eof', 'read/' + i, not no(R) and (F.exit in R.nodes or bool(R.nodes & wn) or bool(R.nodes & knodes)), k.loc,
                      'a line is reported as missing although it was read')
            R = F.assume(k.node, [nil[k]], stop=())
            ctx.check('eof', 'nothing/' + i, not yes(R), k.loc, 'a line is reported although nothing was read')
        else:
            # the line read so far is delivered at the end of the file
            for e, v in ff.items():
                if after(k, e):
                    atend = NOT(eq(v, C(0))) if last(e.name) != 'ferror' else eq(v, C(0))
                    R = F.assume(e.node, [nil[k], atend])
                    ctx.check('eof', 'final/' + i, not no(R) and not (R.nodes & wn), e.loc,
                              'a final line longer than the buffer is lost at the end of the file')
        tests = [e for e in ff if after(k, e)]
        R = F.assume(k.node, [nil[k]], stop={e.node for e in tests} | wn)
        ctx.check('eof', 'told-apart/' + i, F.exit not in R.nodes, k.loc, 'the end of the file and a read error are not told apart')
        for e in tests:
            bad = eq(ff[e], C(0)) if last(e.name) != 'ferror' else NOT(eq(ff[e], C(0)))
            R = F.assume(e.node, [nil[k], bad], stop=wn - {e.node})
            ctx.check('eof', 'error/' + i, F.exit not in R.nodes, e.loc, 'a read error is taken for the end of the file')
            good = NOT(bad)
            if k in first:
                R = F.assume(e.node, [nil[k], good])
                ctx.check('eof', 'no-error/' + i, not (R.nodes & wn), e.loc, 'the end of the file is reported as an error')
    for w in ws:
        R = F.assume(w.node, [])
        ctx.check('eof', 'failed', not yes(R), w.loc, 'a line is returned together with an error')
    R = F.assume(F.entry, [], stop=knodes)
    ctx.check('eof', 'unread', not yes(R) or not (F.exit in R.nodes), f['loc'], 'a line is reported without reading')
    # a fresh file is readable
    pre = [e for e in ff if not any(after(k, e) for k in fg)]
    R = F.assume(F.entry, [], stop=knodes | {e.node for e in pre})
    ctx.check('eof', 'tries', F.exit not in R.nodes, f['loc'], 'nothing is read although the file has not ended')
    for e in pre:
        v = eq(ff[e], C(0))
        R = F.assume(e.node, [v], stop=knodes - {e.node})
        ctx.check('eof', 'tries/pre', F.exit not in R.nodes and not (R.nodes & wn), e.loc, 'nothing is read although the file has not ended')
    g = ctx.fn(EOF_)
    G = ctx.flow(EOF_)
    rs = [e for e in G.events if e.kind == 'call' and last(e.name) == 'feof']
    ok = bool(rs)
    for e in rs:
        for a, want in ((eq(e.val, C(0)), C(0)), (NOT(eq(e.val, C(0))), C(1))):
            cs = cases(G, (G.ret,), G.exit, extra=(a,), full=True) or [((G.ret,), frozenset())]
            for t, fs in cs:
                d = G.decide(truth(t[0]), frozenset(fs) | {a})
                ok &= d is (want is C(1))
    ctx.check('eof', 'Eof', ok, g['loc'], 'Eof() does not tell whether the end of the file was reached')


def callers(ctx):
    """no line of a file is lost between the reader and the loop that consumes it"""
    rd = ctx.fn(LINE)
    n = 0
    for f in sorted(ctx.callers(rd), key=lambda f: f['n']):
        if 'ReadableFile' in f['n'] or f['loc'].startswith('test/'):
            continue
        for root_, (ok, why, at) in climbing(ctx, f):
            n += 1
            nm = short(root_)
            ctx.check('callers', '%s/%s' % (nm, n), ok, at, '%s: %s' % (nm, why))
    ctx.check('callers', 'any', n >= 1, rd['loc'], 'nothing reads lines')


def climbing(ctx, f, chain=None, depth=3):
    chain = chain or [f['key']]
    keys = frozenset(chain)
    root_ = ctx.prog.functions[chain[-1]]
    F = ctx.flow(root_, inline=lambda t: t['key'] in keys or t['n'].startswith(PK + 'Status::'), key=('e06',) + tuple(sorted(keys)))
    out, opened = [], False
    for k in F.events:
        if k.kind == 'call' and k.name == LINE and k.frame.fn['key'] in keys:
            r = consumed(F, k)
            if r[0] is None and len(chain) <= depth and [u for u in ctx.callers(root_) if u['key'] not in keys]:
                opened = True
            else:
                out.append((root_, r))
    if opened:
        for u in ctx.callers(root_):
            if u['key'] not in keys:
                out += climbing(ctx, f, chain + [u['key']], depth)
    return out


def consumed(F, k):
    line = k.locs[0] if k.locs and k.locs[0] is not None else None
    v = k.args[0]
    if v is not None and v.op == 'addr':
        line = v.args[0]
    elif v is not None and line is None:
        line = F.deref(v)
    outer = line is None or root(line).op == 'deref'
    got = truth(k.val)
    # what is read counts as a use: the line handed to something, or looked at
    uses = set()
    here = set()
    for e in F.events:
        hit = any(x is not None and (x is line or x.op == 'addr' and x.args[0] is line) for x in
                  list(e.args or ()) + list(e.locs or ()) + [e.obj, e.where if e.kind != 'store' else None])
        if hit and e is not k and e.kind not in ('dtor', 'decl') and not (e.kind == 'call' and last(e.name) in ('clear', '~basic_string', 'reserve')):
            if e.node is k.node:
                if e.seq > k.seq:
                    here.add(e)
            else:
                uses.add(e.node)
    eofs = [e for e in F.events if e.kind == 'call' and last(e.name) in ('Eof', 'feof')]
    st = status_loc(F, k)
    if here:
        pass
    else:
        given = [got]
        R = F.assume(k.node, given + fine(F, k), stop=uses - {k.node})
        back = again(F, R, k, {k.node}, ())
        if back:
            return False, 'a line that was read may be skipped unused', k.loc
        if F.exit in R.nodes and not fails(F, R, k):
            return (None if outer else False), 'the last line read may be dropped', k.loc
    # and on to the next one
    if not loops.rounds(F, k.node):
        return (None if outer else False), 'only one line of the file is read', k.loc
    R = F.assume(k.node, [got] + fine(F, k), stop={e.node for e in eofs} - {k.node})
    if F.exit in R.nodes and not fails(F, R, k):
        return False, 'reading stops before the end of the file', k.loc
    for e in eofs:
        R = F.assume(e.node, [NOT(truth(e.val))], stop={k.node})
        if k.node in R.nodes or e.node is k.node:
            if F.exit in R.nodes and not fails(F, R, k) and e.node is not k.node:
                return False, 'reading stops before the end of the file', e.loc
    return True, '', k.loc


def status_loc(F, k):
    v = k.args[1] if len(k.args) > 1 else None
    return v.args[0] if v is not None and v.op == 'addr' else F.deref(v) if v is not None else None


def fine(F, k):
    """the reader leaves the status as it was when it returns a line (rule eof)"""
    st = status_loc(F, k)
    if st is None:
        return []
    out = set()
    for fs in F.E.values():
        for g in fs or ():
            for x in walk(g):
                if x.op == 'out' and F.defnode.get(x) is k.node:
                    out.add(x)
    return [isok(x) for x in out if x.args[-1] in (1, '1')]


def fails(F, R, k):
    """everything the explored paths return is a failure"""
    rs = R.accepts()
    return F.ret is not None and F.ret.op != 'void' and not [v for v in rs if v.op != 'void'] and not any(v.op == 'void' for v in rs)
