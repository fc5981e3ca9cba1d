"""Failures surface: assume each fallible step failed, explore the rest, look at the outcome."""
from rules.common import *

# third-party / libc steps whose failure is visible in the returned value
NULLING = ('fopen', 'fst::ConstFst::Read', 'fgets')
API_FAIL = {'ce_stt_init': lambda v: eq(v, NULL), 'ce_utt_init': lambda v: eq(v, NULL),
            'ce_read_pcm_header': lambda v: eq(v, NULL),
            'ce_stt_process': lambda v: eq(v, C(-1))}
# by contract these replace a failure by a caller-supplied default
DEFAULTING = {'pocketkaldi::Configuration::GetIntegerOrElse':
              'documented: returns default_val when there is no usable value'}


def status_fn(f):
    return f['ret'].split('::')[-1] == 'Status' and not f['n'].startswith(PK + 'Status::') and \
        not f.get('ctor')


def always_fails(prog, f):
    """only ever builds an error (KeyNotFound): not a step that can fail"""
    r = getattr(prog, '_af', None)
    if r is None:
        r = prog._af = {}
    if f['key'] not in r:
        r[f['key']] = False
        try:
            F = Flow(f, stop=())
            vs = {v for v in ([F.ret] if F.ret is not None else [])}
            r[f['key']] = bool(vs) and all(v.op == 'fail' for v in vs)
        except AnalysisBroken:
            pass
    return r[f['key']]


def fallible(ctx):
    out = {}
    for f in ctx.ours():
        if status_fn(f) and not always_fails(ctx.prog, f):
            out[f['key']] = f
    return out


def statusout(f):
    """bool/void function reporting through a Status* out parameter -> parameter index"""
    for i, p in enumerate(f.get('pt', [])):
        if p.replace(PK, '').replace(' ', '') in ('Status*', 'Status&'):
            return i
    return None


class Assumed:
    """what 'this step failed' means for one call event"""

    def __init__(self, ctx, F, ev):
        self.cond = None
        e = ev.e
        f = e.get('f') or {}
        n = ev.name or ''
        base = n.split('::')[-1]
        ts = ctx.prog.targets(e)
        v = ev.val
        if v is not None and v.op == 'deref':
            v = v.args[0]
        self.v = v
        if any(status_fn(t) for t in ts) or (f.get('ret', '').split('::')[-1] == 'Status' and
                                             not n.startswith(PK + 'Status::') and not ts and
                                             PK in n):
            self.cond = [NOT(isok(v))]
        elif n in NULLING or base in NULLING:
            self.cond = [eq(v, NULL)]
        elif n in API_FAIL:
            self.cond = [API_FAIL[n](v)]
        else:
            for t in ts:
                i = statusout(t)
                if i is not None and t.get('ours') and not t['n'].startswith('CheckStatus'):
                    o = None
                    for x, nd in F.defnode.items():
                        if x.op == 'out' and x.args[1] == i and nd is ev.node and \
                                v is not None and v.op == 'res' and x.args[0] is v.args[0]:
                            o = x
                    if o is not None:
                        self.cond = [NOT(isok(o)), NOT(truth(v))]
                        self.v = o


def failing(F, R, v, facts, assumed, kind):
    if kind == 'status':
        if v.op == 'fail' or v is assumed:
            return True
        return F.decide(isok(v), facts) is False
    if kind == 'ptr':
        return v is NULL or F.decide(eq(v, NULL), facts) is True
    if kind == 'int':
        return v is C(-1)
    return False


def kind_of(f):
    if status_fn(f):
        return 'status'
    if f['n'] in API or f['n'].split('::')[-1] in API_FAIL:
        if f['ret'].endswith('*'):
            return 'ptr'
        if f['ret'] in ('int', 'int32_t'):
            return 'int'
    return 'noreturn'


def step_name(ctx, ev):
    return (ev.name or '?').replace(PK, '').replace('(anonymous namespace)::', '')


def run(ctx):
    ctx.rule('surface', 'assuming a fallible step (Status-returning call, null/short result of a library '
             'call, failed API call) failed, every continuation of the enclosing operation reports '
             'failure and never repeats the step as if it had succeeded', 60)
    ctx.rule('covered', 'every call of a fallible step occurs inside an operation that can report '
             'failure (or is a documented fallback to a default)', 60)
    ctx.rule('primitive', 'a file primitive reports success only when the library call delivered '
             'everything asked for', 5)
    prog = ctx.prog
    fall = fallible(ctx)
    mains = [f for f in ctx.ours() if f['loc'].startswith('main.cc')]
    so = [f for f in ctx.ours() if statusout(f) is not None and not f['n'].startswith(PK + 'Status::')
          and not f['loc'].startswith('main.cc')]
    stop = {f['n'] for f in fall.values()} | {f['n'] for f in so}
    roots = list(fall.values()) + [ctx.fn(a) for a in API_FAIL] + so
    # one instantiation per template is enough for the shared code but all are cheap
    visited, seen_root = set(), set()
    apistop = set(API)
    mainroots = [f for f in mains if f['n'] not in ('print_usage',)]
    for root in roots + mainroots:
        ismain = root in mainroots
        st = (stop | apistop | {m['n'] for m in mains if m['n'] in ('main',)}) - {root['n']}
        F = ctx.flow(root, stop=sorted(st))
        kind = 'noreturn' if ismain else kind_of(root)
        if root in so and not ismain:
            kind = 'statusout'
        for ev in F.events:
            if ev.kind != 'call' or not ev.e.get('f'):
                continue
            A = Assumed(ctx, F, ev)
            if A.cond is None:
                continue
            owner = ev.frame.fn
            visited.add((owner['key'], ev.e['i']))
            if not F.feasible(ev.node):
                continue
            if (ev.name or '').endswith('fgets'):
                continue
            inst = '%s/%s#%d' % (short(root), step_name(ctx, ev),
                                 nth(F, ev))
            R = F.assume(ev.node, A.cond)
            good, why = outcome(ctx, F, R, ev, A, kind, root)
            ctx.check('surface', inst, good, ev.loc, '' if good else
                      'if %s (called at %s) fails, %s: %s' % (step_name(ctx, ev), ev.loc, short(root), why))
    # coverage of call sites
    for f in ctx.ours():
        if f['n'].startswith(PK + 'Status::'):
            continue
        for e in f['calls']:
            if e['k'] != 'call':
                continue
            ts = prog.targets(e)
            if not any(t['key'] in fall for t in ts):
                continue
            ok = (f['key'], e['i']) in visited or f['n'] in DEFAULTING or f['key'] in fall
            ctx.check('covered', '%s/%s@%d' % (short(f), e['n'].split('::')[-1], e['i']), ok,
                      e.get('loc', '?'),
                      '' if ok else 'the result of %s is used in %s, which cannot report failure' % (
                          e['n'], f['q']))
    primitives(ctx)


def nth(F, ev):
    k = 0
    for x in F.events:
        if x is ev:
            return k
        if x.kind == 'call' and x.name == ev.name:
            k += 1
    return k


def outcome(ctx, F, R, ev, A, kind, root):
    again = any(F_tgt(F, k) is ev.node for k in R.edges)
    if again:
        return False, 'the step is repeated as if it had succeeded'
    if F.exit not in R.nodes:
        return True, ''
    if kind == 'noreturn':
        return False, 'execution continues to a normal return'
    if kind == 'statusout':
        return statusout_ok(F, R, root)
    for v in R.returns():
        if not failing(F, R, v, R.N.get(F.exit, frozenset()), A.v, kind):
            return False, 'can still return %s' % show(v)
    return True, ''


def F_tgt(F, k):
    return k[0].succs[k[1]][0]


def statusout_ok(F, R, root):
    i = statusout(root)
    loc = F.paramobj(i)
    v = F.final(loc)
    for x in R.values(v):
        if not (x.op == 'fail' or F.decide(isok(x), R.N.get(F.exit, frozenset())) is False):
            return False, 'leaves the status %s' % show(x)
    for x in R.returns():
        if F.decide(truth(x), R.N.get(F.exit, frozenset())) is not False:
            return False, 'can return %s' % show(x)
    return True, ''


def primitives(ctx):
    # Read: fread delivered everything
    F = ctx.flow('util::ReadableFile::Read')
    size = F.paramval(1)
    evs = F.find('fread')
    ctx.check('primitive', 'Read/calls-fread', len(evs) >= 1, F.root['loc'], 'no fread in Read')
    for ev in evs:
        b, c = ev.args[1], ev.args[2]
        whole = mul(b, c) is size
        ctx.check('primitive', 'Read/asks-for-size', whole, ev.loc, 'fread is asked for %s*%s bytes, not the '
                  'requested size' % (show(b), show(c)))
        R = F.assume(ev.node, [lt(ev.val, c, True)])
        good = all(v.op == 'fail' for v in R.returns())
        ctx.check('primitive', 'Read/short', good, ev.loc, 'a short fread is not reported')
        R = F.assume(ev.node, [eq(ev.val, c)])
        good = any(v is OK for v in R.returns())
        ctx.check('primitive', 'Read/full', good, ev.loc, 'a complete fread is reported as a failure')
        ctx.check('primitive', 'Read/target', ev.args[0] is F.paramval(0) and
                  ev.args[3] is T('init', F.field('fd_')), ev.loc,
                  'fread does not read into the caller\'s buffer from this file')
    # Open
    F = ctx.flow('util::ReadableFile::Open')
    for ev in F.find('fopen'):
        R = F.assume(ev.node, [eq(ev.val, NULL)])
        ctx.check('primitive', 'Open/null', all(v.op == 'fail' for v in R.returns()) and
                  F.exit in R.nodes, ev.loc, 'a failed fopen is not reported')
        R = F.assume(ev.node, [NOT(eq(ev.val, NULL))])
        ctx.check('primitive', 'Open/ok', OK in R.returns(), ev.loc, 'a successful fopen is reported as failure')
        ctx.check('primitive', 'Open/stored', F.final(F.field('fd_')) is ev.val, ev.loc,
                  'the opened stream is not kept')
    # ReadAndVerifyString: success only when what was read equals what was expected
    F = ctx.flow('util::ReadableFile::ReadAndVerifyString', stop=[PK + 'util::ReadableFile::Read'])
    evs = F.find('util::ReadableFile::Read')
    if not evs:
        raise AnalysisBroken('ReadAndVerifyString does not call Read')
    facts = F.facts(F.exit)
    for ev in evs:
        ctx.check('primitive', 'Verify/reads-all', ev.args[1] is
                  T('m', 'size', T('init', F.paramobj(0))), ev.loc,
                  'ReadAndVerifyString does not read as many bytes as the expected string has')
    verify_eq(ctx, F, evs[0])
    # StringToLong
    F = ctx.flow('util::StringToLong')
    for ev in F.find('strtol'):
        end = None
        for x, nd in F.defnode.items():
            if x.op == 'out' and nd is ev.node and x.args[1] == 1:
                end = x
        if end is None:
            raise AnalysisBroken('strtol end pointer not found')
        ch = F.load(F.endst[ev.node], F.deref(end))
        R = F.assume(ev.node, [NOT(eq(ch, C(0)))])
        ctx.check('primitive', 'StringToLong/trailing', all(v.op == 'fail' for v in R.returns()), ev.loc,
                  'trailing characters after a number are accepted')
        R = F.assume(ev.node, [eq(ch, C(0))])
        ctx.check('primitive', 'StringToLong/ok', OK in R.returns(), ev.loc, 'a well-formed number is refused')
    # ReadLine: null result of fgets without end of file is an error
    F = ctx.flow('util::ReadableFile::ReadLine')
    first = True
    for ev in F.find('fgets'):
        for f in F.find('feof'):
            pass
        R = F.assume(ev.node, [eq(ev.val, NULL)])
        eofs = [f for f in F.find('feof') if R.reached(f) and f.node is not ev.node]
        good = True
        why = ''
        if not eofs:
            good, why = statusout_ok(F, R, F.root)
        for f in eofs:
            R2 = F.assume(f.node, list(R.N.get(f.node, ())) + [eq(f.val, C(0))])
            good, why = statusout_ok(F, R2, F.root)
            if not good:
                break
        ctx.check('primitive', 'ReadLine/error#%d' % nth(F, ev), good, ev.loc, 'a read error is not reported: ' + why)


def verify_eq(ctx, F, rd):
    """the operation fails on one side of a comparison of the whole expected string with the
    bytes that were read"""
    exp = T('init', F.paramobj(0))
    base = root(F.deref(rd.args[0]))
    size = T('m', 'size', exp)

    def about(t):
        e = b = False
        for x in walk(t):
            e |= x is exp or (x.op == 'm' and x.args[0] == 'c_str' and exp in walk(x))
            b |= (x.op == 'out' and x.args[0] is rd.val.args[0]) or x is base
        return e and b
    good = False
    for (n, i), c in list(F.econd.items()):
        if not about(c) or not F.feasible(n):
            continue
        for lit in (c, NOT(c)):
            x, pol = lit, True
            while x.op == 'not':
                pol = not pol
                x = x.args[0]
            if x.op in ('eq', 'eq0') and pol:
                continue                      # the matching side
            part = [y for y in walk(x) if y.op in ('fn', 'm') and y.args[0] in ('strncmp', 'memcmp')
                    and y.args[-1] is not size]
            Rn = F.assume(n, [lit])
            rs = Rn.returns()
            if rs and all(v.op == 'fail' for v in rs) and not part:
                good = True
    ctx.check('primitive', 'Verify/compares', good, rd.loc,
              'a tag that differs from the expected one is not refused')
