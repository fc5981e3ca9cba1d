"""The audio pipeline: buffers, and rows handed from stage to stage (shared by S03, S04, F03, N02)."""
from rules.dec import *
from rules.cases import norm, cases, close
from algebra import SUMMARY

WAVE, FBANK, AM, UTT = PK + 'WaveReader::', PK + 'Fbank::', PK + 'AcousticModel::', 'ce_utt_internal_t'
ADDS = ('push_back', 'emplace_back')
VIEWS = {k: v for k, v in SUMMARY.items()}
STAGES = [WAVE + 'Process', FBANK + 'Process', AM + 'Process', AM + 'EndOfStream', D + 'Process', D + 'EndOfStream',
          D + 'BestPath']


def last(n):
    return (n or '').split('::')[-1]


def _frame_summaries():
    import algebra as A

    def mel(c):
        A.put(c, c.locs[1], T('map', 'mel', A.content(c, c.locs[0])))
        return T('void')

    def fft(c):
        for v in (c.vals[0], c.vals[3] if len(c.vals) > 3 else None):
            if v is not None and v.op == 'addr' and v.args[0].op == 'el':
                l = v.args[0].args[0]
                c.store(l, T('map', 'fft', c.load(l)))
        return T('void')
    return {PK + 'Melbanks::Compute': mel, PK + 'SRFFT::Compute': fft}


FRAME = dict(SUMMARY, **_frame_summaries())


def ret_ok(v):
    return v is not None and v.op == 'ok'


def idx_phis(F, H):
    """what advances by one per round of the loop at H"""
    for p in F.at(H):
        s = F.steps(p)
        if s and len(set(s[1])) == 1 and s[1][0] is C(1):
            yield p


def counted(F, node, n, leave=None):
    """the loop around `node` runs it exactly n times, counted by whatever advances by one"""
    hs = loops.rounds(F, node)
    if not hs:
        return 'is not in a loop'
    why = 'is not counted'
    for p in idx_phis(F, hs[0]):
        s = F.steps(p)
        w = loops.covers(F, node, p, s[0], add(s[0], n), leave)
        if not w:
            return ''
        why = w
    # downwards
    for p in F.at(hs[0]):
        s = F.steps(p)
        if s and len(set(s[1])) == 1 and s[1][0] is C(-1):
            for hi in (s[0], add(s[0], C(1))):
                if not loops.covers(F, node, add(p, C(0)), sub(hi, n), hi, leave):
                    return ''
    return why


def ascending(F, idx):
    r = loops.header_phi(F, idx)
    if r is None:
        return False
    s = F.steps(r[0])
    return all(x.op == 'c' and x.args[0] * r[1] > 0 for x in s[1])


def row_of(F, v):
    """v is a view of a whole row: (matrix location, row)"""
    at, off = sel(v, '#at'), sel(v, '#off')
    if at.op != 'addr' or norm(F, off) is not C(0):
        return None
    l = at.args[0]
    if l.op == 'el' and l.args[0].op == 'fld' and l.args[0].args[1] == '#v':
        return locnorm(F, l.args[0].args[0]), norm(F, l.args[1])
    return None


def must(F, ev, facts, targets):
    """after event `ev`, when `facts` hold, the end is not reached but through the nodes of `targets`"""
    nodes = {t.node if hasattr(t, 'node') else t for t in targets}
    same = [t for t in targets if hasattr(t, 'node') and t.node is ev.node and t.seq > ev.seq]
    if same:
        return True
    return F.exit not in F.assume(ev.node, facts, stop=nodes - {ev.node}).nodes


def must_entry(F, facts, targets):
    nodes = {t.node if hasattr(t, 'node') else t for t in targets}
    if F.entry in nodes:
        return True
    return F.exit not in F.assume(F.entry, facts, stop=nodes).nodes


def each_row(ctx, rule, F, ev, M, name, argi=0, within=None):
    """event ev gets every row of matrix M once, in order"""
    r = row_of(F, ev.args[argi])
    if not ctx.check(rule, name + '/row', r is not None and r[0] is M, ev.loc, 'what is handed on is not a row of the %s' % name):
        return None
    i = r[1]
    h = loops.header_phi(F, i)
    if not ctx.check(rule, name + '/loop', h is not None, ev.loc, 'not every row of the %s is handed on' % name):
        return None
    H = F.defnode[h[0]]
    n = norm(F, F.load(F.instate[H], fld(M, 'num_rows_')))
    why = loops.covers(F, ev.node, i, C(0), n, lambda k: aborts(F, k))
    ctx.check(rule, name + '/all', not why, ev.loc, 'the loop over the rows of the %s %s' % (name, why))
    ctx.check(rule, name + '/order', ascending(F, i), ev.loc, 'the rows of the %s are not handed on in order' % name)
    return H, n
