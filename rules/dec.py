"""The search: what every token insertion is made of (shared by the D rules)."""
from rules.common import *
from rules.cases import *
from rules import loops
from rules.loops import aborts

D = PK + 'Decoder::'
INSERT, GETCUT, GETARC = D + 'InsertTok', D + 'GetCutoff', PK + 'CachedFst::GetArc'
TABLE = [PK + 'HashTable::' + x for x in ('Find', 'Insert', 'Clear')]
STOPS = [INSERT, GETCUT, GETARC, PK + 'Pool::Dealloc', PK + 'GCPool::GC'] + TABLE


def process(ctx):
    return ctx.flow('Decoder::Process', stop=STOPS)


def initialize(ctx):
    return ctx.flow('Decoder::Initialize', stop=STOPS)


def insertion(ctx):
    return ctx.flow('Decoder::InsertTok', stop=TABLE + [PK + 'Pool::Dealloc'])


def calls(F, name):
    return [e for e in F.events if e.kind in ('call', 'ctor') and e.name == name and F.feasible(e.node)]


def place(F, v):
    """the location a value was read from, with single-valued merges replaced; None if it is computed"""
    v = norm(F, v)
    if v.op == 'init':
        return locnorm(F, v.args[0])
    if v.op == 'phi':
        return locnorm(F, v.args[1])
    if v.op == 'out' and hasattr(v.args[1], 'op'):
        return locnorm(F, v.args[1])
    if v.op == 'sel':
        p = place(F, v.args[0])
        return fld(p, v.args[1]) if p is not None else None
    if v.op == 'ld':
        p = None
        if v.args[0].op == 'sel' and v.args[0].args[1] == '#data':
            p = place(F, v.args[0].args[0])
            p = fld(p, '#data') if p is not None else None
        else:
            p = place(F, v.args[0])
        return el(p, norm(F, v.args[1])) if p is not None else None
    return None


def locnorm(F, l):
    if l.op == 'fld':
        return fld(locnorm(F, l.args[0]), l.args[1])
    if l.op == 'el':
        return el(locnorm(F, l.args[0]), norm(F, l.args[1]))
    if l.op == 'deref':
        return deref(norm(F, l.args[0]))
    return l


def of_token(F, v, field):
    """v was read from P->field (field possibly nested): P, else None"""
    l = place(F, v)
    for f in reversed(field):
        if l is None or l.op != 'fld' or l.args[1] != f:
            return None
        l = l.args[0]
    if l.op == 'deref':
        return l.args[0]
    # a copy of the whole token or of its state
    return None


def arc_field(F, v, name):
    """v is field `name` of an arc delivered by an iterator: the delivering value, else None"""
    if name == 'weight':
        v = norm(F, v)
        if v.op == 'init' and v.args[0].op == 'deref':
            v = v.args[0].args[0]
        if v.op == 'm' and v.args[0] == 'Value':
            v = v.args[-1]
    l = place(F, v)
    if l is not None and l.op == 'fld' and l.args[1] == name and l.args[0].op == 'deref':
        p = l.args[0].args[0]
        if p.op == 'm' and p.args[0] == 'Value':
            return p
    return None


def iterator(F, arc):
    """(fst, state) of the iterator that delivers this arc"""
    it = arc.args[-1]
    vals = leaves(F, it) if it.op == 'phi' else {it}
    out = []
    for e in F.events:
        if e.kind == 'ctor' and e.name == 'fst::ArcIterator::ArcIterator' and e.val in vals:
            out.append(e)
    return out[0].args if len(out) == 1 and len(out[0].args) >= 2 else None


def names(l):
    return {x.args[1] for x in walk(l) if x.op == 'fld'}


def known(F, fs, t):
    return F.decide(t, fs)


def delta(F):
    """`a second language model is configured`, as tested here: conditions that are true when it is"""
    out = set()
    for t in F.econd.values():
        for x in walk(t):
            if x.op in ('init', 'phi', 'sel', 'out'):
                l = place(F, x)
                if l is not None and l.op == 'fld' and l.args[1] == 'delta_lm_fst_':
                    out.add(NOT(eq(x, NULL)))
    return out


def has_delta(F, fs):
    for x in delta(F):
        r = F.decide(x, fs)
        if r is not None:
            return r
    return None
