"""Obligation bookkeeping and the pieces several properties share."""
import re
from program import program, AnalysisBroken, strip_targs
from terms import *
import terms as TM
from flow import Flow
from facts import Analysis, Reach
import flow as FL
import models, effects

API = ('ce_stt_init', 'ce_stt_destroy', 'ce_utt_init', 'ce_utt_destroy', 'ce_stt_process',
       'ce_stt_end_of_stream', 'ce_read_pcm_header', 'ce_stt_last_error')
PK = 'pocketkaldi::'


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        import rules.cases
        rules.cases.MORE = 8 if tier == 'thorough' else 1
        self.prog = program()
        self.rules = {}
        self.obls = []
        self.minimum = {}
        self.assumptions = []
        self.flows = {}
        self.notes = {}

    # -- obligations
    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.minimum[rid] = minimum

    def check(self, rid, inst, good, at='', msg=''):
        """one obligation: `inst` names it without line numbers"""
        self.obls.append({'rule': rid, 'key': '%s:%s' % (rid, inst), 'ok': bool(good),
                          'at': at, 'msg': msg})
        return bool(good)

    def bad(self, rid, inst, at, msg):
        return self.check(rid, inst, False, at, msg)

    def violations(self):
        seen, out = set(), []
        for o in self.obls:
            if not o['ok'] and o['key'] not in seen:
                seen.add(o['key'])
                out.append(o)
        return out

    def total(self):
        return len({o['key'] for o in self.obls})

    def finish_rules(self):
        for r, m in self.minimum.items():
            n = len({o['key'] for o in self.obls if o['rule'] == r})
            if n < m:
                self.notes.setdefault('fewer', []).append('%s: %d of %d' % (r, n, m))
            if n < (m + 1) // 2:
                raise AnalysisBroken('rule %s matched %d instances, at least %d expected' % (r, n, m))

    def coverage(self):
        per = {}
        for r in self.rules:
            ks = {}
            for o in self.obls:
                if o['rule'] == r:
                    ks[o['key']] = ks.get(o['key'], True) and o['ok']
            per[r] = {'rule': self.rules[r], 'obligations': len(ks),
                      'discharged': sum(ks.values()), 'samples': sorted(ks)[:8]}
        return {'explanation': 'Static analysis of /repo/src: facts extracted by a clang tool from the '
                'resolved program (%d translation units, %d function bodies), then the rules below '
                'over inlined control-flow graphs, value terms and branch facts. No code of the '
                'repository is executed.' % (len(self.prog.units), len(self.prog.functions)),
                'rules': per,
                'flows': [{'root': f.root['q'], 'nodes': len(f.rpo), 'events': len(f.events)}
                          for f in self.flows.values()][:60],
                'obligations': self.total(),
                'discharged': self.total() - len(self.violations()),
                **self.notes}

    # -- flows
    def flow(self, fn, stop=(), inline=None, key=None, facts=True, **kw):
        f = fn if isinstance(fn, dict) else self.fn(fn)
        k = (f['key'], tuple(sorted(stop)), key, facts)
        if k not in self.flows:
            self.flows[k] = (Analysis if facts else Flow)(f, stop=stop, inline=inline, **kw)
        return self.flows[k]

    def local(self, f, facts=True):
        """flow of one body, nothing inlined"""
        return self.flow(f, inline=lambda t: False, key='local', facts=facts)

    def callers(self, f):
        r = getattr(self.prog, '_callers', None)
        if r is None:
            r = self.prog._callers = {}
            for g in self.prog.functions.values():
                if not g.get('ours'):
                    continue
                for e in g['calls']:
                    for t in self.prog.targets(e):
                        r.setdefault(t['key'], {})[g['key']] = g
        return list(r.get(f['key'], {}).values())

    def reach(self, names=API):
        k = tuple(names)
        if not hasattr(self, '_reach'):
            self._reach = {}
        if k not in self._reach:
            self._reach[k] = self.prog.reachable([self.fn(a) for a in names])
        return self._reach[k]

    def climb(self, f, goal, depth=3, inl=None):
        """decide goal(F, frame) -> True/False/None for every occurrence of body f: first alone,
        then inlined into its callers while the answer is open. Yields (root, answer)."""
        inl = (inl or ()) + (f['key'],)
        def one(root, chain):
            keys = frozenset(chain)
            try:
                F = self.flow(root, inline=lambda t: t['key'] in keys,
                              key=('climb',) + tuple(sorted(keys)))
            except AnalysisBroken:
                return [(root, False)]
            out = []
            frames = [fr for fr in F.frames if fr.fn is f]
            opened = False
            for fr in frames:
                r = goal(F, fr)
                if r is None and len(chain) <= depth:
                    opened = True
                else:
                    out.append((root, bool(r)))
            if opened:
                ups = [u for u in self.callers(root) if u['key'] not in keys]
                if not ups:
                    out.append((root, False))
                for u in ups:
                    out += one(u, chain + [root['key']])
            return out
        return one(f, [f['key']])

    def fn(self, name):
        """One body of the named function; the pocketkaldi namespace may be left out."""
        for n in (name, PK + name):
            r = self.prog.byname.get(n)
            if r:
                return r[0]
        r = [f for n, fs in self.prog.byname.items() for f in fs
             if f.get('ours') and (n.endswith('::' + name))]
        if r:
            return r[0]
        raise AnalysisBroken('anchor vanished: no function ' + name)

    def fns(self, name):
        for n in (name, PK + name):
            if n in self.prog.byname:
                return self.prog.byname[n]
        raise AnalysisBroken('anchor vanished: no function ' + name)

    def ours(self):
        return [f for f in self.prog.functions.values() if f.get('ours') and f['blocks']]


def short(f):
    return f['n'].replace(PK, '').replace('(anonymous namespace)::', '')


def where(f):
    return f.get('loc', '?')


class Only:
    """lets what some rules check count as another rule, and leaves the others out"""
    def __init__(self, ctx, names):
        self.ctx, self.names = ctx, names

    def check(self, rule, *a):
        return self.ctx.check(self.names[rule], *a) if rule in self.names else bool(a[1])

    def __getattr__(self, n):
        return getattr(self.ctx, n)


class As:
    """lets what one rule checks count as another rule"""
    def __init__(self, ctx, rule, name):
        self.ctx, self.names = ctx, {rule: name}

    def check(self, rule, *a):
        return self.ctx.check(self.names.get(rule, rule), *a)

    def __getattr__(self, n):
        return getattr(self.ctx, n)
