"""Transitive side-effect summaries over the whole program."""
import models
from program import strip_targs

_cache = {}


def _direct(prog, f):
    """(fields written, writes non-local memory?, impure externals called, callee bodies)"""
    key = f['key']
    if ('d', key) in _cache:
        return _cache[('d', key)]
    fields, ext = set(), set()
    em = f['emap']

    def base_fields(eid, out):
        """names of the members on the access path of an lvalue"""
        seen = 0
        while eid is not None and seen < 50:
            seen += 1
            e = em.get(eid)
            if e is None:
                return None
            k = e['k']
            if k == 'member':
                out.append(e['field'])
                eid = e['base']
            elif k == 'index':
                eid = e['a']
            elif k in ('un', 'cast'):
                eid = e['a']
            elif k == 'call':
                o = e.get('obj')
                if o is None and e.get('args'):
                    o = e['args'][0]
                eid = o
            elif k == 'var':
                return f['vars'].get(str(e['var']))
            elif k == 'this':
                return {'k': 'this'}
            else:
                return None
        return None

    nonlocal_write = False
    for b in f['blocks']:
        for e in b['elems']:
            tgt = None
            if e['k'] == 'assign':
                tgt = e['a']
            elif e['k'] == 'un' and e['op'] in ('++', '--'):
                tgt = e['a']
            elif e['k'] in ('call', 'ctor') and 'f' in e:
                fn = e['f']
                if e['k'] == 'call' and e.get('obj') is not None and not fn.get('const') and \
                        not fn.get('static') and not prog.targets(e):
                    simple = e['n'].split('::')[-1]
                    if simple not in ('begin', 'end', 'find', 'get', 'operator->', 'operator*', 'data'):
                        p = []
                        base_fields(e['obj'], p)
                        fields.update(p[:1])
                if not prog.targets(e):
                    ext.add(e['n'])
                    for i, a in enumerate(e.get('args', ())):
                        pts = fn.get('pt', [])
                        if i < len(pts) and ('&' in pts[i] or '*' in pts[i]) and \
                                not pts[i].strip().startswith('const'):
                            p = []
                            v = base_fields(a, p)
                            fields.update(p[:1])
                            if not p and (v is None or v.get('k') != 'local'):
                                nonlocal_write = True
                else:
                    # passing the address of a member to an own callee that writes through it
                    for i, a in enumerate(e.get('args', ())):
                        pts = fn.get('pt', [])
                        if i < len(pts) and ('&' in pts[i] or '*' in pts[i]) and \
                                not pts[i].strip().startswith('const'):
                            p = []
                            base_fields(a, p)
                            fields.update(p[:1])
            if tgt is not None:
                p = []
                v = base_fields(tgt, p)
                fields.update(p[:2])
                if v is None or v.get('k') not in ('local', 'this', 'param') or \
                        (v.get('k') == 'local' and ('*' in v.get('type', '') or '&' in v.get('type', ''))
                         and em[tgt]['k'] != 'var') or \
                        (v.get('k') == 'param' and em[tgt]['k'] != 'var'):
                    nonlocal_write = True
                if v is not None and v.get('k') == 'this':
                    nonlocal_write = True
            if e['k'] in ('delete', 'throw'):
                nonlocal_write = True
    r = (fields, nonlocal_write, ext)
    _cache[('d', key)] = r
    return r


def modfields(prog, f):
    k = ('m', f['key'])
    if k not in _cache:
        out = set()
        for g in prog.reachable([f]).values():
            out |= _direct(prog, g)[0]
        _cache[k] = frozenset(out)
    return _cache[k]


def pure(prog, f):
    k = ('p', f['key'])
    if k not in _cache:
        ok = True
        for g in prog.reachable([f]).values():
            d = _direct(prog, g)
            # methods building their own temporaries are fine; anything else is not
            if d[2] & models.IMPURE:
                ok = False
            if g['key'] == f['key'] and d[1]:
                ok = False
        _cache[k] = ok
    return _cache[k]
