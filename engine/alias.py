"""Which memory may each function write?  Bottom-up, context-sensitive side-effect summaries.

Regions (relative to one function):
  ('T',0) ('T',1)      the object's own storage / what its pointers lead to
  ('P',i,0) ('P',i,1)  the same for parameter i
  ('G',name)           a global or static variable
  ('C',)               memory reached through a pointer- or reference-to-const member: somebody else's
  ('L',var) ('F',el)   local variables and fresh objects (not visible outside)
"""
import re
from program import program, strip_targs

SCALAR = re.compile(r'^(const |volatile )*(unsigned |signed )?(int|long|short|char|bool|float|double|void|'
                    r'u?int\d+_t|size_t|ssize_t|ptrdiff_t|long long|unsigned|long double|uint|'
                    r'long int|unsigned long|unsigned int)( const)?$')
SAFE_GLOBALS = ('stderr', 'stdout', 'std::cerr', 'std::cout', 'std::clog', 'errno')
ACCESS = ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'operator[]', 'at', 'back', 'front',
          'data', 'get', 'operator->', 'operator*', 'c_str', 'size', 'empty', 'length', 'count', 'base',
          'lower_bound', 'upper_bound', 'equal_range', 'capacity')
PURE_ALG = ('find', 'find_if', 'lower_bound', 'upper_bound', 'min_element', 'max_element', 'accumulate',
            'distance', 'count', 'count_if', 'equal', 'binary_search', 'all_of', 'any_of', 'none_of',
            'operator==', 'operator!=', 'operator-', 'operator+', 'operator<', 'isfinite', 'isnan', 'isinf',
            'addressof', 'begin', 'end', 'make_pair', 'min', 'max', 'ref', 'cref', 'make_reverse_iterator',
            'next', 'prev', 'isspace', 'tolower')
DEREF_CLASSES = ('unique_ptr', 'shared_ptr', 'iterator', 'reference_wrapper', '_Node_const_iterator',
                 '_Node_iterator', '__normal_iterator', 'weak_ptr')
FREE_ALLOC = ('malloc', 'calloc', 'realloc', 'operator new', 'operator new[]', 'aligned_alloc', 'strdup', 'fopen')


def scalar(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return bool(SCALAR.match(t)) or t.startswith('enum ') or t == ''


def carries(t):
    """a value of this type can hold addresses"""
    t = (t or '').strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    if '*' in t:
        return True
    if scalar(t):
        return False
    b = t.replace('const ', '')
    if b in PLAIN:
        return False
    m = re.match(r'^(std::)?(vector|deque|array|list|set|unordered_set)<([^<>,]*)', b)
    if m and (scalar(m.group(3)) or m.group(3).strip() in PLAIN):
        return False
    if re.match(r'^(std::)?(__cxx11::)?(basic_string<|string$)', b) or b.startswith('std::__cxx11::basic_string'):
        return False
    return True


PLAIN = set()


def plain_records(prog):
    """record types without any address inside"""
    PLAIN.clear()
    ch = True
    while ch:
        ch = False
        for n, r in prog.records.items():
            for nm in {n, r.get('q') or n}:
                if nm in PLAIN or not r.get('fields') or r.get('bases') or '<' in nm:
                    continue
                if all(not carries(re.sub(r'\[\d+\]', '', fl.get('type', '*'))) for fl in r['fields']):
                    PLAIN.add(nm)
                    ch = True


def const_ptr_field(t):
    t = t.strip()
    if re.match(r'^const [^*&]*[*&]( *const)?$', t):
        return True
    return bool(re.match(r'^std::(shared|unique|weak)_ptr<const ', t))


class Sum:
    def __init__(self):
        self.writes, self.ret, self.into = set(), set(), set()

    def snap(self):
        return (len(self.writes), len(self.ret), len(self.into))


class Alias:
    def __init__(self, prog, reach, cfields=()):
        self.prog = prog
        plain_records(prog)
        self.fs = [f for f in reach.values() if f.get('blocks')]
        self.sum = {f['key']: Sum() for f in self.fs}
        self.cfields = set(cfields)      # (class-less) field names known to hold shared pointers
        self.sites = {}
        self.newc = set()
        for it in range(25):
            before = {k: s.snap() for k, s in self.sum.items()}
            nb = len(self.cfields)
            self.sites = {}
            for f in self.fs:
                Fn(self, f).run()
            self.cfields |= self.newc
            if before == {k: s.snap() for k, s in self.sum.items()} and nb == len(self.cfields):
                break


class Fn:
    def __init__(self, A, f):
        self.A, self.f, self.em = A, f, f['emap']
        self.S = A.sum[f['key']]
        self.pts = {}
        self.V = {}
        self.tsink = []
        self.params = {v: i for i, v in enumerate(f['params'])}

    def vtype(self, vid):
        return self.f['vars'].get(str(vid), {}).get('type', '')

    # -- regions
    def content(self, rs):
        out = set()
        for r in rs:
            if r[0] == 'T':
                out.add(('T', 1))
            elif r[0] == 'P':
                out.add(('P', r[1], 1))
            elif r[0] in ('G', 'C'):
                out.add(r)
            else:
                out |= self.pts.get(r, set())
        return out

    def addpts(self, dst, src, fieldname=None, ftype=''):
        if fieldname and const_ptr_field(ftype):
            return                    # read back as C, whatever was stored
        for d in dst:
            if d[0] in ('L', 'F'):
                p = self.pts.setdefault(d, set())
                n = src - p
                if n:
                    p |= n
                    self.ch = True
            elif d[0] in ('T', 'P'):
                for s in src:
                    if s[0] in ('L',):
                        s2 = self.pts.get(s, ())
                        continue
                    if s[0] == 'F':
                        for x in self.pts.get(s, ()):
                            if x[0] not in ('L', 'F') and x[:2] != d[:2]:
                                self.S.into.add((d, x))
                        continue
                    if s[:len(s) - 1] != d[:len(d) - 1]:
                        self.S.into.add((d, s))
                    if s[0] == 'C' and fieldname and not const_ptr_field(ftype):
                        self.A.newc.add(fieldname)

    def write(self, rs, e, what):
        for r in rs:
            if r[0] in ('L', 'F'):
                continue
            if r[0] == 'G' and r[1] in SAFE_GLOBALS:
                continue
            self.S.writes.add(r)
            self.A.sites.setdefault(self.f['key'], set()).add((r, e.get('loc', '?'), what))

    # -- values of elements
    def loc(self, eid):
        e = self.em[eid]
        v = self.V.get(eid)
        if v is None:
            return set()
        if e.get('lv'):
            return v
        t = ('L', -eid)
        p = self.pts.setdefault(t, set())
        if v - p:
            p |= v
            self.ch = True
        return {t}

    def val(self, eid):
        e = self.em[eid]
        v = self.V.get(eid)
        if v is None:
            return set()
        if not e.get('lv'):
            return v
        if not carries(e.get('t', '')) and '[' not in e.get('t', ''):
            return set()
        out = self.content(v)
        x = e
        n = 0
        while x is not None and x['k'] == 'cast' and n < 5:
            x = self.em.get(x['a'])
            n += 1
        if x is not None and x['k'] == 'member' and (const_ptr_field(x.get('ft', x.get('t', ''))) or
                                                     x['field'] in self.A.cfields):
            out = {('C',)}
        return out

    def run(self):
        f = self.f
        for vid, i in self.params.items():
            t = self.vtype(vid)
            if t.rstrip().endswith('&') or t.rstrip().rstrip('const').rstrip().endswith('*'):
                self.pts[('L', vid)] = {('P', i, 0)}
            elif carries(t):
                self.pts[('L', vid)] = {('P', i, 1)}
        for it in range(20):
            self.ch = False
            for b in f['blocks']:
                for e in b['elems']:
                    v = self.ev(e)
                    if v is None:
                        v = set()
                    if self.V.get(e['i']) != v:
                        old = self.V.get(e['i'], set())
                        self.V[e['i']] = old | v
                        if old | v != old or e['i'] not in self.V:
                            self.ch = True
            if not self.ch:
                break

    def ev(self, e):
        k = e['k']
        h = getattr(self, 'x_' + k, None)
        return h(e) if h else self.x_default(e)

    def x_default(self, e):
        out = set()
        for a in e.get('args') or ():
            if a is not None and a in self.em:
                out |= self.loc(a) if e.get('lv') else self.val(a)
        return out

    def x_var(self, e):
        v = self.f['vars'].get(str(e['var']), {})
        if v.get('k') in ('global', 'static'):
            return {('G', v.get('q') or v.get('name'))}
        if v.get('type', '').rstrip().endswith('&'):
            return set(self.pts.get(('L', e['var']), ()))
        return {('L', e['var'])}

    def x_this(self, e):
        return {('T', 0)}

    def x_const(self, e):
        return set()

    x_null = x_str = x_func = x_methodref = x_stmt = x_const

    def x_member(self, e):
        if e.get('arrow'):
            b = self.val(e['base'])
        else:
            b = self.loc(e['base'])
        ft = e.get('ft', '')
        if ft.rstrip().endswith('&'):
            out = self.content(b)
            return {('C',)} if const_ptr_field(ft) else out
        if not e.get('lv'):
            return self.content(b)
        return b

    def x_bin(self, e):
        if not carries(e.get('t', '')):
            return set()
        return self.val(e['a']) | self.val(e['b'])

    def x_logic(self, e):
        return set()

    def x_un(self, e):
        op = e['op']
        if op == '&':
            return self.loc(e['a'])
        if op == '*':
            return self.val(e['a'])
        if op in ('++', '--', 'x++', 'x--'):
            l = self.loc(e['a'])
            self.write(l, e, op)
            return l if e.get('lv') else self.val(e['a'])
        return self.val(e['a'])

    def x_cond(self, e):
        if e.get('lv'):
            return self.loc(e['a']) | self.loc(e['b'])
        return self.val(e['a']) | self.val(e['b'])

    def fieldof(self, eid):
        x = self.em.get(eid)
        n = 0
        while x is not None and x['k'] == 'cast' and n < 5:
            x = self.em.get(x['a'])
            n += 1
        return (x['field'], x.get('ft', x.get('t', ''))) if x is not None and x['k'] == 'member' else (None, '')

    def x_assign(self, e):
        l = self.loc(e['a'])
        self.write(l, e, 'assignment')
        if carries(self.em[e['a']].get('t', '')):
            fn, ft = self.fieldof(e['a'])
            self.addpts(l, self.val(e['b']), fn, ft)
        return l if e.get('lv') else self.val(e['b'])

    def x_index(self, e):
        ae = self.em[e['a']]
        if ae.get('lv') and not ae.get('t', '').rstrip().endswith('*'):
            return self.loc(e['a'])
        return self.val(e['a'])

    def x_cast(self, e):
        if e.get('lv'):
            return self.loc(e['a'])
        if e.get('ck') == 'ArrayToPointerDecay':
            return self.loc(e['a']) if self.em[e['a']].get('lv') else set()
        if not carries(e.get('t', '')):
            return set()
        return self.val(e['a'])

    def x_new(self, e):
        if e.get('placement'):
            pl = e['placement']
            r = self.val(pl[0] if isinstance(pl, list) else pl)
            self.write(r, e, 'placement new')
            if e.get('init') is not None:
                self.addpts(r, self.val(e['init']))
            return r
        r = {('F', e['i'])}
        if e.get('init') is not None:
            self.addpts(r, self.val(e['init']))
        return r

    def x_delete(self, e):
        v = self.val(e['a'])
        self.write(v, e, 'delete')
        for t in self.A.prog.dtors_of(e.get('dt') or e.get('t') or ''):
            self.apply(t, e, v, [], set())
        return set()

    def x_initlist(self, e):
        out = set()
        for a in e.get('args') or ():
            out |= self.val(a)
        return out

    def x_lambda(self, e):
        out = set()
        for a in e.get('args') or ():
            if a in self.em:
                out |= self.val(a) | self.loc(a)
        return out

    def x_decl(self, e):
        v = self.f['vars'].get(str(e['var']), {})
        if e.get('init') is None:
            return set()
        if v.get('k') in ('static', 'global'):
            return set()
        t = v.get('type', '')
        if t.rstrip().endswith('&'):
            self.addpts({('L', e['var'])}, self.loc(e['init']))
        elif carries(t):
            self.addpts({('L', e['var'])}, self.val(e['init']))
        return set()

    def x_return(self, e):
        a = e.get('a')
        if a is None:
            return set()
        rt = self.f['ret']
        if rt.rstrip().endswith('&'):
            r = self.loc(a)
        elif carries(rt):
            r = self.val(a)
        else:
            return set()
        out = set()
        for x in r:
            if x[0] == 'F':
                out.add(('F',))
                out |= {y for y in self.pts.get(x, ()) if y[0] not in ('L', 'F')}
            elif x[0] != 'L':
                out.add(x)
            else:
                out |= {y for y in self.pts.get(x, ()) if y[0] not in ('L', 'F')}
        self.S.ret |= out
        return set()

    def x_init(self, e):
        a = e.get('a')
        if a is None:
            return set()
        ft = e.get('ft', '')
        if not ft and e.get('field'):
            rec = self.A.prog.records.get(self.f.get('clst') or self.f.get('cls') or '', {})
            for fl in rec.get('fields', ()):
                if fl.get('name') == e['field']:
                    ft = fl.get('type', '')
        if ft.rstrip().endswith('&'):
            self.addpts({('T', 0)}, self.loc(a), e.get('field'), ft)
        elif not e.get('field') or carries(ft):
            self.addpts({('T', 0)}, self.val(a), e.get('field'), ft)
        return set()

    def x_autodtor(self, e):
        if e.get('var') is not None and not self.vtype(e['var']).rstrip().endswith('&'):
            for t in self.A.prog.dtors_of(e.get('dt') or e.get('t') or ''):
                self.apply(t, e, {('L', e['var'])}, [], set())
        return set()

    def x_memberdtor(self, e):
        for t in self.A.prog.dtors_of(e.get('dt') or e.get('t') or ''):
            tgt = {('T', 0)}
            if re.match(r'^(std::)?(unique_ptr|vector|deque|list|shared_ptr|unordered_map|map)', (e.get('t') or '')):
                tgt = {('T', 0), ('T', 1)}
            self.apply(t, e, tgt, [], set())
        return set()

    def x_basedtor(self, e):
        for t in self.A.prog.dtors_of(e.get('dt') or e.get('t') or ''):
            self.apply(t, e, {('T', 0)}, [], set())
        return set()

    # -- calls
    def mapr(self, r, obj, args, e):
        if r[0] == 'T':
            return obj if r[1] == 0 else self.content(obj)
        if r[0] == 'P':
            if r[1] >= len(args):
                return set()
            a = args[r[1]]
            return a[0] if r[2] == 0 else a[1]
        if r[0] == 'F':
            return {('F', e['i'])}
        return {r}

    def apply(self, t, e, obj, args, res):
        s = self.A.sum.get(t['key'])
        if s is None:
            return res
        nm = t['n'].replace('pocketkaldi::', '')
        for w in list(s.writes):
            self.write(self.mapr(w, obj, args, e), e, 'call of ' + nm)
        for d, src in list(s.into):
            sr = self.mapr(src, obj, args, e)
            self.addpts(self.mapr(d, obj, args, e), sr)
        for r in s.ret:
            res |= self.mapr(r, obj, args, e)
        return res

    def x_call(self, e):
        return self.call(e, False)

    def x_ctor(self, e):
        return self.call(e, True)

    def args(self, e):
        f = e.get('f') or {}
        pts = f.get('pt', [])
        out = []
        for i, a in enumerate(e.get('args', ())):
            ae = self.em[a]
            pt = pts[i] if i < len(pts) else ae.get('t', '') + (' &' if ae.get('lv') else '')
            if pt.rstrip().endswith('&'):
                l = self.loc(a)
                out.append((l, self.content(l), pt))
            elif '*' in pt:
                v = self.val(a)
                out.append((v, self.content(v), pt))
            else:
                v = self.val(a)
                out.append((set(), v, pt))
        return out

    def call(self, e, ctor):
        f = e.get('f')
        if f is None:
            out = set()
            for a in e.get('args', ()):
                out |= self.val(a)
            return out
        n = e['n']
        base = n.split('::')[-1]
        args = self.args(e)
        ts = [t for t in self.A.prog.targets(e) if t['key'] in self.A.sum and t.get('ours')]
        if ctor:
            obj = {('L', -e['i'])}
        elif e.get('obj') is not None:
            oe = self.em[e['obj']]
            if e.get('arrow') or (not oe.get('lv') and oe.get('t', '').rstrip().endswith('*')):
                obj = self.val(e['obj'])
            else:
                obj = self.loc(e['obj'])
        else:
            obj = set()
        res = set()
        if ts and not n.startswith('std::'):
            for t in ts:
                self.apply(t, e, obj, args, res)
            if ctor:
                return set(self.pts.get(('L', -e['i']), ()))
            return res
        # libraries
        allv = set()
        for l, c, pt in args:
            allv |= l | c
        if ctor:
            if f.get('copyctor') or f.get('movector') or e.get('elide'):
                return args[0][1] if args else set()
            out = set()
            for l, c, pt in args:
                # a container built from iterators/values holds what those refer to
                out |= c if not pt.rstrip().endswith('*') else l
            return out
        cls = strip_targs(f.get('cls') or '').split('::')[-1]
        if base in ('move', 'forward') and n.startswith('std::'):
            return args[0][0] if e.get('lv') else args[0][1] or args[0][0]
        if base in FREE_ALLOC:
            return {('F', e['i'])}
        if base == 'posix_memalign':
            self.write(args[0][0], e, base)
            self.addpts(args[0][0], {('F', e['i'])})
            return set()
        if e.get('obj') is not None and not f.get('static'):
            smart = any(d in cls for d in DEREF_CLASSES)
            inertc = not carries(oe.get('t', '').rstrip('*& '))
            if (f.get('implicit') or f.get('defaulted')) and base == 'operator=':
                self.write(obj, e, base)
                if not inertc:
                    self.addpts(obj, args[0][1])
                return obj
            if not f.get('const') and base not in ACCESS:
                self.write(obj, e, base)
                if base in ('reset', 'swap', 'operator=') and smart:
                    pass
                for l, c, pt in args:
                    if inertc and base != 'swap':
                        continue
                    self.addpts(obj, c if pt.rstrip().endswith('&') else l | c)
                    if base == 'swap' and pt.rstrip().endswith('&'):
                        self.write(l, e, base)
                        self.addpts(l, self.content(obj))
            if n.startswith('std::') and 'iterator' not in cls and 'iter' not in cls and not smart:
                inner = self.content(obj)
                if e.get('lv'):
                    return obj
                rt = f.get('ret', '')
                if 'iterator' in rt or base in ('begin', 'end', 'find', 'data', 'c_str', 'cbegin', 'cend',
                                                'rbegin', 'rend', 'insert', 'erase'):
                    return obj
                return inner if carries(rt) else set()
            if smart or 'iter' in cls:
                inner = self.content(obj)
                if 'shared_ptr<const' in (f.get('cls') or ''):
                    inner = inner | {('C',)}
                if e.get('lv') and base in ('operator++', 'operator--', 'operator=', 'operator+=', 'operator-='):
                    return obj
                return inner
            # third-party class
            if e.get('lv'):
                return obj | self.content(obj)
            return (obj | self.content(obj) | allv) if carries(f.get('ret', '')) else set()
        for l, c, pt in args:
            p = pt.strip()
            if base in PURE_ALG:
                continue
            tgt = l
            if p.rstrip().endswith('&&'):
                continue
            if p.endswith('&') or p.endswith('*') or p.endswith('*restrict') or '*' in p and '<' not in p:
                if p.startswith('const ') or 'const &' in p or 'const *' in p:
                    continue
                self.write(tgt, e, base)
                if base == 'swap':
                    self.addpts(l, set().union(*[a[1] for a in args]))
            elif 'iterator' in p and not re.search(r'__normal_iterator<const |_const_iterator', p):
                self.write(c, e, base)
        if e.get('lv'):
            return set().union(*[a[0] for a in args]) if args else set()
        return allv if carries(f.get('ret', '')) else set()
