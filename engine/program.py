"""Loading of the extracted facts: one merged, type-resolved program."""
import json, os, re, subprocess, sys, hashlib, concurrent.futures, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(VERIF, '.cache')
TOOL = os.path.join(BUILD, 'extract')


class AnalysisBroken(Exception):
    """The analysis lost an anchor it needs: neither a pass nor a violation."""


def strip_targs(s):
    """Removes template argument lists from a qualified *class* name."""
    out, d = [], 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


def norm_name(f):
    """Callee name with class template arguments removed."""
    q = f['q']
    cls = f.get('cls')
    if f.get('op'):
        if cls:
            return strip_targs(cls) + '::operator' + f['op']
        i = q.rfind('operator')
        return strip_targs(q[:i]) + 'operator' + f['op']
    if cls and q.startswith(cls + '::'):
        n = q[len(cls) + 2:]
        c = strip_targs(cls)
        if f.get('ctor'):
            n = c.split('::')[-1]
        elif f.get('dtor'):
            n = '~' + c.split('::')[-1]
        return c + '::' + n
    # free function: strip arguments unless an operator name is involved
    if '::operator ' in q:
        i = q.rfind('::operator ')
        return strip_targs(q[:i]) + q[i:]
    if 'operator' in q:
        return q
    return strip_targs(q)


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'extract.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = os.path.join(BUILD, 'extract.stamp')
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    cmd = ['clang++-18' if shutil.which('clang++-18') else 'clang++', '-std=c++17', '-O1', '-fno-rtti',
           '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', TOOL + '.tmp',
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    subprocess.run(cmd, check=True)
    os.replace(TOOL + '.tmp', TOOL)
    with open(stamp, 'w') as fd:
        fd.write(h)


FLAGS = ['-x', 'c++', '-std=c++11', '-w', '-fPIC', '-I' + SRC,
         '-I' + SRC + '/openfst/include', '-I' + SRC + '/gemmlowp',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def sources():
    return sorted(os.path.join(SRC, f) for f in os.listdir(SRC)
                  if f.endswith('.cc') or f.endswith('.cpp'))


def tree_hash():
    h = hashlib.sha256()
    h.update(open(os.path.join(HERE, 'extract.cc'), 'rb').read())
    h.update(' '.join(FLAGS).encode())
    for f in sorted(os.listdir(SRC)):
        p = os.path.join(SRC, f)
        if os.path.isfile(p) and f.endswith(('.cc', '.h', '.cpp', '.hpp', '.in')):
            h.update(f.encode())
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def _extract_one(args):
    src, out = args
    p = subprocess.run([TOOL, out, SRC, src, '--'] + FLAGS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return src, p.returncode, p.stdout.decode(errors='replace')


class Program:
    def __init__(self):
        build_tool()
        srcs = sources()
        if not srcs:
            raise AnalysisBroken('no sources under ' + SRC)
        tmp = tempfile.mkdtemp(prefix='catears_facts_')
        try:
            jobs = [(s, os.path.join(tmp, os.path.basename(s) + '.json')) for s in srcs]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(_extract_one, jobs))
            for s, rc, out in res:
                if rc != 0:
                    raise AnalysisBroken('front end failed on %s: %s' % (s, out[:800]))
            self.functions, self.records, self.globals, self.enums = {}, {}, {}, {}
            self.units = [os.path.basename(s) for s in srcs]
            for s, out in jobs:
                d = json.load(open(out))
                if d.get('errors'):
                    raise AnalysisBroken('front end errors in ' + s)
                for m, f in d['functions'].items():
                    f['key'] = m
                    if m not in self.functions:
                        self.functions[m] = f
                for k in ('records', 'globals', 'enums'):
                    for m, v in d[k].items():
                        cur = getattr(self, k).setdefault(m, v)
                        if k == 'globals' and cur is not v and len(v) > len(cur):
                            self.globals[m] = v          # the defining declaration
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.overriders = {}
        for m, f in self.functions.items():
            f['key'] = m
            if 'q' not in f:
                raise AnalysisBroken('no CFG for ' + m)
            f['n'] = norm_name(f)
            for o in f.get('overrides', ()):
                self.overriders.setdefault(o, []).append(m)
            self._prep(f)
        self._endless()
        self.byname = {}
        for f in self.functions.values():
            self.byname.setdefault(f['n'], []).append(f)

    def _endless(self):
        """a call of a function that never returns ends its block"""
        never, more = set(), True
        while more:
            more = False
            for m, f in self.functions.items():
                for b in f['blocks']:
                    at = next((i for i, e in enumerate(b['elems']) if e['k'] == 'call' and (e.get('f') or {}).get('m') in never and
                               not e['f'].get('virtual')), None)
                    if at is not None and not b.get('noreturn'):
                        b['noreturn'] = True
                        b['elems'] = b['elems'][:at + 1]
                if m in never:
                    continue
                seen, todo = set(), [f['entry']]
                while todo:
                    i = todo.pop()
                    if i is None or i in seen:
                        continue
                    seen.add(i)
                    b = f['bmap'][i]
                    if not b.get('noreturn') and not any(e['k'] == 'throw' for e in b['elems']):
                        todo += b['succs']
                if f['exit'] not in seen:
                    never.add(m)
                    more = True
        self.never = never

    def _prep(self, f):
        f['bmap'] = {}
        f['emap'] = {}
        for b in f['blocks']:
            f['bmap'][b['id']] = b
            for e in b['elems']:
                f['emap'][e['i']] = e
                if 'f' in e:
                    e['n'] = norm_name(e['f'])
        f['calls'] = [e for b in f['blocks'] for e in b['elems']
                      if e['k'] in ('call', 'ctor') and 'f' in e]

    def find(self, name, required=True):
        r = self.byname.get(name, [])
        if not r and required:
            raise AnalysisBroken('anchor vanished: no function ' + name)
        return r

    def one(self, name):
        return self.find(name)[0]

    def all_overriders(self, m):
        out, todo = [], [m]
        while todo:
            x = todo.pop()
            for o in self.overriders.get(x, ()):
                if o not in out:
                    out.append(o)
                    todo.append(o)
        return out

    def targets(self, e):
        """Bodies a call element may reach (virtual calls: every overrider)."""
        f = e.get('f')
        if not f:
            return []
        ms = [f['m']]
        if f.get('virtual') and (e.get('dyn') or e['k'] != 'call'):
            ms += self.all_overriders(f['m'])
        return [self.functions[m] for m in ms if m in self.functions]

    def callees(self, f, implicit=True):
        """Direct call targets with bodies, lambdas and destructors included."""
        out = []
        for b in f['blocks']:
            for e in b['elems']:
                if e['k'] in ('call', 'ctor'):
                    out += [(e, t) for t in self.targets(e)]
                elif e['k'] == 'lambda' and e['op'] in self.functions:
                    out.append((e, self.functions[e['op']]))
                elif e['k'] == 'func' and e['f']['m'] in self.functions:
                    # address taken or plain callee reference
                    out.append((e, self.functions[e['f']['m']]))
                elif implicit and e['k'] in ('autodtor', 'memberdtor', 'basedtor', 'delete'):
                    t = e.get('dt') or e.get('t') or ''
                    for d in self.dtors_of(t):
                        out.append((e, d))
        return out

    def dtors_of(self, t):
        out = []
        for tt in re.findall(r'pocketkaldi::[\w:]+(?:<[^<>]*>)?', t) + [t.replace('*', '').strip()]:
            tt = tt.replace('const ', '').strip()
            c = strip_targs(tt)
            n = c + '::~' + c.split('::')[-1]
            for f in self.byname.get(n, []):
                if f.get('clst') == tt or f.get('cls') == tt:
                    out.append(f)
                    for o in self.all_overriders(f['key']):
                        out.append(self.functions[o])
        return out

    def reachable(self, roots):
        seen, todo, via = {}, list(roots), {}
        for r in roots:
            seen[r['key']] = r
        while todo:
            f = todo.pop()
            for e, t in self.callees(f):
                if t['key'] not in seen:
                    seen[t['key']] = t
                    via[t['key']] = (f['key'], e.get('loc', f.get('loc')))
                    todo.append(t)
        self.via = via
        return seen

    def path_to(self, key):
        p = []
        while key in self.via:
            caller, loc = self.via[key]
            p.append('%s (called at %s)' % (self.functions[key]['q'], loc))
            key = caller
        p.append(self.functions[key]['q'])
        return ' <- '.join(p)


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


if __name__ == '__main__':
    build_tool()
