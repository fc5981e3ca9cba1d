"""Abstract semantics of library operations, and of calls that are not inlined."""
import re
from terms import *
import terms as TM

MODELS = {}
OPAQUE = set()

IMPURE = {'rand', 'srand', 'random', 'time', 'clock', 'fread', 'fgets', 'feof', 'ftell', 'fopen',
          'fclose', 'fseek', 'fwrite', 'malloc', 'calloc', 'realloc', 'posix_memalign', 'getenv',
          'strtok', 'getline', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'perror', 'exit',
          'abort', 'free', 'getchar', 'fgetc', 'getc', 'ferror', 'gettimeofday', 'clock_gettime'}


RELEASES = {'free', 'fclose', 'std::free', 'std::fclose', 'operator delete', 'operator delete[]', 'operatordelete', 'operatordelete[]',
            'ce_stt_destroy', 'ce_utt_destroy'}


OBTAINS = {'ce_stt_init', 'ce_utt_init', 'malloc', 'calloc', 'realloc', 'std::malloc', 'strdup', 'posix_memalign', 'aligned_alloc', 'fopen', 'std::fopen',
           'fdopen', 'freopen', 'tmpfile'}


def model(*names):
    def d(fn):
        for x in names:
            MODELS[x] = fn
        return fn
    return d


class Ctx:
    __slots__ = ('F', 'n', 'frame', 'e', 'st', 'vals', 'locs', 'obj', 'name')

    def load(self, loc):
        return self.F.load(self.st, loc)

    def store(self, loc, v):
        self.F.store(self.st, loc, v)

    def uid(self):
        return self.F.uid(self.frame, self.e)


# ------------------------------------------------------------------ containers
def SIZE(L):
    return fld(L, '#size')


def DATA(L):
    return fld(L, '#data')


def size_of(c, L):
    m = re.match(r'std::array<.*, (\d+)>$', c.e.get('f', {}).get('clst') or c.e.get('f', {}).get('cls') or '') \
        if c.name.startswith('std::array') else None
    if m:
        return C(int(m.group(1)))
    v = c.load(SIZE(L))
    from flow import NONNEG
    if v.op not in ('c', 'sum'):
        NONNEG.add(v)
    return v


SEQ = ('std::vector', 'std::deque', 'std::array', 'std::list', 'std::initializer_list')


def seq(*ms):
    return model(*[s + '::' + m for s in SEQ for m in ms])


@seq('size', 'length')
def _size(c):
    return size_of(c, c.obj)


@seq('empty')
def _empty(c):
    return eq(size_of(c, c.obj), C(0))


@seq('operator[]', 'at')
def _idx(c):
    return el(DATA(c.obj), c.vals[0])


@seq('back')
def _back(c):
    return el(DATA(c.obj), sub(size_of(c, c.obj), C(1)))


@seq('front')
def _front(c):
    return el(DATA(c.obj), C(0))


@seq('begin', 'cbegin', 'data')
def _begin(c):
    return addr(el(DATA(c.obj), C(0)))


@seq('end', 'cend')
def _end(c):
    return add(addr(el(DATA(c.obj), C(0))), size_of(c, c.obj))


@seq('push_back', 'emplace_back')
def _push(c):
    s = size_of(c, c.obj)
    if len(c.vals) == 1:
        v = c.vals[0]
    elif not c.vals:
        v = T('fresh', 'default')
    else:
        v = T('make', *c.vals)
    c.store(el(DATA(c.obj), s), v)
    c.store(SIZE(c.obj), add(s, C(1)))
    return T('void')


@seq('pop_back')
def _pop(c):
    c.store(SIZE(c.obj), sub(size_of(c, c.obj), C(1)))
    return T('void')


@seq('pop_front')
def _popf(c):
    c.store(SIZE(c.obj), sub(size_of(c, c.obj), C(1)))
    c.store(DATA(c.obj), T('popf', c.load(DATA(c.obj))))
    return T('void')


@seq('clear')
def _clear(c):
    c.store(SIZE(c.obj), C(0))
    return T('void')


@seq('resize')
def _resize(c):
    c.store(SIZE(c.obj), c.vals[0])
    d = c.load(DATA(c.obj))
    c.store(DATA(c.obj), T('resized', d, c.vals[0], *c.vals[1:]))
    return T('void')


@seq('assign')
def _assign(c):
    from flow import is_int
    if len(c.vals) == 2 and is_int(c.F.elem(c.frame, c.e['args'][0]).get('t', '')) and \
            not c.F.elem(c.frame, c.e['args'][0]).get('t', '').endswith('*'):
        c.store(SIZE(c.obj), c.vals[0])
        c.store(DATA(c.obj), T('fill', c.vals[1]))
    else:
        c.store(SIZE(c.obj), sub(c.vals[1], c.vals[0]) if len(c.vals) == 2 else T('out', c.uid(), 'n'))
        c.store(DATA(c.obj), T('copy', *c.vals))
    return T('void')


@seq('reserve', 'shrink_to_fit')
def _reserve(c):
    return T('void')


@seq('erase')
def _erase(c):
    s = size_of(c, c.obj)
    k = sub(c.vals[1], c.vals[0]) if len(c.vals) == 2 else C(1)
    b = addr(el(DATA(c.obj), C(0)))
    d = c.load(DATA(c.obj))
    c.store(SIZE(c.obj), sub(s, k))
    c.store(DATA(c.obj), T('erased', d, sub(c.vals[0], b), k))
    return c.vals[0]


@seq('insert')
def _insert(c):
    s = size_of(c, c.obj)
    b = addr(el(DATA(c.obj), C(0)))
    d = c.load(DATA(c.obj))
    if len(c.vals) == 3:
        k = sub(c.vals[2], c.vals[1])
        c.store(DATA(c.obj), T('ins', d, sub(c.vals[0], b), c.vals[1], k))
    else:
        k = C(1)
        c.store(DATA(c.obj), T('ins1', d, sub(c.vals[0], b), c.vals[-1]))
    c.store(SIZE(c.obj), add(s, k))
    return c.vals[0]


@seq('swap')
def _swap(c):
    a, b = c.load(c.obj), c.load(c.locs[0])
    c.store(c.obj, b)
    c.store(c.locs[0], a)
    return T('void')


@model('std::swap')
def _sswap(c):
    a, b = c.load(c.locs[0]), c.load(c.locs[1])
    c.store(c.locs[0], b)
    c.store(c.locs[1], a)
    return T('void')


@seq('operator=')
def _cassign(c):
    v = c.vals[0]
    c.store(c.obj, v)
    return c.obj


@seq('vector', 'deque', 'array', 'list')
def _cctor(c):
    """constructor: returns the value of a new container"""
    a = c.vals
    ts = [c.F.elem(c.frame, x).get('t', '') for x in c.e.get('args', ())]
    # allocator arguments carry nothing
    a = [v for v, t in zip(a, ts) if 'allocator<' not in t.split('::')[-1] or 'vector' in t]
    if c.e['f'].get('copyctor') or c.e['f'].get('movector'):
        return a[0]
    from flow import is_int
    if not a:
        return T('agg', T('fresh', 'vector'), (('#size', C(0)),))
    t0 = ts[0]
    if a[0].op == 'list':
        return T('agg', T('fresh', 'vector'), (('#data', a[0]), ('#size', C(len(a[0].args)))))
    if len(a) == 1 and is_int(t0):
        return T('agg', T('fresh', 'vector'), (('#data', T('fill', C(0))), ('#size', a[0])))
    if len(a) == 2 and is_int(t0) and not t0.endswith('*'):
        return T('agg', T('fresh', 'vector'), (('#data', T('fill', a[1])), ('#size', a[0])))
    if len(a) == 2 and 'reverse_iterator' in t0:
        src = c.F.deref(a[1])
        if src.op == 'el' and src.args[1] is C(0):
            n = sub(a[0], a[1])
            return T('agg', T('fresh', 'vector'), (('#data', T('rev', c.load(src.args[0]), C(0), n)), ('#size', n)))
        return T('res', c.uid())
    if len(a) == 2:
        src = c.F.deref(a[0])
        n = sub(a[1], a[0])
        if src.op == 'el' and src.args[1] is C(0) and \
                c.load(SIZE(src.args[0].args[0])) is n if src.op == 'el' and src.args[0].op == 'fld' else False:
            return T('agg', T('fresh', 'vector'), (('#data', c.load(src.args[0])), ('#size', n)))
        return T('agg', T('fresh', 'vector'), (('#data', T('copy', a[0], a[1])), ('#size', n)))
    return T('res', c.uid())


@seq('rbegin', 'crbegin')
def _rbegin(c):
    return add(addr(el(DATA(c.obj), C(0))), size_of(c, c.obj))


@seq('rend', 'crend')
def _rend(c):
    return addr(el(DATA(c.obj), C(0)))


# a reverse iterator is represented by its base
RI = 'std::reverse_iterator'


@model(RI + '::operator*')
def _ristar(c):
    return c.F.deref(sub(c.load(c.obj), C(1)))


@model(RI + '::operator->')
def _riarrow(c):
    return sub(c.load(c.obj), C(1))


@model(RI + '::reverse_iterator')
def _rictor(c):
    return c.vals[0] if c.vals else T('undef', c.uid())


@model('std::reverse')
def _reverse(c):
    a, b = c.vals
    d = c.F.deref(a)
    if d.op == 'el':
        c.store(d.args[0], T('rev', c.load(d.args[0]), d.args[1], sub(b, a)))
    return T('void')


@model('std::sort', 'std::stable_sort', 'std::nth_element', 'std::partial_sort', 'std::fill', 'std::fill_n',
       'std::iota', 'std::generate', 'std::rotate', 'std::replace', 'std::replace_if', 'std::shuffle',
       'std::random_shuffle', 'std::partition', 'std::make_heap', 'std::push_heap', 'std::pop_heap',
       'std::sort_heap', 'std::unique', 'std::remove', 'std::remove_if', 'std::swap_ranges')
def _permute(c):
    """the range given first changes (for two ranges: both)"""
    which = (0, 2) if c.name == 'std::swap_ranges' else (0,)
    for k in which:
        p = c.vals[k]
        d = c.F.deref(p)
        o = T('alg', c.name, c.uid(), k)
        if d.op == 'el':
            o = T('alg', c.name, c.load(d.args[0]), d.args[1], *c.vals[1:])
            c.store(d.args[0], o)
        else:
            c.store(T('buf', p), T('alg', c.name, c.load(T('buf', p)), C(0), *c.vals[1:]))
    r = T('res', c.uid())
    c.F.defnode[r] = c.n
    return r


@model('std::copy', 'std::copy_n', 'std::move_backward', 'std::copy_backward', 'std::transform')
def _copyalg(c):
    k = {'std::copy': 2, 'std::copy_n': 2, 'std::transform': 2}.get(c.name, 2)
    p = c.vals[k]
    if c.name == 'std::transform' and len(c.vals) == 5:
        p = c.vals[3]
    d = c.F.deref(p)
    A = d.args[0] if d.op == 'el' else T('buf', p)
    off = d.args[1] if d.op == 'el' else C(0)
    if c.name == 'std::copy':
        c.store(A, T('copyn', c.load(A), off, c.vals[0], sub(c.vals[1], c.vals[0])))
        return add(p, sub(c.vals[1], c.vals[0]))
    if c.name == 'std::copy_n':
        c.store(A, T('copyn', c.load(A), off, c.vals[0], c.vals[1]))
        return add(p, c.vals[1])
    c.store(A, T('alg', c.name, c.load(A), off, *c.vals))
    r = T('res', c.uid())
    c.F.defnode[r] = c.n
    return r


# iterators of sequences are pointers
NI = '__gnu_cxx::__normal_iterator'


@model(NI + '::operator*', 'std::_Deque_iterator::operator*')
def _itstar(c):
    return c.F.deref(c.load(c.obj))


@model(NI + '::operator->', 'std::_Deque_iterator::operator->')
def _itarrow(c):
    return c.load(c.obj)


@model(NI + '::operator[]')
def _itidx(c):
    return c.F.index(c.load(c.obj), c.vals[0])


def _inc(k):
    def f(c):
        old = c.load(c.obj)
        new = add(old, C(k))
        c.store(c.obj, new)
        if c.e.get('lv'):
            return c.obj
        return old if c.vals else new
    return f


MODELS[NI + '::operator++'] = MODELS['std::_Deque_iterator::operator++'] = _inc(1)
MODELS[NI + '::operator--'] = MODELS['std::_Deque_iterator::operator--'] = _inc(-1)


MODELS[RI + '::operator++'] = _inc(-1)
MODELS[RI + '::operator--'] = _inc(1)


@model(NI + '::operator+', 'std::_Deque_iterator::operator+')
def _itadd(c):
    return add(c.load(c.obj), c.vals[0])


@model(NI + '::operator-', 'std::_Deque_iterator::operator-')
def _itsub(c):
    return sub(c.load(c.obj), c.vals[0])


@model(NI + '::operator+=')
def _itpe(c):
    c.store(c.obj, add(c.load(c.obj), c.vals[0]))
    return c.obj


@model(NI + '::operator-=')
def _itme(c):
    c.store(c.obj, sub(c.load(c.obj), c.vals[0]))
    return c.obj


@model(NI + '::base')
def _itbase(c):
    return c.load(c.obj)


@model(NI + '::__normal_iterator', 'std::_Deque_iterator::_Deque_iterator')
def _itctor(c):
    return c.vals[0] if c.vals else T('undef', c.uid())


for _op in ('==', '!=', '<', '>', '<=', '>='):
    def _mk(op):
        def f(c):
            a, b = (c.vals if len(c.vals) == 2 else [c.load(c.obj)] + c.vals)
            return c.F.compare(op, a, b, True)
        return f
    for _s in ('__gnu_cxx::operator', 'std::operator', 'std::_Deque_iterator::operator'):
        if _s != 'std::operator':
            MODELS[_s + _op] = _mk(_op)


@model('__gnu_cxx::operator-')
def _itdiff(c):
    return sub(c.vals[0], c.vals[1])


# ------------------------------------------------------------------ strings
def strsize(v):
    if v.op == 'str':
        return C(len(v.args[0].encode('utf-8', 'surrogateescape')))
    from flow import NONNEG
    t = T('m', 'size', v)
    NONNEG.add(t)
    return t


S = 'std::basic_string::'


@model(S + 'basic_string')
def _strctor(c):
    a = list(c.vals)
    while a and (a[-1].op == 'fresh' or (len(a) > 1 and a[-1].op == 'void')):
        a.pop()
    if not a:
        return T('str', '')
    if len(a) == 1:
        return T('fn', 'string', a[0]) if a[0].op in ('addr',) else a[0]
    return T('fn', 'string', *a)


@model('std::allocator::allocator')
def _alloc(c):
    return T('fresh', 'allocator')


@model(S + 'operator=', S + 'assign')
def _strassign(c):
    c.store(c.obj, c.vals[0] if len(c.vals) == 1 else T('fn', 'string', *c.vals))
    return c.obj


@model(S + 'operator+=', S + 'push_back', S + 'append')
def _strapp(c):
    old = c.load(c.obj)
    c.store(c.obj, T('cat', old, *c.vals))
    return c.obj


@model('std::operator+')
def _strcat(c):
    if 'iterator' in (c.e['f'].get('pt') or [''])[0] + (c.e['f'].get('pt') or ['', ''])[-1]:
        return add(c.vals[0], c.vals[1])
    return T('cat', *c.vals)


@model('std::operator==')
def _opeq(c):
    return eq(c.vals[0], c.vals[1])


@model('std::operator!=')
def _opne(c):
    return NOT(eq(c.vals[0], c.vals[1]))


@model(S + 'size', S + 'length')
def _strsize(c):
    return strsize(c.load(c.obj))


@model(S + 'empty')
def _strempty(c):
    return eq(strsize(c.load(c.obj)), C(0))


@model(S + 'clear')
def _strclear(c):
    c.store(c.obj, T('str', ''))
    return T('void')


@model(S + 'front')
def _strfront(c):
    return el(c.obj, C(0))


@model(S + 'back')
def _strback(c):
    return el(c.obj, sub(strsize(c.load(c.obj)), C(1)))


@model(S + 'operator[]', S + 'at')
def _stridx(c):
    return el(c.obj, c.vals[0])


@model(S + 'begin', S + 'cbegin')
def _strbegin(c):
    return addr(el(c.obj, C(0)))


@model(S + 'end', S + 'cend')
def _strend(c):
    return add(addr(el(c.obj, C(0))), strsize(c.load(c.obj)))


@model(S + 'swap')
def _strswap(c):
    return _swap(c)


# ------------------------------------------------------------------ smart pointers
U = 'std::unique_ptr::'


@model(U + 'unique_ptr')
def _uctor(c):
    if not c.vals:
        return NULL
    v = c.vals[0]
    if v.op == 'void':
        return NULL
    if c.e['f'].get('movector') or 'unique_ptr' in c.F.elem(c.frame, c.e['args'][0]).get('t', ''):
        if c.locs[0] is not None:
            c.store(c.locs[0], NULL)
    return v


@model(U + 'get', U + 'operator->')
def _uget(c):
    v = c.load(c.obj)
    from flow import PTR
    if v.op not in ('null', 'sum', 'addr'):
        PTR.add(v)
    return v


@model(U + 'operator*')
def _ustar(c):
    return c.F.deref(c.load(c.obj))


@model(U + 'operator bool')
def _ubool(c):
    return NOT(eq(c.load(c.obj), NULL))


@model(U + 'operator=')
def _uassign(c):
    c.store(c.obj, c.vals[0])
    if c.locs and c.locs[0] is not None and c.locs[0] is not c.obj:
        c.store(c.locs[0], NULL)
    return c.obj


@model(U + 'reset')
def _ureset(c):
    c.store(c.obj, c.vals[0] if c.vals else NULL)
    return T('void')


@model(U + 'release')
def _urelease(c):
    v = c.load(c.obj)
    c.store(c.obj, NULL)
    return v


# ------------------------------------------------------------------ std functions
@model('std::move', 'std::forward', 'std::addressof', 'std::cref', 'std::ref')
def _move(c):
    if c.name == 'std::addressof':
        return addr(c.locs[0])
    return c.locs[0]


def minmax(op, a, b):
    if a.op == 'c' and b.op == 'c':
        return C((min if op == 'min' else max)(a.args[0], b.args[0]))
    if a is b:
        return a
    return T(op, *sorted((a, b), key=lambda t: t.id))


@model('std::min', 'std::max')
def _minmax(c):
    op = c.name.split('::')[-1]
    v = minmax(op, c.vals[0], c.vals[1])
    loc = c.F.tmp(c.frame, c.e['i'])
    c.store(loc, v)
    return loc


@model('std::make_pair')
def _mkpair(c):
    return T('agg', T('fresh', 'pair'), (('first', c.vals[0]), ('second', c.vals[1])))


@model('std::pair::pair')
def _pair(c):
    if len(c.vals) == 2:
        return T('agg', T('fresh', 'pair'), (('first', c.vals[0]), ('second', c.vals[1])))
    return c.vals[0] if c.vals else T('agg', T('fresh', 'pair'), (('first', C(0)), ('second', C(0))))


@model('std::pair::operator=')
def _pairassign(c):
    c.store(c.obj, c.vals[0])
    return c.obj


@model('__assert_fail')
def _af(c):
    return T('void')


# maps
def mp(*ms):
    return model(*['std::%s::%s' % (s, m) for s in ('unordered_map', 'unordered_set', 'map', 'set') for m in ms])


def MAP(L):
    return fld(L, '#map')


@mp('operator[]', 'at')
def _midx(c):
    return el(MAP(c.obj), T('key', c.vals[0]))


@mp('find')
def _mfind(c):
    v = T('mfind', c.load(MAP(c.obj)), c.vals[0])
    from flow import PTR
    PTR.add(v)
    return v


@mp('end', 'cend')
def _mend(c):
    return T('mend')


@mp('count')
def _mcount(c):
    return ITE(eq(T('mfind', c.load(MAP(c.obj)), c.vals[0]), T('mend')), C(0), C(1))


@mp('clear')
def _mclear(c):
    c.store(MAP(c.obj), T('fresh', 'map'))
    return T('void')


@mp('insert', 'emplace')
def _minsert(c):
    v = c.vals[0]
    if len(c.vals) == 2:
        c.store(el(MAP(c.obj), T('key', c.vals[0])), c.vals[1])
    else:
        c.store(el(MAP(c.obj), T('key', sel(v, 'first'))), sel(v, 'second'))
    return T('res', c.uid())


@mp('erase')
def _merase(c):
    c.store(MAP(c.obj), T('merased', c.load(MAP(c.obj)), *c.vals))
    return T('void')


@model('std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_const_iterator::operator->',
       'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->')
def _niarrow(c):
    return c.load(c.obj)


@model('std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator*')
def _nistar(c):
    return c.F.deref(c.load(c.obj))


@model('std::__detail::operator==', 'std::__detail::_Node_iterator::operator==')
def _nieq(c):
    a, b = c.vals if len(c.vals) == 2 else [c.load(c.obj)] + c.vals
    return eq(a, b)


@model('std::__detail::operator!=', 'std::__detail::_Node_iterator::operator!=')
def _nine(c):
    a, b = c.vals if len(c.vals) == 2 else [c.load(c.obj)] + c.vals
    return NOT(eq(a, b))


@model('std::__detail::_Node_const_iterator::_Node_const_iterator', 'std::__detail::_Node_iterator::_Node_iterator')
def _nictor(c):
    return c.vals[0] if c.vals else T('undef', c.uid())


# ------------------------------------------------------------------ Status
ST = 'pocketkaldi::Status::'


@model(ST + 'Status')
def _stctor(c):
    if not c.vals:
        return OK
    if c.e['f'].get('copyctor') or c.e['f'].get('movector') or len(c.vals) == 1:
        return c.vals[0]
    return T('fail', c.uid())


@model(ST + 'OK')
def _stok(c):
    return OK


@model(ST + 'ok')
def _stisok(c):
    return isok(c.load(c.obj))


@model(ST + 'operator=')
def _stassign(c):
    c.store(c.obj, c.vals[0])
    return c.obj


@model(ST + 'what')
def _stwhat(c):
    return T('m', 'what', c.load(c.obj))


@model(ST + 'code')
def _stcode(c):
    return T('m', 'code', c.load(c.obj))


@model('pocketkaldi::util::Format')
def _format(c):
    return T('fn', 'Format', *c.vals)


# ------------------------------------------------------------------ C library
@model('memcpy', 'std::memcpy', 'memmove', 'std::memmove')
def _memcpy(c):
    d = c.F.deref(c.vals[0])
    if d.op == 'var':
        # the bytes of one number
        c.store(d, T('copied', c.load(c.F.deref(c.vals[1])), c.vals[2]))
    elif d.op == 'el':
        c.store(d.args[0], T('memcpy', c.load(d.args[0]), d.args[1], c.vals[1], c.vals[2]))
    else:
        c.store(T('buf', c.vals[0]), T('memcpy', c.load(T('buf', c.vals[0])), C(0), c.vals[1], c.vals[2]))
    return c.vals[0]


@model('memset', 'std::memset')
def _memset(c):
    d = c.F.deref(c.vals[0])
    A = d.args[0] if d.op == 'el' else T('buf', c.vals[0])
    one = c.vals[0].op == 'new' and c.F.ptype.get(c.vals[0]) in c.F.prog.records
    if (c.vals[0].op == 'addr' or one) and d.op != 'el':
        c.store(d, T('memset', c.vals[1]))
        return c.vals[0]
    off = d.args[1] if d.op == 'el' else C(0)
    c.store(A, T('memset', c.load(A), off, c.vals[1], c.vals[2]))
    return c.vals[0]


# ------------------------------------------------------------------ dispatch
def mkctx(F, n, frame, e, st):
    c = Ctx()
    c.F, c.n, c.frame, c.e, c.st, c.name = F, n, frame, e, st, e.get('n')
    c.vals, c.locs = F.argvals(frame, e, st)
    c.obj = None
    if e['k'] == 'call' and e.get('obj') is not None:
        c.obj = F.objloc(frame, e, st)
    return c


def call(F, n, frame, e, st):
    if 'f' not in e:
        vals = [F.rv(frame, a, st) for a in e.get('args', ())]
        fp = F.rv(frame, e['fp'], st) if e.get('fp') is not None else T('undef', F.uid(frame, e, 'fp'))
        r = T('res', F.uid(frame, e, 'fp'), fp)
        F.defnode[r] = n
        F.emit('call', n, frame, e, name='<indirect>', args=vals, val=r, obj=fp)
        return r
    c = mkctx(F, n, frame, e, st)
    m = F.extra.get(c.name) or MODELS.get(c.name)
    evn = F.emit('call', n, frame, e, name=c.name, args=c.vals, locs=c.locs, obj=c.obj)
    if evn is not None:
        evn.st = st if F.keepstate else None
    if c.name in RELEASES and c.vals:
        F.release(st, c.vals[0])
    if m is not None and (c.obj is not None or not c.name.startswith(SEQ)):
        v = m(c)
    else:
        v = opaque(c)
    if F.counting is not None and c.name in OBTAINS:
        F.obtain(st, F.load(st, c.locs[0]) if c.name == 'posix_memalign' and c.locs[0] is not None else v)
    if evn is not None:
        evn.val = v
    return v


def ctor(F, n, frame, e, st):
    c = mkctx(F, n, frame, e, st)
    f = e['f']
    evn = F.emit('ctor', n, frame, e, name=c.name, args=c.vals, locs=c.locs)
    m = F.extra.get(c.name) or MODELS.get(c.name)
    # constructors are modelled only under Class::Class names
    if m is not None and not (e.get('elide') and c.vals):
        v = m(c)
    elif (e.get('elide') or f.get('copyctor') or f.get('movector')) and c.vals and \
            (e.get('elide') or f.get('implicit') or f.get('defaulted') or not F.prog.targets(e)):
        v = c.vals[0]
    elif (f.get('implicit') or f.get('defaulted')) and not c.vals and not F.prog.targets(e):
        v = T('memset', C(0)) if e.get('zero') else T('fresh', f.get('cls', ''))
    else:
        v = opaque(c)
    if evn is not None:
        evn.val = v
    return v


def opaque(c):
    F, st, f, e = c.F, c.st, c.e['f'], c.e
    u = c.uid()
    ts = F.prog.targets(e)
    name = c.name
    # implicit memberwise assignment
    if (f.get('implicit') or f.get('defaulted')) and (f.get('copyassign') or f.get('moveassign')) and c.obj is not None:
        c.store(c.obj, c.vals[0])
        return c.obj
    own = any(t.get('ours') for t in ts) or 'pocketkaldi' in name
    pts = f.get('pt', [])
    from flow import is_ref, is_ptr, pointee_const, PTR
    mutated = False
    before = dict(zip(range(len(c.vals)), c.vals))
    ro = F.readonly_params(e) if own else {}
    for i, pt in enumerate(pts):
        if i >= len(c.vals) or c.locs[i] is None:
            continue
        if (is_ref(pt) or is_ptr(pt)) and not pointee_const(pt) and not pt.rstrip().endswith('&&'):
            if c.vals[i] is NULL and is_ptr(pt):
                continue
            if ro.get(i):
                continue
            loc = c.locs[i]
            if loc.op == 'deref' and loc.args[0].op in ('func', 'str', 'void'):
                continue
            o = T('out', u, i)
            F.defnode[o] = c.n
            if loc.op == 'el' and is_ptr(pt):
                # a pointer into an array may touch any of its elements
                A = loc.args[0]
                c.store(A, T('out', u, i))
                F.defnode[T('out', u, i)] = c.n
            else:
                c.store(loc, o)
            mutated = True
    if c.obj is not None and not f.get('static') and not f.get('const'):
        o = T('out', u, 'this')
        F.defnode[o] = c.n
        if own and ts:
            F.clobber(st, c.obj, ts, u, c.n)
        else:
            c.store(c.obj, o)
        mutated = True
    elif own and ts:
        F.clobber(st, None, ts, u, c.n)
    simple = name.split('::')[-1]
    pure = not mutated and simple not in IMPURE and name not in IMPURE and f.get('ret', '') != 'void'
    if own and pure:
        pure = F.pure_own(ts)
    if e['k'] == 'ctor':
        r = T('res', u)
        F.defnode[r] = c.n
        return r
    if pure:
        if c.obj is not None:
            r = T('m', simple, c.load(c.obj), *c.vals)
        else:
            r = fn(name.replace('std::', ''), *c.vals)
    else:
        r = T('res', u)
        F.defnode[r] = c.n
    if e.get('lv'):
        if r.op in ('m', 'fn'):
            PTR.add(r)
        PTR.add(r)
        return F.deref(r)
    return r
