"""What the vector and matrix operations do, as equations over contents.

Used by the rules that reason about the data that flows through vectors and matrices. The contents of a vector
is the pseudo field #v (an array), of a matrix #v (an array of rows); a view (row, range) knows the array it
looks at (#at) and where it starts (#off). That the operations do what is said here is decided by M04."""
from terms import *

PK = 'pocketkaldi::'
SUMMARY = {}
ZERO, UNDEF, COPY = 0, 1, 2
VECTOR = ('VectorBase', 'Vector', 'SubVector')
MATRIX = ('MatrixBase', 'Matrix', 'SubMatrix')


def on(classes, *names):
    def d(fn):
        for k in classes:
            for n in names:
                SUMMARY[PK + k + '::' + (n if n != 'ctor' else k)] = fn
        return fn
    return d


def V(loc):
    return fld(loc, '#v')


def array(c, obj):
    """(array location, first element) a vector looks at"""
    at = c.load(fld(obj, '#at'))
    if at.op == 'addr':
        return at.args[0], c.load(fld(obj, '#off'))
    return V(obj), C(0)


def dim(c, obj):
    return c.load(fld(obj, 'dim_'))


def whole(c, A):
    """number of elements of an array"""
    if A.op == 'fld':
        return c.load(fld(A.args[0], 'dim_'))
    if A.op == 'el' and A.args[0].op == 'fld':
        return c.load(fld(A.args[0].args[0], 'num_cols_'))
    return None


def content(c, obj):
    A, o = array(c, obj)
    n = dim(c, obj)
    arr = c.load(A)
    if o is C(0) and n is whole(c, A):
        return arr
    return slice_(arr, o, n)


def slice_(arr, o, n):
    while arr.op == 'put' and arr.args[1] is not o:
        # another part
        d = sub(arr.args[1], o)
        if (d is n) or sub(add(arr.args[1], arr.args[2]), o) is C(0):
            arr = arr.args[0]
        else:
            break
    if arr.op == 'put' and arr.args[1] is o and arr.args[2] is n:
        return arr.args[3]
    return T('slice', arr, o, n)


def put(c, obj, val):
    A, o = array(c, obj)
    n = dim(c, obj)
    if o is C(0) and n is whole(c, A):
        c.store(A, val)
    else:
        c.store(A, T('put', c.load(A), o, n, val))


def filled(kind, old, *n):
    if kind is C(ZERO):
        return T('fill', C(0))
    if kind is C(COPY):
        return T('resz', old, *n)
    return T('any', kind, old, *n)


# ------------------------------------------------------------------ vectors
def fresh(name, **f):
    return T('agg', T('fresh', name), tuple(sorted((k.replace('_v', '#v') if k in ('_v', '_at', '_off') else k, v)
                                                   for k, v in f.items())))


@on(('Vector',), 'ctor')
def _vector(c):
    if c.e['f'].get('movector') or (c.locs and c.locs[0] is not None and len(c.vals) == 1 and
                                    '&&' in (c.e['f'].get('pt') or [''])[0]):
        v = c.vals[0]
        c.store(c.locs[0], T('agg', T('moved', c.uid()), (('#v', T('fill', C(0))), ('dim_', C(0)))))
        return v
    if not c.vals:
        return T('agg', T('fresh', 'vector'), (('#v', T('fill', C(0))), ('dim_', C(0))))
    kind = c.vals[1] if len(c.vals) > 1 else C(ZERO)
    return T('agg', T('fresh', 'vector'), (('#v', filled(kind, T('fill', C(0)), c.vals[0])), ('dim_', c.vals[0])))


@on(('Vector', 'Matrix'), 'operator=')
def _assign(c):
    v = c.vals[0]
    c.store(c.obj, v)
    if c.locs[0] is not None and c.locs[0] is not c.obj:
        c.store(c.locs[0], T('agg', T('moved', c.uid()), (('#v', T('fill', C(0))), ('dim_', C(0)))))
    return c.obj


@on(('Vector',), 'Resize')
def _resize(c):
    old = c.load(V(c.obj))
    kind = c.vals[1] if len(c.vals) > 1 else C(ZERO)
    c.store(fld(c.obj, 'dim_'), c.vals[0])
    c.store(V(c.obj), filled(kind, old, c.vals[0]))
    return T('void')


@on(('Vector', 'Matrix'), 'Swap')
def _swap(c):
    a, b = c.load(c.obj), c.load(c.locs[0])
    c.store(c.obj, b)
    c.store(c.locs[0], a)
    return T('void')


@on(VECTOR, 'Range')
def _range(c):
    A, o = array(c, c.obj)
    return view(A, add(o, c.vals[0]), c.vals[1])


def view(A, o, n):
    return T('agg', T('fresh', 'view'), (('#at', T('addr', A)), ('#off', o), ('dim_', n)))


@on(('SubVector',), 'ctor')
def _subvector(c):
    if len(c.vals) == 3 and c.locs[0] is not None:
        A, o = array(c, c.locs[0])
        return view(A, add(o, c.vals[1]), c.vals[2])
    if len(c.vals) == 2:
        l = c.F.deref(c.vals[0])
        if l.op == 'el':
            return view(l.args[0], l.args[1], c.vals[1])
        return view(T('buf', c.vals[0]), C(0), c.vals[1])
    return c.vals[0]


@on(VECTOR, 'operator()')
def _elem(c):
    A, o = array(c, c.obj)
    l = el(A, add(o, c.vals[0]))
    return l if c.e.get('lv') else c.load(l)


@on(VECTOR, 'Data')
def _data(c):
    A, o = array(c, c.obj)
    return addr(el(A, o))


@on(VECTOR, 'CopyFromVec')
def _copy(c):
    put(c, c.obj, content(c, c.locs[0]))
    return T('void')


@on(VECTOR, 'Set')
def _set(c):
    put(c, c.obj, T('fill', c.vals[0]))
    return T('void')


@on(VECTOR, 'SetZero')
def _setzero(c):
    put(c, c.obj, T('fill', C(0)))
    return T('void')


@on(VECTOR, 'AddVec')
def _addvec(c):
    put(c, c.obj, T('axpy', content(c, c.obj), c.vals[0], content(c, c.locs[1])))
    return T('void')


def update(name):
    def f(c):
        put(c, c.obj, T('map', name, content(c, c.obj), *[content(c, l) if l is not None else v
                                                          for v, l in zip(c.vals, c.locs)]))
        return T('void') if name != 'ApplyFloor' else T('res', c.uid())
    return f


for _n in ('ApplyLog', 'ApplyFloor', 'ApplyPow', 'ApplySoftMax', 'ApplyLogSoftMax', 'Scale', 'Add', 'MulElements'):
    on(VECTOR, _n)(update(_n))


# ------------------------------------------------------------------ matrices
def marray(c, obj):
    """(matrix location, first row, first column) a matrix looks at"""
    at = c.load(fld(obj, '#mat'))
    if at.op == 'addr':
        return at.args[0], c.load(fld(obj, '#ro')), c.load(fld(obj, '#co'))
    return obj, C(0), C(0)


def mcontent(c, obj):
    M, r, k = marray(c, obj)
    if M is obj:
        return c.load(V(obj))
    return T('part', c.load(V(M)), r, c.load(fld(obj, 'num_rows_')), k, c.load(fld(obj, 'num_cols_')))


def mput(c, obj, val):
    M, r, k = marray(c, obj)
    if M is obj:
        c.store(V(obj), val)
    else:
        c.store(V(M), T('putpart', c.load(V(M)), r, c.load(fld(obj, 'num_rows_')), k, c.load(fld(obj, 'num_cols_')), val))


def mval(rows, cols, v):
    return T('agg', T('fresh', 'matrix'), (('#v', v), ('num_cols_', cols), ('num_rows_', rows)))


@on(('Matrix',), 'ctor')
def _matrix(c):
    if not c.vals:
        return mval(C(0), C(0), T('fill', C(0)))
    if len(c.vals) == 1:
        return c.vals[0]
    kind = c.vals[2] if len(c.vals) > 2 else C(ZERO)
    return mval(c.vals[0], c.vals[1], filled(kind, T('fill', C(0)), c.vals[0], c.vals[1]))


@on(('Matrix',), 'Resize')
def _mresize(c):
    old = c.load(V(c.obj))
    kind = c.vals[2] if len(c.vals) > 2 else C(ZERO)
    c.store(fld(c.obj, 'num_rows_'), c.vals[0])
    c.store(fld(c.obj, 'num_cols_'), c.vals[1])
    c.store(V(c.obj), filled(kind, old, c.vals[0], c.vals[1]))
    return T('void')


@on(MATRIX, 'Row')
def _row(c):
    M, r, k = marray(c, c.obj)
    return view(el(V(M), add(r, c.vals[0])), k, c.load(fld(c.obj, 'num_cols_')))


@on(MATRIX, 'operator()')
def _melem(c):
    M, r, k = marray(c, c.obj)
    l = el(el(V(M), add(r, c.vals[0])), add(k, c.vals[1]))
    return l if c.e.get('lv') else c.load(l)


@on(MATRIX, 'Range')
def _mrange(c):
    M, r, k = marray(c, c.obj)
    return T('agg', T('fresh', 'view'), (('#co', add(k, c.vals[2])), ('#mat', T('addr', M)), ('#ro', add(r, c.vals[0])),
                                         ('num_cols_', c.vals[3]), ('num_rows_', c.vals[1])))


@on(('SubMatrix',), 'ctor')
def _submatrix(c):
    if len(c.vals) == 5:
        M, r, k = marray(c, c.locs[0])
        return T('agg', T('fresh', 'view'), (('#co', add(k, c.vals[3])), ('#mat', T('addr', M)), ('#ro', add(r, c.vals[1])),
                                             ('num_cols_', c.vals[4]), ('num_rows_', c.vals[2])))
    return c.vals[0] if len(c.vals) == 1 else T('res', c.uid())


@on(MATRIX, 'CopyFromMat')
def _mcopy(c):
    v = mcontent(c, c.locs[0])
    if len(c.vals) > 1 and c.vals[1] is not C(1):
        v = T('trans', v, c.vals[1])
    mput(c, c.obj, v)
    return T('void')


@on(MATRIX, 'SetZero')
def _msetzero(c):
    mput(c, c.obj, T('fill', C(0)))
    return T('void')


@on(MATRIX, 'Scale')
def _mscale(c):
    mput(c, c.obj, T('map', 'Scale', mcontent(c, c.obj), c.vals[0]))
    return T('void')


@on(MATRIX, 'Transpose')
def _mtrans(c):
    a, b = c.load(fld(c.obj, 'num_rows_')), c.load(fld(c.obj, 'num_cols_'))
    c.store(fld(c.obj, 'num_rows_'), b)
    c.store(fld(c.obj, 'num_cols_'), a)
    mput(c, c.obj, T('trans', mcontent(c, c.obj)))
    return T('void')


def product(name):
    def f(c):
        out = c.locs[2]
        mput(c, out, T('prod', name, mcontent(c, c.locs[0]), mcontent(c, c.locs[1])))
        return T('void')
    return f


for _n in ('MatMat', 'SimpleMatMat'):
    SUMMARY[PK + _n] = product(_n)
