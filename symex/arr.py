"""numpy stand-in: object-dtype arrays that keep numpy's float/int assignment rules."""
import math
import types

import numpy as np
import z3

from . import core
from .core import SymBool, SymInt, SymNum, SymReal, mkreal, unmodelled, zreal
from .strs import SymStr, has_sym, to_float, to_int

BT = {}   # shim type -> native type, filled by builtins shim


def kind_of_dtype(dt):
    dt = BT.get(dt, dt) if isinstance(dt, type) else dt
    if dt is None:
        return 'f'
    if isinstance(dt, np.dtype) and dt.names:
        return 'V'
    if dt in (object, 'O', 'object'):
        return 'O'
    if dt is str:
        return 'U'
    k = np.dtype(dt).kind
    return {'u': 'i', 'S': 'U'}.get(k, k)


def conv_scalar(v, k):
    """Convert one element to the array's element kind, as numpy would."""
    if isinstance(v, np.ndarray):
        if v.size == 1 and v.ndim == 0:
            v = v.item()
        else:
            raise ValueError('setting an array element with a sequence.')
    if isinstance(v, np.generic):
        v = v.item()
    if k == 'f':
        if isinstance(v, SymReal):
            return v
        if isinstance(v, SymInt):
            return mkreal(z3.ToReal(v.z))
        if isinstance(v, SymBool):
            return mkreal(zreal(v))
        if isinstance(v, (str, SymStr)):
            return to_float(v)
        if isinstance(v, (list, tuple)):
            raise ValueError('setting an array element with a sequence.')
        return float(v)
    if k == 'i':
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymReal):
            return core.trunc(v)
        if isinstance(v, (str, SymStr)):
            return to_int(v)
        if isinstance(v, (list, tuple)):
            raise ValueError('setting an array element with a sequence.')
        return int(v)
    if k == 'b':
        return bool(v)
    if k == 'U':
        return v if isinstance(v, (str, SymStr)) else str(v)
    return v


def shape_of(o):
    """Shape of a nested sequence; raises ValueError like numpy on ragged input."""
    if isinstance(o, np.ndarray):
        return o.shape
    if isinstance(o, (list, tuple)):
        shapes = [shape_of(x) for x in o]
        if not shapes:
            return (0,)
        if any(s != shapes[0] for s in shapes):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous '
                             f'shape after 1 dimensions. The detected shape was ({len(shapes)},) + inhomogeneous part.')
        return (len(shapes),) + shapes[0]
    return ()


def flat(o):
    if isinstance(o, np.ndarray):
        yield from o.ravel().tolist() if o.dtype == object else (x for x in o.ravel().tolist())
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from flat(x)
    else:
        yield o


def infer_kind(vals):
    ks = set()
    for v in vals:
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, (SymBool, bool)):
            ks.add('b')
        elif isinstance(v, (SymInt, int)):
            ks.add('i')
        elif isinstance(v, (SymReal, float)):
            ks.add('f')
        elif isinstance(v, (str, SymStr)):
            ks.add('U')
        else:
            ks.add('O')
    if not ks:
        return 'f'
    if 'O' in ks:
        return 'O'
    if 'U' in ks:
        return 'U'
    for k in 'fib':
        if k in ks:
            return k


class SymArray(np.ndarray):
    _k = 'f'

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', 'f')

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        out = np.asarray(arr)
        if out.shape == ():
            return out.item()
        return wrap(out)

    @property
    def kind(self):
        return self._k

    def __getitem__(self, key):
        key = fixkey(key)
        r = np.ndarray.__getitem__(self, key)
        if isinstance(r, np.ndarray) and r.dtype == object and self._k == 'V':
            r._k = 'f'
        return r

    def __setitem__(self, key, value):
        key = fixkey(key)
        target = np.ndarray.__getitem__(self, key)
        base = self.view(np.ndarray)
        if self._k == 'V' and not (isinstance(target, np.ndarray) and target.dtype == object):
            if isinstance(value, np.ndarray):
                base[key] = value.view(np.ndarray)
            else:
                base[key] = conv_struct(value)
            return
        k = 'f' if self._k == 'V' else self._k
        if k == 'O':
            base[key] = value
            return
        if not isinstance(target, np.ndarray):
            if isinstance(value, np.ndarray) and value.size == 1:
                value = value.ravel().tolist()[0]
            base[key] = conv_scalar(value, k)
            return
        v = build(value, k)
        base[key] = v.view(np.ndarray) if isinstance(v, np.ndarray) else v

    @property
    def dtype_(self):
        return self._k

    def astype(self, dt, *a, **kw):
        return build(self, kind_of_dtype(dt))

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def item(self, *a):
        return np.ndarray.item(self.view(np.ndarray), *a)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, np.ndarray)):
            shape = tuple(shape[0])
        shape = tuple(s.__index__() for s in shape)
        return np.ndarray.reshape(self, shape, **kw)

    def dot(self, o):
        return NP.dot(self, o)

    def sum(self, *a, **kw):
        return NP.sum(self, *a, **kw)

    def mean(self, *a, **kw):
        return NP.mean(self, *a, **kw)

    def all(self, *a, **kw):
        return NP.all(self, *a, **kw)

    def any(self, *a, **kw):
        return NP.any(self, *a, **kw)

    def round(self, d=0, out=None):
        return build([round(x, d) for x in self.ravel().tolist()], 'f').reshape(self.shape)

    def __matmul__(self, o):
        return NP.dot(self, o)

    def __rmatmul__(self, o):
        return NP.dot(o, self)

    def __eq__(self, o):
        return _cmp(self, o, lambda a, b: a == b)

    def __ne__(self, o):
        return _cmp(self, o, lambda a, b: a != b)

    __hash__ = None

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel().tolist()[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __truediv__(self, o):
        return _arith(self, o, lambda a, b: a / b)

    def __reduce__(self):
        unmodelled('pickling an array')

    def __deepcopy__(self, memo):
        return self.copy()


def _arith(a, b, f):
    A, B = np.broadcast_arrays(a.view(np.ndarray), _raw(b), subok=False)
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        out[i] = f(_tofloat(A[i]), B[i])
    return wrap(out, 'f')


def _tofloat(x):
    if isinstance(x, SymInt):
        return mkreal(z3.ToReal(x.z))
    return x


def _raw(b):
    if isinstance(b, np.ndarray):
        return b.view(np.ndarray)
    if isinstance(b, (list, tuple)):
        return build(b).view(np.ndarray)
    o = np.empty((), dtype=object)
    o[()] = b
    return o


def _cmp(a, b, f):
    try:
        A, B = np.broadcast_arrays(a.view(np.ndarray), _raw(b), subok=False)
    except ValueError:
        return False
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        out[i] = f(A[i], B[i])
    return wrap(out, 'b') if out.shape else out.item()


def conv_struct(v):
    if isinstance(v, (list, tuple)):
        return tuple(conv_struct(x) for x in v)
    if isinstance(v, np.ndarray):
        return v.view(np.ndarray)
    return conv_scalar(v, 'f')


def fixkey(key):
    if isinstance(key, SymInt):
        return key.__index__()
    if isinstance(key, SymStr):
        return key.conc()
    if isinstance(key, tuple):
        return tuple(fixkey(k) for k in key)
    if isinstance(key, slice):
        return slice(*[x.__index__() if isinstance(x, SymInt) else x for x in (key.start, key.stop, key.step)])
    if isinstance(key, SymArray):
        if key._k == 'b':
            return np.array([bool(x) for x in key.ravel().tolist()], dtype=bool).reshape(key.shape)
        if key._k == 'i':
            return np.array([x.__index__() for x in key.ravel().tolist()], dtype=int).reshape(key.shape)
    return key


def wrap(a, k=None):
    """Any ndarray -> SymArray."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            r = a.view(SymArray)
            r._k = k or infer_kind(a.ravel().tolist())
            return r
        if a.dtype.names:
            r = a.view(SymArray)
            r._k = 'V'
            return r
        kk = kind_of_dtype(a.dtype)
        r = a.astype(object).view(SymArray)
        r._k = k or kk
        return r
    return a


def build(o, k=None):
    """np.array(o, dtype=k)."""
    if isinstance(o, SymArray) and (k is None or k == o._k):
        return o.copy()
    if not isinstance(o, (list, tuple, np.ndarray)):
        if hasattr(o, '__iter__') and not isinstance(o, (str, SymStr, dict)):
            o = list(o) if not isinstance(o, (types.GeneratorType, map, filter, zip)) else o
        if not isinstance(o, list):
            kk = k or infer_kind([o])
            out = np.empty((), dtype=object)
            out[()] = conv_scalar(o, kk)
            return wrap(out, kk)
    shape = shape_of(o)
    vals = list(flat(o))
    kk = k or (o._k if isinstance(o, SymArray) else infer_kind(vals))
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = conv_scalar(v, kk)
    return wrap(out.reshape(shape), kk)


def tok_fromstring(s, k):
    """numpy.fromstring(text, sep=' ') on symbolic text."""
    out = []
    toks = s.split()
    for t in toks:
        try:
            out.append(to_float(t) if k == 'f' else to_int(t))
        except ValueError:
            # numpy keeps the leading number of a malformed token, then stops
            head = _leading(t, k)
            if head is not None:
                out.append(head)
            break
    return out


def _leading(t, k):
    els = t.fixed() if isinstance(t, SymStr) else list(t)
    best = None
    from .strs import mk
    for n in range(len(els), 0, -1):
        try:
            return to_float(mk(els[:n])) if k == 'f' else to_int(mk(els[:n]))
        except ValueError:
            continue
    return best


def native_of(o):
    """Concrete SymArrays back to native arrays."""
    if isinstance(o, SymArray):
        if o._k == 'V':
            return o.view(np.ndarray)
        if o._k in 'fib':
            return np.array(o.view(np.ndarray).tolist(), dtype={'f': float, 'i': int, 'b': bool}[o._k]).reshape(o.shape)
        return o.view(np.ndarray)
    if isinstance(o, list):
        return [native_of(x) for x in o]
    if isinstance(o, tuple):
        return tuple(native_of(x) for x in o)
    return o


def any_sym(o):
    if isinstance(o, SymArray):
        return o._k == 'V' or any(isinstance(x, (SymNum, SymStr, SymBool)) for x in o.ravel().tolist())
    if isinstance(o, (list, tuple)):
        return any(any_sym(x) for x in o)
    return isinstance(o, (SymNum, SymStr, SymBool))


STRUCTURAL = {
    'transpose', 'swapaxes', 'moveaxis', 'squeeze', 'expand_dims', 'ravel', 'concatenate', 'stack', 'vstack', 'hstack',
    'dstack', 'column_stack', 'row_stack', 'split', 'array_split', 'vsplit', 'hsplit', 'dsplit', 'append', 'flip', 'roll', 'rollaxis', 'tile', 'repeat',
    'broadcast_to', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'delete', 'insert', 'diag', 'diagonal', 'trace', 'outer',
    'take', 'copy', 'flatten', 'cross', 'inner', 'multiply', 'add', 'subtract', 'negative', 'cumsum', 'prod',
    'fliplr', 'flipud', 'tensordot', 'kron', 'triu', 'tril', 'ndim', 'shape', 'size', 'resize', 'diff', 'block', 'rot90', 'vdot', 'square',
    'maximum', 'minimum', 'sort', 'max', 'min', 'amax', 'amin', 'argmax', 'argmin', 'argsort'
}


def _adj(M):
    m = M
    c = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [x for x in range(3) if x != j]
            s = [x for x in range(3) if x != i]
            v = m[r[0]][s[0]] * m[r[1]][s[1]] - m[r[0]][s[1]] * m[r[1]][s[0]]
            c[i][j] = v if (i + j) % 2 == 0 else -v
    return c


def det3(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) +
            M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def inv3(M):
    d = det3(M)
    if isinstance(d, SymNum):
        if core.CTX.branch(z3.simplify(zreal(d), som=True) == 0):
            raise np.linalg.LinAlgError('Singular matrix')
        r = core.CTX.fresh('invdet', 'real')
        core.CTX.add(r * zreal(d) == 1)
        core.CTX.model = None
        r = SymReal(r)
        core.CTX.__dict__.setdefault('invdets', []).append((r, d))
        A = _adj(M)
        return build([[A[i][j] * r for j in range(3)] for i in range(3)], 'f')
    if d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    from fractions import Fraction
    F = [[core.frac_of(x) if not isinstance(x, SymNum) else x for x in row] for row in M]
    A = _adj(F)
    D = det3(F)
    out = []
    for i in range(3):
        row = []
        for j in range(3):
            a = A[i][j]
            if isinstance(a, SymNum):
                row.append(mkreal(zreal(a) / zreal(D)))
            else:
                f = a / D
                v = float(f)
                row.append(v if core.frac_of(v) == f else SymReal(z3.RealVal(f)))
        out.append(row)
    return build(out, 'f')


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def inv(self, M):
        M = build(M, 'f')
        if M.shape != (3, 3):
            if not any_sym(M):
                return wrap(np.linalg.inv(native_of(M)))
            unmodelled('inverse of a non 3x3 matrix')
        return inv3(M.tolist())

    def det(self, M):
        M = build(M, 'f')
        if M.shape != (3, 3):
            if not any_sym(M):
                return float(np.linalg.det(native_of(M)))
            unmodelled('det of a non 3x3 matrix')
        return det3(M.tolist())

    def solve(self, M, b):
        return NP.dot(self.inv(M), build(b, 'f'))

    def norm(self, v, *a, **k):
        v = build(v, 'f')
        if not any_sym(v):
            r = np.linalg.norm(native_of(v), *a, **k)
            return wrap(r) if isinstance(r, np.ndarray) else float(r)
        axis = k.get('axis')
        if axis is not None and not a and set(k) == {'axis'} and v.ndim == 2 and isinstance(axis, int):
            rows = v if axis in (1, -1) else v.T
            return build([self.norm(r) for r in rows], 'f')
        if v.ndim != 1 or a or k:
            unmodelled('matrix norm')
        s = 0.0
        for x in v.tolist():
            s = s + x * x
        return core.sym_root(s, 2)

    def __getattr__(self, n):
        return _generic('linalg.' + n, getattr(np.linalg, n))


def _generic(name, fn):
    def call(*a, **k):
        if k.get('dtype') is not None:
            k['dtype'] = BT.get(k['dtype'], k['dtype'])
        if any(any_sym(x) for x in a) or any(any_sym(x) for x in k.values()):
            unmodelled(f'numpy.{name} on symbolic data')
        r = fn(*[native_of(x) for x in a], **{n: native_of(v) for n, v in k.items()})
        return rewrap(r)
    return call


def rewrap(r, k=None):
    if isinstance(r, np.ndarray):
        return r.item() if r.shape == () and not r.dtype.names else wrap(r, k)
    if isinstance(r, list):
        return [rewrap(x, k) for x in r]
    if isinstance(r, tuple):
        return tuple(rewrap(x, k) for x in r)
    if isinstance(r, np.generic) and not isinstance(r, np.void):
        return r.item()
    return r


def _structural(name, fn):
    def call(*a, **k):
        k.pop('dtype', None)
        conv = []
        kind = None
        for x in a:
            if isinstance(x, SymArray):
                kind = _join(kind, x._k)
                conv.append(x.view(np.ndarray))
            elif isinstance(x, (list, tuple)) and any(isinstance(y, (SymArray, SymNum, SymStr)) or isinstance(y, (list, tuple)) for y in x):
                if name in ('concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack', 'block'):
                    parts = [build(y) for y in x]
                    for p in parts:
                        kind = _join(kind, p._k)
                    conv.append([p.view(np.ndarray) for p in parts])
                else:
                    b = build(x)
                    kind = _join(kind, b._k)
                    conv.append(b.view(np.ndarray))
            elif isinstance(x, SymInt):
                conv.append(x.__index__())
            elif isinstance(x, (SymNum, SymStr)):
                b = build(x)
                kind = _join(kind, b._k)
                conv.append(b.view(np.ndarray))
            elif isinstance(x, (list, tuple)) and name in ('append', 'concatenate', 'cross', 'inner', 'outer', 'ravel'):
                b = build(list(x))
                kind = _join(kind, b._k)
                conv.append(b.view(np.ndarray))
            else:
                conv.append(x)
        if any(isinstance(x, np.ndarray) and x.dtype == object for x in conv):
            conv = [x.astype(object) if isinstance(x, np.ndarray) and x.dtype != object and not x.dtype.names else x
                    for x in conv]
        if kind in ('i', None) and name.startswith('arg'):
            kind = 'i'
        r = fn(*conv, **{n: (v.__index__() if isinstance(v, SymInt) else v) for n, v in k.items()})
        return rewrap(r, kind if kind != 'V' else None)
    return call


def _join(a, b):
    if a is None or a == b:
        return b
    s = {a, b}
    if 'O' in s:
        return 'O'
    if 'U' in s:
        return 'U'
    return 'f' if 'f' in s else 'i'


class _NP:
    ndarray = SymArray
    newaxis = None
    pi = np.pi
    e = np.e
    inf = np.inf
    nan = np.nan
    linalg = _Linalg()
    float64 = np.float64
    generic = np.generic

    def zeros(self, shape, dtype=None, order='C', **kw):
        return self.full(shape, 0, dtype)

    def empty(self, shape, dtype=None, order='C', **kw):
        return self.full(shape, 0, dtype)

    def ones(self, shape, dtype=None, order='C', **kw):
        return self.full(shape, 1, dtype)

    def full(self, shape, v, dtype=None, **kw):
        shape = tuple(fixkey(s) for s in shape) if isinstance(shape, (tuple, list, np.ndarray)) else (fixkey(shape), )
        k = kind_of_dtype(dtype)
        if k == 'V':
            a = np.zeros(shape, dtype)
            for n in dtype.names:
                a[n] = 0.0 if v == 0 else v
            return wrap(a)
        a = np.empty(shape, dtype=object)
        v = v if k == 'O' and v else conv_scalar(v, 'f' if k == 'O' else k) if k != 'U' else ''
        for i in np.ndindex(*shape):
            a[i] = v
        return wrap(a, k)

    def zeros_like(self, a, dtype=None, **kw):
        return self.full(np.shape(a), 0, dtype if dtype is not None else ('f' if getattr(a, '_k', 'f') not in 'ib' else a._k))

    def empty_like(self, a, dtype=None, **kw):
        return self.zeros_like(a, dtype)

    def ones_like(self, a, dtype=None, **kw):
        return self.full(np.shape(a), 1, dtype if dtype is not None else getattr(a, '_k', 'f'))

    def full_like(self, a, v, dtype=None, **kw):
        return self.full(np.shape(a), v, dtype if dtype is not None else getattr(a, '_k', 'f'))

    def array(self, o, dtype=None, copy=True, **kw):
        if dtype is not None and kind_of_dtype(dtype) == 'V':
            if any_sym(o):
                a = np.zeros(len(o), dtype)
                r = wrap(a)
                for i, x in enumerate(o):
                    r[i] = tuple(x)
                return r
            return wrap(np.array(o, dtype))
        r = build(o, kind_of_dtype(dtype) if dtype is not None else None)
        nd = kw.get('ndmin', 0)
        while r.ndim < nd:
            r = r[None]
        return r

    def asarray(self, o, dtype=None, **kw):
        if isinstance(o, SymArray) and (dtype is None or kind_of_dtype(dtype) == o._k):
            return o
        return self.array(o, dtype)

    def cross(self, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        a, b = build(a), build(b)
        if a.shape[-1:] != (3, ) or b.shape[-1:] != (3, ) or {axisa, axisb, axisc} != {-1} or axis not in (None, -1):
            unmodelled('cross product of other than 3-vectors along the last axis')
        k = _join(a._k, b._k)
        a, b = (np.asarray(x.view(np.ndarray)).astype(object) for x in (a, b))
        a, b = np.broadcast_arrays(a, b)
        out = np.empty(a.shape, dtype=object)
        for i in range(3):
            j, l = (i + 1) % 3, (i + 2) % 3
            out[..., i] = a[..., j] * b[..., l] - a[..., l] * b[..., j]
        return wrap(out, k)

    asanyarray = asarray
    ascontiguousarray = asarray
    asfortranarray = asarray

    def fromiter(self, it, dtype=None, count=-1):
        return self.array(list(it), dtype)

    def fromstring(self, s, dtype=None, count=-1, sep=''):
        k = kind_of_dtype(dtype)
        if not isinstance(s, (str, SymStr)):
            raise TypeError('fromstring: a string is required')
        if sep.strip():
            unmodelled('fromstring with a non-blank separator')
        if not isinstance(s, SymStr):
            r = np.fromstring(s, dtype=BT.get(dtype, dtype) or float, count=count, sep=sep)
            return wrap(r)
        v = tok_fromstring(s, k)
        count = fixkey(count)
        if count >= 0:
            v = v[:count]
        return build(v, k)

    def dtype(self, spec, **kw):
        if isinstance(spec, list):
            out = []
            for f in spec:
                f = list(f)
                b = BT.get(f[1], f[1])
                f[1] = object if b in (float, int, 'f8', 'float64', 'd', 'float', np.float64) else b
                out.append(tuple(f))
            return np.dtype(out)
        return np.dtype(BT.get(spec, spec) if isinstance(spec, type) else spec)

    def dot(self, a, b):
        a = a if isinstance(a, np.ndarray) else build(a)
        b = b if isinstance(b, np.ndarray) else build(b)
        r = np.dot(a.view(np.ndarray), b.view(np.ndarray))
        return rewrap(r, _join(getattr(a, '_k', 'f'), getattr(b, '_k', 'f')))

    def matmul(self, a, b):
        if max(np.ndim(a), np.ndim(b)) > 2:
            unmodelled('matmul of stacks of matrices')
        return self.dot(a, b)

    def reshape(self, a, shape=None, order='C', newshape=None, **kw):
        a = a if isinstance(a, np.ndarray) else build(a)
        a = a if isinstance(a, SymArray) else wrap(a)
        shape = newshape if shape is None else shape
        if not isinstance(shape, (tuple, list, np.ndarray)):
            shape = (shape, )
        return a.reshape(*shape, order=order)

    def arange(self, *a, **k):
        if any(isinstance(x, SymNum) and not isinstance(x, SymInt) for x in a):
            unmodelled('arange of symbolic reals')
        k['dtype'] = BT.get(k.get('dtype'), k.get('dtype'))
        return rewrap(np.arange(*[fixkey(x) for x in a], **k))

    def divide(self, a, b):
        a = a if isinstance(a, SymArray) else build(a)
        r = a / (b if isinstance(b, np.ndarray) else build(b))
        return r if r.shape else r.item()
    true_divide = divide

    def logical_and(self, a, b):
        return self._map2(a, b, lambda x, y: bool(x) and bool(y))

    def logical_or(self, a, b):
        return self._map2(a, b, lambda x, y: bool(x) or bool(y))

    def greater(self, a, b):
        return self._map2(a, b, lambda x, y: x > y)

    def less(self, a, b):
        return self._map2(a, b, lambda x, y: x < y)

    def equal(self, a, b):
        return self._map2(a, b, lambda x, y: x == y)

    def not_equal(self, a, b):
        return self._map2(a, b, lambda x, y: x != y)

    def count_nonzero(self, a, axis=None, **kw):
        if axis is not None or kw:
            unmodelled('count_nonzero options')
        return sum(1 for x in flat(a) if x)

    def clip(self, a, lo, hi, **kw):
        def f(x):
            if lo is not None and x < lo:
                return lo
            return hi if hi is not None and x > hi else x
        return self._map1(a, f)

    def rint(self, a):
        return self._map1(a, lambda x: round(x, 0))

    def array_equiv(self, a, b):
        return self.all(self.equal(a, b))

    def savetxt(self, f, a, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **kw):
        if not hasattr(f, 'write') or not isinstance(fmt, str):
            unmodelled('savetxt to a path or with a list of formats')
        from . import loader
        a = build(a)
        a = a if a.ndim == 2 else a.reshape(-1, 1)
        if header:
            f.write(comments + header.replace('\n', '\n' + comments) + newline)
        for row in a:
            row = row.tolist()
            if fmt.count('%') == 1:
                parts = [loader.sx_mod(fmt, (x, )) for x in row]
            else:
                parts = [loader.sx_mod(fmt, tuple(row))]
            for i, p in enumerate(parts):
                if i:
                    f.write(delimiter)
                f.write(p)
            f.write(newline)
        if footer:
            f.write(comments + footer.replace('\n', '\n' + comments) + newline)

    def loadtxt(self, f, dtype=float, comments='#', delimiter=None, converters=None, skiprows=0, usecols=None,
                unpack=False, ndmin=0, encoding=None, max_rows=None, quotechar=None, like=None):
        from . import loader
        k = kind_of_dtype(dtype)
        if converters is not None or quotechar is not None or like is not None or k not in ('f', 'i') or \
                not (comments is None or isinstance(comments, str)):
            unmodelled('loadtxt options')
        opened = None
        if not hasattr(f, '__iter__') or isinstance(f, (str, SymStr)):
            f = opened = loader.sx_open(f)
        rows = []
        lines = iter(f)
        try:
            for _ in range(skiprows):
                next(lines, None)
            while max_rows is None or len(rows) < max_rows:
                line = next(lines, None)
                if line is None:
                    break
                if comments:
                    line = line.split(comments, 1)[0]
                toks = line.split(delimiter) if delimiter is None or line.strip() else []
                if not toks:
                    continue
                if usecols is not None:
                    cols = [usecols] if isinstance(usecols, int) else list(usecols)
                    if any(not -len(toks) <= c < len(toks) for c in cols):
                        raise ValueError('invalid column index')
                    toks = [toks[c] for c in cols]
                elif rows and len(toks) != len(rows[0]):
                    raise ValueError('the number of columns changed')
                try:
                    rows.append([to_float(t) if k == 'f' else to_int(t) for t in toks])
                except ValueError:
                    if k == 'i':
                        unmodelled('loadtxt of integers from other text')
                    raise ValueError('could not convert string to float') from None
        finally:
            if opened is not None:
                opened.close()
        if not rows:
            unmodelled('loadtxt without data')
        a = build(rows, k)
        if ndmin < 2 and (a.shape[0] == 1 or a.shape[1] == 1):
            a = a.reshape(-1)
            if a.shape == (1, ) and ndmin == 0:
                a = a.reshape(())
        return a.T if unpack else a

    def einsum(self, spec, *ops):
        ops = [(o if isinstance(o, np.ndarray) else build(o)).view(np.ndarray) for o in ops]
        return rewrap(np.einsum(spec, *ops))

    def sum(self, a, axis=None, **kw):
        a = a if isinstance(a, np.ndarray) else build(a)
        r = np.add.reduce(a.view(np.ndarray), axis=axis) if axis is not None else _tot(a.ravel().tolist())
        return rewrap(r, a._k if a._k != 'b' else 'i')

    def mean(self, a, axis=None, **kw):
        a = a if isinstance(a, np.ndarray) else build(a)
        n = a.size if axis is None else a.shape[axis]
        return self.sum(a, axis) / n

    average = mean

    def _along(self, f, a, axis):
        a = a if isinstance(a, SymArray) else build(a)
        raw = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(raw.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(list(raw[i]))
        return wrap(out, 'b') if out.shape else out.item()

    def all(self, a, axis=None, **kw):
        if axis is not None:
            return self._along(self.all, a, axis)
        for x in flat(a if isinstance(a, (np.ndarray, list, tuple)) else [a]):
            if not x:
                return False
        return True

    def any(self, a, axis=None, **kw):
        if axis is not None:
            return self._along(self.any, a, axis)
        for x in flat(a if isinstance(a, (np.ndarray, list, tuple)) else [a]):
            if x:
                return True
        return False

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **kw):
        return self.all(self.isclose(a, b, rtol, atol))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **kw):
        A, B = np.broadcast_arrays(_raw(a), _raw(b), subok=False)
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(*A.shape):
            x, y = A[i], B[i]
            if not isinstance(x, SymNum) and not isinstance(y, SymNum):
                out[i] = bool(np.isclose(x, y, rtol, atol))
            else:
                d, m = zreal(x - y), zreal(y)
                ay = z3.If(m < 0, -m, m)
                t = core.rv(atol) + core.rv(rtol) * ay
                out[i] = core.mkbool(z3.And(d <= t, -d <= t))
        return wrap(out, 'b') if out.shape else out.item()

    def array_equal(self, a, b, **kw):
        a, b = build(a), build(b)
        if a.shape != b.shape:
            return False
        return self.all(a == b)

    def abs(self, a, **kw):
        return self._map1(a, abs)
    absolute = abs
    fabs = abs

    def sqrt(self, a, **kw):
        return self._map1(a, lambda x: core.sym_root(x, 2) if isinstance(x, SymNum) else float(np.sqrt(x)))

    def cbrt(self, a, **kw):
        def f(x):
            if not isinstance(x, SymNum):
                return float(np.cbrt(x))
            if core.CTX.branch(zreal(x) < 0):
                return -core.sym_root(-x, 3)
            return core.sym_root(x, 3)
        return self._map1(a, f)

    def power(self, a, b):
        return self._map1(a, lambda x: x ** b)

    def sign(self, a):
        def f(x):
            return 0.0 if x == 0 else (1.0 if x > 0 else -1.0)
        return self._map1(a, f)

    def round(self, a, decimals=0, **kw):
        return self._map1(a, lambda x: round(x, decimals))
    around = round
    round_ = round

    def floor(self, a):
        return self._map1(a, lambda x: x // 1.0)

    def ceil(self, a):
        return self._map1(a, lambda x: -((-x) // 1.0))

    def mod(self, a, b):
        return self._map1(a, lambda x: x % b)
    remainder = mod

    def isnan(self, a):
        return self._map1(a, lambda x: False if isinstance(x, SymNum) else bool(np.isnan(x)), 'b')

    def isfinite(self, a):
        return self._map1(a, lambda x: True if isinstance(x, SymNum) else bool(np.isfinite(x)), 'b')

    def isinf(self, a):
        return self._map1(a, lambda x: False if isinstance(x, SymNum) else bool(np.isinf(x)), 'b')

    def logical_not(self, a):
        return self._map1(a, lambda x: not x, 'b')

    def where(self, c, *ab):
        c = build(c, 'b')
        mask = np.array([bool(x) for x in c.ravel().tolist()], dtype=bool).reshape(c.shape)
        if not ab:
            return rewrap(np.where(mask))
        return rewrap(np.where(mask, _raw(ab[0]), _raw(ab[1])))

    def nonzero(self, a):
        return self.where(a)

    def unique(self, a, **kw):
        if any_sym(a) or kw:
            if kw:
                unmodelled('np.unique options')
            out = []
            for x in sorted(flat(a)):
                if not out or not (out[-1] == x):
                    out.append(x)
            return build(out)
        return rewrap(np.unique(native_of(a)))

    def array_repr(self, *a):
        return '<array>'

    def iscomplexobj(self, a):
        return False

    def isscalar(self, a):
        return isinstance(a, (SymNum, SymStr)) or np.isscalar(a)

    def _map2(self, a, b, f):
        A, B = np.broadcast_arrays(_raw(a), _raw(b), subok=False)
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(*A.shape):
            out[i] = f(A[i], B[i])
        return wrap(out, 'b') if out.shape else out.item()

    def _map1(self, a, f, k=None):
        if not isinstance(a, (np.ndarray, list, tuple)):
            return f(a)
        a = a if isinstance(a, SymArray) else build(a)
        vals = [f(x) for x in a.ravel().tolist()]
        out = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
        return wrap(out.reshape(a.shape), k or a._k)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)
        if name in STRUCTURAL:
            return _structural(name, v)
        if isinstance(v, type) or not callable(v):
            return v
        return _generic(name, v)


def _tot(vals):
    t = vals[0] if vals else 0.0
    for v in vals[1:]:
        t = t + v
    return t


NP = _NP()
