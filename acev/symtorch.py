"""Stand-in for the torch module whose tensors are symbolic values (tens.TV).

Every function here is the *contract* of the torch function of the same name: exact algebra for
contractions and element-wise arithmetic, and the defining equations of the factorisations
(QR, SVD, eigh, Cholesky, inverse) as rewriting facts attached to fresh function symbols.
Anything that is not modelled raises Unsupported.
"""
from fractions import Fraction
import math
import types
import z3
from . import tens as T
from .core import (SymInt, SymRat, SymBool, Unsupported, CTX, ikey, ieq, ile, imin, imax, ifun, z3i, zb, idiv_exact)
from .tens import TV, ShapeError


# ------------------------------------------------------------------ dtypes, devices

class dtype:
    def __init__(self, name, is_complex=False, is_floating_point=True, rank=0):
        self.name, self.is_complex, self.is_floating_point, self.rank = name, is_complex, is_floating_point, rank

    def __repr__(self):
        return 'torch.' + self.name

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def to_real(self):
        return {'complex128': float64, 'complex64': float32}.get(self.name, self)


float64 = dtype('float64', rank=3)
float32 = dtype('float32', rank=2)
complex128 = dtype('complex128', True, False, 5)
complex64 = dtype('complex64', True, False, 4)
_NARROW = (float32, complex64)
int64 = dtype('int64', False, False, 1)
int32 = dtype('int32', False, False, 1)
bool_ = dtype('bool', False, False, 0)


class device:
    def __init__(self, type='cpu', index=None):
        if isinstance(type, device):
            index, type = type.index, type.type
        if isinstance(type, str) and ':' in type:
            type, i = type.split(':')
            index = int(i)
        self.type, self.index = type, index

    def __eq__(self, o):
        if isinstance(o, str):
            o = device(o)
        return isinstance(o, device) and (self.type, self.index) == (o.type, o.index)

    def __hash__(self):
        return hash((self.type, self.index))

    def __repr__(self):
        return f"device(type='{self.type}')" if self.index is None else f"device(type='{self.type}', index={self.index})"

    def __deepcopy__(self, memo):
        return self


CPU = device('cpu')


def as_device(d):
    return CPU if d is None else d if isinstance(d, device) else device(d)


def promote(a, b):
    if a is b:
        return a
    r = a if a.rank >= b.rank else b
    o = b if r is a else a
    if r is complex64 and o is float64:
        return complex128
    return r


promote_types = promote


def _cat(d):
    return 3 if d.is_complex else 2 if d.is_floating_point else 0 if d is bool_ else 1


def result_type(a, b):
    """dtype of an elementwise operation on two tensors: a 0-d operand counts only when its category is higher."""
    x, y = a.dtype, b.dtype
    if x is y:
        return x
    da, db = len(a._sh) > 0 and not a._weak, len(b._sh) > 0 and not b._weak
    if a._weak != b._weak and da == db:
        da, db = not a._weak, not b._weak
    if da == db:
        return promote(x, y)
    if db:
        x, y = y, x
    if _cat(y) <= _cat(x):
        return x
    if y.is_complex and x.is_floating_point:
        return complex64 if x.rank < float64.rank else complex128
    return y


# ------------------------------------------------------------------ tensors

class Storage:
    __slots__ = ('_tv', 'version', 'birth', 'log', 'acc')

    def __init__(self, tv):
        self._tv = tv
        self.version = 0
        self.birth = _tick()
        self.log = None
        self.acc = None

    def get(self):
        fr = active_frames()
        if fr:
            for f in fr:
                f.read(self)
        return self._tv

    def set(self, tv, op):
        for f in active_frames():
            f.touch(self, op)
        self._tv = tv
        self.version += 1

    # frame protocol
    def _snap(self):
        return self._tv

    def _restore(self, s):
        self._tv = s
        self.version += 1


_clock = [0]


def _tick():
    _clock[0] += 1
    return _clock[0]


def active_frames():
    c = CTX()
    return c.data.get('frames', ()) if c is not None else ()


def norm_slice(sl, n):
    if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
        raise Unsupported('strided slice')

    def bound(b, default):
        if b is None:
            return default
        b = _int(b)
        if isinstance(b, int) and b < 0:
            b = n + b
        elif not isinstance(b, int) and not ile(0, b):
            if bool(b < 0):
                b = n + b
        return imax(0, imin(b, n))
    lo, hi = bound(sl.start, 0), bound(sl.stop, n)
    if not ile(lo, hi):
        hi = imax(lo, hi)
    return lo, hi


def _int(x):
    if isinstance(x, STensor):
        if x.int_ is not None:
            return x.int_
        raise Unsupported('tensor used as an index')
    if isinstance(x, bool) or not isinstance(x, (int, SymInt)):
        if isinstance(x, bool):
            return int(x)
        raise Unsupported(f'index of type {type(x).__name__}')
    return x


class STensor:
    __hash__ = object.__hash__

    def __init__(self, tv, dt, dev=CPU, storage=None, ops=(), int_=None):
        self._st = storage if storage is not None else Storage(tv)
        self._ops = ops
        self.dtype = dt
        self.device = dev
        self._cache = None
        self.int_ = int_
        self._grad = False
        self._weak = False      # a Python number: never decides the precision of a result
        self._sh = tuple(tv.shape) if tv is not None else None
        self.birth = _tick()

    # -- value
    @property
    def tv(self):
        base = self._st.get()
        if not self._ops:
            return base
        if self._cache is not None and self._cache[0] == self._st.version:
            return self._cache[1]
        v = base
        for o in self._ops:
            v = _apply(o, v)
        self._cache = (self._st.version, v)
        return v

    def _view(self, op, shape):
        r = STensor(None, self.dtype, self.device, self._st, self._ops + (op,))
        r._sh = tuple(shape)
        return r

    def _write(self, tv, op=('set',)):
        base = self._st._tv if self._ops else None
        if not self._ops:
            self._st.set(tv, op)
            return
        stack = [base]
        for o in self._ops[:-1]:
            stack.append(_apply(o, stack[-1]))
        v = tv
        for o, b in zip(reversed(self._ops), reversed(stack)):
            v = _scatter(o, b, v)
        self._st.set(v, (op[0], self._ops, tv) + tuple(op[1:]))

    @property
    def shape(self):
        return Size(self._sh)

    @property
    def ndim(self):
        return len(self._sh)

    def dim(self):
        return len(self._sh)

    def size(self, d=None):
        return Size(self._sh) if d is None else self._sh[d]

    def numel(self):
        r = 1
        for s in self._sh:
            r = r * s
        return r

    nelement = numel

    def __len__(self):
        if not self._sh:
            raise TypeError('len() of a 0-d tensor')
        n = self._sh[0]
        if isinstance(n, int):
            return n
        raise Unsupported('len() of a tensor with symbolic size')

    def __iter__(self):
        n = self._sh[0]
        if not isinstance(n, int):
            raise Unsupported('iteration over a symbolic axis')
        return iter([self[i] for i in range(n)])

    # -- indexing
    def _index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            i = next(i for i, k in enumerate(key) if k is Ellipsis)
            n = len(self._sh) - sum(1 for k in key if k is not Ellipsis and k is not None)
            key[i:i + 1] = [slice(None)] * n
        r = self
        ax = 0
        for k in key:
            if k is None:
                sh = list(r._sh)
                sh.insert(ax, 1)
                r = r._view(('reshape', tuple(r._sh), tuple(sh)), sh)
                ax += 1
                continue
            if ax >= len(r._sh):
                raise IndexError('too many indices for tensor')
            n = r._sh[ax]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    ax += 1
                    continue
                lo, hi = norm_slice(k, n)
                sh = list(r._sh)
                sh[ax] = hi - lo
                r = r._view(('slice', ax, lo, hi), sh)
                ax += 1
            else:
                i = _int(k)
                if isinstance(i, int) and i < 0:
                    i = n + i
                sh = list(r._sh)
                del sh[ax]
                r = r._view(('index', ax, i), sh)
        return r

    def __getitem__(self, key):
        return self._index(key)

    def __setitem__(self, key, val):
        r = self._index(key)
        if isinstance(val, STensor) and val._st is r._st and _ops_key(val._ops) == _ops_key(r._ops):
            return
        r._write(_expand_to(_cast(val, self.dtype), r._sh))

    # -- conversion
    def _like(self, tv, dt=None):
        return STensor(tv, dt or self.dtype, self.device)

    def to(self, *a, dtype=None, device=None, copy=False, **k):
        for x in a:
            if isinstance(x, globals()['dtype']):
                dtype = x
            elif isinstance(x, (globals()['device'], str)):
                device = x
            elif x is None:
                pass
            elif isinstance(x, STensor):
                dtype, device = x.dtype, x.device
            elif isinstance(x, int) and not isinstance(x, bool):
                device = globals()['device']('cuda', x)
            else:
                raise Unsupported('to()')
        dt = self.dtype if dtype is None else dtype
        dev = self.device if device is None else as_device(device)
        if dt is self.dtype and dev == self.device and not copy:
            return self
        tv = _cast(self, dt)
        return STensor(tv, dt, dev)

    def type(self, dt):
        return self.to(dt)

    def cpu(self):
        return self.to(device='cpu')

    def cuda(self, *a):
        return self.to(device='cuda')

    def double(self):
        return self.to(float64)

    def clone(self, **k):
        return STensor(self.tv, self.dtype, self.device)

    def detach(self):
        return self._view(('permute', tuple(range(len(self._sh)))), self._sh) if False else self._alias()

    def _alias(self):
        r = STensor(None, self.dtype, self.device, self._st, self._ops)
        r._sh = self._sh
        return r

    def contiguous(self):
        # may or may not share memory; torch shares it only for contiguous tensors
        if not any(o[0] in ('permute', 'slice', 'index') for o in self._ops):
            return self
        return STensor(self.tv, self.dtype, self.device)

    def requires_grad_(self, *a):
        return self

    @property
    def requires_grad(self):
        return False

    def is_contiguous(self):
        return not any(o[0] in ('permute', 'slice', 'index') for o in self._ops)

    def is_complex(self):
        return self.dtype.is_complex

    def is_floating_point(self):
        return self.dtype.is_floating_point

    def element_size(self):
        return 8

    def item(self):
        if self.int_ is not None:
            return self.int_
        if len(self._sh) and not ieq(self.numel(), 1):
            raise RuntimeError('item() of a tensor with more than one element')
        return STensor(T.TV((), reshape0(self.tv).terms), self.dtype, self.device)

    def _ints(self):
        """Entries of an integer vector made from known integers, as long as it has not been written since."""
        i = self.__dict__.get('ints')
        return i[1] if i is not None and i[0] == self._st.version and not self._ops else None

    def tolist(self):
        if self._sh and all(isinstance(s, int) for s in self._sh) and len(self._sh) == 1:
            v = self._ints()
            if v is not None:
                return list(v)
        raise Unsupported('tolist()')

    def __format__(self, spec):
        return '<tensor>'

    def __repr__(self):
        return f'STensor({[ikey(s) for s in self._sh]}, {self.dtype})'

    def __str__(self):
        return '<tensor>'

    # -- shape changes (views)
    def permute(self, *dims):
        if len(dims) == 1 and not isinstance(dims[0], (int, SymInt)):
            dims = tuple(dims[0])
        dims = tuple(_int(d) for d in dims)
        n = len(self._sh)
        if any(not isinstance(d, int) for d in dims):
            raise Unsupported('permutation depends on a symbolic value')
        dims = tuple(d % n if -n <= d < n else d for d in dims)
        if sorted(dims) != list(range(n)):
            raise ShapeError(f'permute {dims} of {n} axes')
        return self._view(('permute', dims), [self._sh[d] for d in dims])

    def transpose(self, a, b):
        n = len(self._sh)
        d = list(range(n))
        d[a % n], d[b % n] = d[b % n], d[a % n]
        return self.permute(d)

    swapaxes = transpose

    def t(self):
        return self.transpose(0, 1) if len(self._sh) == 2 else self

    @property
    def T(self):
        return self.permute(tuple(reversed(range(len(self._sh)))))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    @property
    def mH(self):
        return conj(self.transpose(-1, -2))

    @property
    def H(self):
        return conj(self.transpose(-1, -2))

    def adjoint(self):
        return self.mH

    def reshape(self, *shape):
        if len(shape) == 1 and not isinstance(shape[0], (int, SymInt, STensor)):
            shape = tuple(shape[0])
        shape = [_int(s) for s in shape]
        sh = T_infer(self._sh, shape)
        return self._view(('reshape', tuple(self._sh), tuple(sh)), sh)

    view = reshape

    def view_as(self, o):
        return self.reshape(o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        n = len(self._sh)
        e = end_dim % n
        s = start_dim % n
        p = 1
        for x in self._sh[s:e + 1]:
            p = p * x
        return self.reshape(*self._sh[:s], p, *self._sh[e + 1:])

    def ravel(self):
        return self.flatten()

    def unsqueeze(self, d):
        sh = list(self._sh)
        sh.insert(d % (len(sh) + 1), 1)
        return self.reshape(*sh)

    def squeeze(self, d=None):
        sh = list(self._sh)
        if d is None:
            sh = [s for s in sh if not ieq(s, 1)]
        elif ieq(sh[d], 1):
            del sh[d]
        return self.reshape(*sh)

    def narrow(self, dim, start, length):
        return self._index(tuple([slice(None)] * (dim % len(self._sh)) + [slice(start, start + length)]))

    def expand(self, *shape):
        if len(shape) == 1 and not isinstance(shape[0], (int, SymInt)):
            shape = tuple(shape[0])
        k = len(shape) - len(self._sh)
        shape = [self._sh[i - k] if isinstance(s, int) and s == -1 and i >= k else s for i, s in enumerate(shape)]
        return STensor(_expand_to(self.tv, shape), self.dtype, self.device)

    def split(self, split_size_or_sections, dim=0):
        return split(self, split_size_or_sections, dim)

    def chunk(self, chunks, dim=0): return chunk(self, chunks, dim)
    def unbind(self, dim=0): return unbind(self, dim)
    def roll(self, shifts, dims=None): return roll(self, shifts, dims)
    def expand_as(self, o): return self.expand(*o._sh)
    def type_as(self, o): return self.to(o.dtype)
    def cfloat(self): return self.to(complex64)
    def cdouble(self): return self.to(complex128)
    def float(self): return self.to(float32)
    def new_zeros(self, *a, dtype=None, device=None, **k): return zeros(*a, dtype=dtype or self.dtype, device=self.device if device is None else device)
    def new_ones(self, *a, dtype=None, device=None, **k): return ones(*a, dtype=dtype or self.dtype, device=self.device if device is None else device)
    def new_empty(self, *a, dtype=None, device=None, **k): return empty(*a, dtype=dtype or self.dtype, device=self.device if device is None else device)
    def new_full(self, size, x, dtype=None, device=None, **k): return full(size, x, dtype=dtype or self.dtype, device=self.device if device is None else device)
    def outer(self, o): return outer(self, o)
    def ger(self, o): return outer(self, o)
    def kron(self, o): return kron(self, o)
    def equal(self, o): return equal(self, o)
    def allclose(self, o, *a, **k): return allclose(self, o, *a, **k)
    def inverse(self): return inv(self)
    def pinverse(self, *a, **k): return pinv(self, *a, **k)
    def svd(self, *a, **k): return svd_old(self, *a, **k)
    def qr(self, *a, **k): return qr(self, *a, **k)
    def swapdims(self, a, b): return self.transpose(a, b)
    def ndimension(self): return len(self._sh)
    def isfinite(self): return Always(self, True)
    def isnan(self): return Always(self, False)
    def isinf(self): return Always(self, False)

    @property
    def is_cuda(self): return self.device.type == 'cuda'

    @property
    def data(self): return self._alias()

    def movedim(self, source, destination):
        return movedim(self, source, destination)

    moveaxis = movedim

    def unflatten(self, dim, sizes):
        return unflatten(self, dim, sizes)

    def select(self, dim, index):
        return select(self, dim, index)

    def vdot(self, o):
        return vdot(self, o)

    def mv(self, o):
        return mv(self, o)

    def diagonal(self, *a, **k):
        return diagonal(self, *a, **k)

    # -- arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, STensor):
            if self.int_ is not None and o.int_ is not None and f in (T.add, T.mul, T.sub):
                pass
            dt = result_type(self, o)
            dev = self.device
            if self.device != o.device:
                if len(o._sh) == 0:
                    pass
                elif len(self._sh) == 0:
                    dev = o.device
                else:
                    raise RuntimeError('Expected all tensors to be on the same device')
            b = o.tv
        elif isinstance(o, (int, float, complex, Fraction, SymInt, SymRat)):
            dt = (complex64 if self.dtype is float32 else complex128) if isinstance(o, complex) and not self.dtype.is_complex else self.dtype
            if isinstance(o, float) and not (dt.is_complex or dt.is_floating_point):
                dt = float32
            dev = self.device
            b = as_tv(o)
        elif isinstance(o, SymBool):
            raise Unsupported('arithmetic with a symbolic boolean')
        else:
            return NotImplemented
        a = self.tv
        r = STensor(f(b, a) if rev else f(a, b), dt, dev)
        r._weak = self._weak and (not isinstance(o, STensor) or o._weak)
        return r

    def __add__(self, o): return self._bin(o, T.add)
    def __radd__(self, o): return self._bin(o, T.add, True)
    def __sub__(self, o): return self._bin(o, T.sub)
    def __rsub__(self, o): return self._bin(o, T.sub, True)
    def __mul__(self, o): return self._bin(o, T.mul)
    def __rmul__(self, o): return self._bin(o, T.mul, True)
    def __truediv__(self, o): return self._bin(o, T.div)
    def __rtruediv__(self, o): return self._bin(o, T.div, True)
    def __neg__(self): return self._like(T.scale(self.tv, -1))
    def __pos__(self): return self

    def __pow__(self, n):
        if isinstance(n, (int, float)):
            return self._like(T.power(self.tv, Fraction(n)))
        raise Unsupported('tensor power')

    pow = __pow__
    add = __add__
    sub = __sub__
    mul = __mul__
    div = __truediv__
    multiply = __mul__
    divide = __truediv__

    def neg(self):
        return -self

    def __matmul__(self, o):
        if not isinstance(o, STensor):
            return NotImplemented
        return matmul(self, o)

    matmul = __matmul__
    mm = __matmul__
    bmm = __matmul__

    def dot(self, o):
        return einsum('a,a->', self, o)

    def _inplace(self, o, f, name):
        r = f(self, o)
        if r is NotImplemented:
            return r
        if _cat(r.dtype) > _cat(self.dtype):
            raise RuntimeError(f"result type {r.dtype} can't be cast to {self.dtype}")
        self._write(_expand_to(_cast(r, self.dtype), self._sh))
        return self

    def __iadd__(self, o):
        fr = [f for f in active_frames() if self._st.birth < f.start]
        if fr:
            # additive update of a tensor that outlives the loop
            add_ = _expand_to(as_tv(o), self._sh)
            v = add_
            shapes = _op_shapes(self._st._tv.shape, self._ops)
            for op, sh in zip(reversed(self._ops), reversed(shapes)):
                v = _scatter(op, T.filled(0, sh), v)
            for f in fr:
                f.accum(self._st, v)
            self._st._tv = T.add(self._st._tv, v)
            self._st.version += 1
            return self
        return self._inplace(o, lambda a, b: a + b, 'add')

    def __isub__(self, o):
        return self.__iadd__(-o)

    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b, 'mul')
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a / b, 'div')

    add_ = __iadd__
    sub_ = __isub__
    mul_ = __imul__
    div_ = __itruediv__

    def copy_(self, o):
        self._write(_expand_to(_cast(o, self.dtype), self._sh))
        v = o._ints() if isinstance(o, STensor) else None
        if v is not None and not self._ops and self.dtype is int64:
            self.ints = (self._st.version, v)
        return self

    def fill_(self, x):
        self._write(T.filled(x, self._sh))
        return self

    def zero_(self):
        return self.fill_(0)

    # -- reductions and elementwise functions
    def norm(self, p=None, dim=None, **k):
        return norm(self, p, dim, **k)

    def abs(self): return abs_(self)
    __abs__ = abs

    def max(self, *a, **k):
        if a or k:
            raise Unsupported('max over an axis')
        return max_(self)

    def min(self, *a, **k):
        if a or k:
            raise Unsupported('min over an axis')
        return -max_(-self)

    def amax(self, *a, **k):
        if a or k:
            raise Unsupported('amax over an axis')
        return max_(self)

    def sum(self, dim=None, **k):
        return sum_(self, dim, **k)

    def mean(self, *a, **k):
        d = a[0] if a else k.get('dim')
        d = range(len(self._sh)) if d is None else [d] if isinstance(d, int) else d
        return sum_(self, *a, **k) / math.prod(self._sh[i] for i in d)

    def trace(self):
        return einsum('aa->', self)

    def conj(self): return conj(self)
    def conj_physical(self): return conj(self)
    def resolve_conj(self): return self
    def sqrt(self): return sqrt(self)
    def rsqrt(self): return self._like(T.power(self.tv, Fraction(-1, 2)))
    def reciprocal(self): return 1 / self
    def square(self): return self * self
    def exp(self): return exp(self)

    @property
    def real(self): return real(self)

    @property
    def imag(self): return imag(self)

    def clamp(self, min=None, max=None):
        return clamp(self, min, max)

    clip = clamp

    def flip(self, *dims):
        return flip(self, dims[0] if len(dims) == 1 and not isinstance(dims[0], int) else dims)

    def diag(self): return diag(self)

    def numpy(self): raise Unsupported('numpy()')

    # -- comparisons
    def _cmp(self, o, op):
        if self.int_ is not None:
            v = o.int_ if isinstance(o, STensor) else o
            if isinstance(v, (int, SymInt)):
                a = self.int_
                return {'<': lambda: a < v, '<=': lambda: a <= v, '>': lambda: a > v, '>=': lambda: a >= v,
                        '==': lambda: a == v, '!=': lambda: a != v}[op]()
        if self._sh and not (all(isinstance(s, int) for s in self._sh) and self.numel() == 1):
            return BoolTensor(self, op, o)
        a = real_expr(self.tv)
        b = real_expr(as_tv(o))
        return SymBool({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        if not isinstance(o, (STensor, int, float, complex)):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if not isinstance(o, (STensor, int, float, complex)):
            return True
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self._cmp(0, '!='))

    def __index__(self):
        if self.int_ is not None and isinstance(self.int_, int):
            return self.int_
        raise Unsupported('symbolic tensor used as native integer')

    def __int__(self):
        raise Unsupported('int() of a symbolic tensor')

    def __float__(self):
        raise Unsupported('float() of a symbolic tensor')

    def __getattr__(self, name):
        if name.startswith('__') or name in ('mat', '_acev_list'):
            raise AttributeError(name)
        raise Unsupported(f'Tensor.{name} is not modelled')

    def __deepcopy__(self, memo):
        return STensor(self.tv, self.dtype, self.device)

    def __copy__(self):
        return self._alias()


class Size(tuple):
    def numel(self):
        r = 1
        for s in self:
            r = r * s
        return r

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))


class BoolTensor:
    """Result of an element-wise comparison; only its number of true entries is modelled."""

    def __init__(self, t, op, o):
        if len(t._sh) != 1:
            raise Unsupported('element-wise comparison of a tensor with several axes')
        self.t, self.op, self.o = t, op, o
        self._sh = t._sh
        self.shape = Size(t._sh)

    def sum(self, *a, **k):
        return count_true(self)

    def count_nonzero(self):
        return count_true(self)

    def __getattr__(self, name):
        raise Unsupported(f'boolean tensor .{name}')

    def __bool__(self):
        raise Unsupported('truth value of a boolean tensor')


def count_true(b):
    """Number of entries of a vector beyond a threshold.  A positive common factor is moved to the threshold, and counting a
    leading part of a descending vector is the minimum of its length and the count of the whole vector."""
    ctx = CTX()
    n = b._sh[0]
    tv = b.t.tv.simplify()
    o = as_tv(b.o)
    thr, x = o, tv
    full = n
    if len(tv.terms) == 1 and not o.axes:
        t = tv.terms[0]
        dep = [f for f in t.f if f[3] and any(w in set(tv.free()) for a in f[3] for _, w in a[1])]
        rest = [f for f in t.f if f not in dep]
        if len(dep) == 1 and len(tv.free()) == 1 and dep[0][2] == 1 and t.c[1] == 0 and t.c[0] > 0 and all(f[0].pos for f in rest) \
                and not (T.term_wires(T.Term(T.ONE, rest)) - set()) and dep[0][3] == (T.arg(tv.free()[0]),) and dep[0][0].kind in ('svdS',):
            at = dep[0][0]
            c = TV((), [T.Term(t.c, rest)])
            thr = T.div(o, c)
            full = at.sizes[0]
            x = T.leaf(at)
    key = (x.canon(), b.op, thr.canon())
    names = ctx.data.setdefault('counts', {})
    if key not in names:
        nm = f'count#{T.hashlib.sha1(repr(key).encode()).hexdigest()[:10]}'
        c = T.SymInt({((_ivar_atom(nm), 1),): 1})
        names[key] = c
        ctx.nonneg.add(nm)
        ctx.define(z3.And(z3.Int(nm) >= 0, z3.Int(nm) <= z3i(full)))
        ctx.data.setdefault('count_info', {})[nm] = (x, b.op, thr)
        # a descending vector: at least one entry exceeds a threshold below the first one
        if b.op in ('>', '>='):
            q = T.div(thr, T.fix_index(x, 0, 0))
            try:
                below = ctx.known(real_expr(q) < 1)
            except Unsupported:
                below = False
            if below:
                ctx.define(z3.Int(nm) >= 1)
                ctx.positive.add(nm)
    c = names[key]
    if full is not n:
        c = imin(c, n)
    return STensor(T.const(c), int64, b.t.device, int_=c)


def _ivar_atom(name):
    from .core import _iatom
    return _iatom('var', (), name).key


# ------------------------------------------------------------------ view operations

def _ops_key(ops):
    return tuple(tuple(ikey(x) if isinstance(x, (int, SymInt)) else tuple(ikey(y) for y in x) if isinstance(x, tuple) else x for x in o) for o in ops)


def _apply(o, v):
    if o[0] == 'permute':
        return T.permute(v, o[1])
    if o[0] == 'reshape':
        return T.reshape(v, o[2])
    if o[0] == 'index':
        return T.fix_index(v, o[1], o[2])
    if o[0] == 'slice':
        return T.slice_axis(v, o[1], o[2], o[3])
    raise Unsupported('view')


def _op_shapes(shape, ops):
    out = []
    sh = list(shape)
    for o in ops:
        out.append(tuple(sh))
        if o[0] == 'permute':
            sh = [sh[d] for d in o[1]]
        elif o[0] == 'reshape':
            sh = list(o[2])
        elif o[0] == 'index':
            del sh[o[1]]
        elif o[0] == 'slice':
            sh[o[1]] = o[3] - o[2]
    return out


def _scatter(o, base, v):
    """Value of the base after its view o has been overwritten by v."""
    if o[0] == 'permute':
        inv = [0] * len(o[1])
        for i, d in enumerate(o[1]):
            inv[d] = i
        return T.permute(v, inv)
    if o[0] == 'reshape':
        return T.reshape(v, o[1])
    ax = o[1]
    b = base.fresh()
    n = T.gsize(b.axes[ax])
    if len(b.axes[ax]) != 1:
        raise Unsupported('assignment into part of a merged axis')
    w = b.axes[ax][0]
    if o[0] == 'index':
        i = o[2]
        d = T.einsum  # noqa
        sel = [(T.DELTA, False, Fraction(1), (T.arg(w), T.carg(i)))]
        axes = b.axes
        vv = v.fresh()
        # align v's axes with b's remaining axes
        rest = [g for k, g in enumerate(b.axes) if k != ax]
        terms_v = _align_axes(vv, rest)
        new = [T.Term(t.c, list(t.f) + sel) for t in terms_v]
        old = [T.Term((-t.c[0], -t.c[1]), list(t.f) + sel) for t in b.fresh().terms] if False else \
              [T.Term((-t.c[0], -t.c[1]), list(t.f) + sel) for t in b.terms]
        return TV(axes, _refresh_terms(list(b.terms) + old + new, axes)).simplify()
    lo, hi = o[2], o[3]
    ind = T.atom('ind', (lo, hi), '', (None,), real=True, pos=True)
    sel = [(ind, False, Fraction(1), (T.arg(w),))]
    vv = v.fresh()
    if ieq(lo, 0) and ieq(hi, n):
        return v
    # v indexed by w - lo on that axis
    rest = list(b.axes)
    g = vv.axes[ax]
    if len(g) != 1:
        raise Unsupported('assignment of a merged axis into a slice')
    m = {g[0]: (0 - lo, ((1, w),))}
    v2 = TV([x for k, x in enumerate(vv.axes) if k != ax], [T.term_subst(t, m) for t in vv.terms])
    terms_v = _align_axes(v2, [x for k, x in enumerate(b.axes) if k != ax])
    new = [T.Term(t.c, list(t.f) + sel) for t in terms_v]
    old = [T.Term((-t.c[0], -t.c[1]), list(t.f) + sel) for t in b.terms]
    return TV(b.axes, _refresh_terms(list(b.terms) + old + new, b.axes)).simplify()


def _refresh_terms(terms, axes):
    return [T._fresh_sums(t, axes) for t in terms]


def _align_axes(v, axes):
    """Terms of v with its axes renamed to the given wire groups."""
    m = {}
    for g, h in zip(v.axes, axes):
        if len(g) == len(h) and all(ieq(T.WSIZE[a], T.WSIZE[b]) for a, b in zip(g, h)):
            m.update({a: T.arg(b) for a, b in zip(g, h)})
        else:
            g0, (s0, s1) = T.unify([h, g])
            if s0:
                raise Unsupported('assignment regroups an axis')
            m.update(s1)
    return [T.term_subst(t, m) for t in v.terms]


def _expand_to(v, shape):
    shape = list(shape)
    if len(v.axes) == len(shape) and all(ieq(a, b) for a, b in zip(v.shape, shape)):
        return v
    return T.mul(v, T.filled(1, shape)) if len(v.axes) <= len(shape) else _too_many(v, shape)


def _too_many(v, shape):
    raise ShapeError(f'cannot expand {[ikey(s) for s in v.shape]} to {[ikey(s) for s in shape]}')


def T_infer(old, shape):
    total = 1
    for s in old:
        total = total * s
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if neg:
        p = 1
        for i, s in enumerate(shape):
            if i != neg[0]:
                p = p * s
        q = idiv_exact(total, p)
        if q is None:
            raise Unsupported('cannot infer reshape dimension')
        shape = list(shape)
        shape[neg[0]] = q
        return shape
    p = 1
    for s in shape:
        p = p * s
    if not ieq(p, total):
        ctx = CTX()
        if isinstance(p, int) and isinstance(total, int) or ctx is None or ctx.known(z3i(p) != z3i(total)):
            raise ShapeError(f"shape '{[ikey(x) for x in shape]}' is invalid for input of size {ikey(total)}")
        if not ctx.decide(z3i(p) == z3i(total), 'reshape sizes agree'):
            raise ShapeError(f"shape '{[ikey(x) for x in shape]}' is invalid for input of size {ikey(total)}")
    return shape


def reshape0(tv):
    m = {w: T.carg(0) for w in tv.free()}
    return TV((), [T.term_subst(t, m) for t in tv.terms])


def as_tv(x):
    if isinstance(x, STensor):
        return x.tv
    if isinstance(x, TV):
        return x
    if isinstance(x, bool):
        return T.const(int(x))
    if isinstance(x, (int, float, complex, Fraction, SymInt, SymRat)):
        return T.const(x)
    raise Unsupported(f'tensor value of {type(x).__name__}')


# ------------------------------------------------------------------ real scalars in z3

def real_expr(tv):
    """z3 real term of a scalar value (polynomial in opaque real atoms)."""
    tv = tv.simplify()
    if tv.axes:
        tv = reshape0(tv).simplify()
    ctx = CTX()
    out = z3.RealVal(0)
    imag = z3.RealVal(0)
    for t in tv.terms:
        groups = T.TV((), [T.Term(T.ONE, t.f)])
        if T.term_wires(t) and not T.is_real(groups):
            # opaque complex contraction: real and imaginary part of it or of its conjugate
            k, kc = groups.canon(), T.conj(groups).canon()
            re, im = _real_atom('re ' + min(k, kc), ctx, False), _real_atom('im ' + min(k, kc), ctx, False)
            if k > kc:
                im = -im
            c0, c1 = z3.RealVal(str(t.c[0])), z3.RealVal(str(t.c[1]))
            out = out + c0 * re - c1 * im
            imag = imag + c0 * im + c1 * re
            continue
        if t.c[1] != 0:
            raise Unsupported('comparison of a complex value')
        e = z3.RealVal(str(t.c[0]))
        if T.term_wires(t):
            # opaque contraction
            e = e * _real_atom(groups.canon(), ctx, False)
        else:
            for a, cj, ex, ar in t.f:
                if not a.real:
                    raise Unsupported('comparison of a complex value')
                if a.kind == 'int' and ex == 1:
                    e = e * z3.ToReal(z3i(a.params[0]))
                    continue
                k = T.Term(T.ONE, [(a, False, Fraction(1), ar)])
                name = T.TV((), [k]).canon()
                if a.kind == 'real_param':
                    name = a.params[0]
                v = _real_atom(name, ctx, a.pos)
                if ex.denominator == 1 and ex > 0:
                    for _ in range(int(ex)):
                        e = e * v
                elif ex.denominator == 1:
                    for _ in range(-int(ex)):
                        e = e / v
                else:
                    e = e * _real_atom(f'{name}^{ex}', ctx, True)
                if a.kind == 'ew_abs' and not ctx.data.get(('absdef', name)):
                    ctx.data[('absdef', name)] = True
                    inner = T.TV((), T.instantiate(a.params[0], ar))
                    try:
                        z = real_expr(inner)
                        ctx.define(v == z3.If(z >= 0, z, -z))
                    except Unsupported:
                        pass
        out = out + e
    if not z3.is_rational_value(z3.simplify(imag, som=True)) or z3.simplify(imag, som=True).as_fraction() != 0:
        raise Unsupported('comparison of a complex value')
    return z3.simplify(out)


def _real_atom(name, ctx, pos):
    nm = name if len(name) < 60 else 'r#' + T.hashlib.sha1(name.encode()).hexdigest()[:14]
    v = z3.Real(nm)
    if pos and ('pos', nm) not in ctx.data:
        ctx.data[('pos', nm)] = True
        ctx.define(v >= 0)
    return v


def real_param(name, lo=None, hi=None, pos=True):
    """A real parameter (tolerance, time step, ...) as a 0-d tensor usable like a float."""
    a = T.atom('real_param', (name,), '', (), real=True, pos=pos)
    ctx = CTX()
    t = STensor(T.leaf(a), float64)
    t._weak = True
    e = real_expr(t.tv)
    if lo is not None:
        ctx.define(e >= lo)
    if hi is not None:
        ctx.define(e <= hi)
    return t


# ------------------------------------------------------------------ functions

def _t(x, dt=float64):
    return x if isinstance(x, STensor) else STensor(as_tv(x), complex128 if isinstance(x, complex) else dt)


def einsum(spec, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    if not isinstance(spec, str):
        raise Unsupported('einsum sublist format')
    dt = ops[0].dtype
    for o in ops:
        if not isinstance(o, STensor):
            raise TypeError('einsum operand is not a tensor')
        if o.dtype is not dt:
            if promote(dt, o.dtype) is not dt or True:
                # torch requires equal dtypes except for broadcasting real weights: it promotes in mul-based paths
                dt = promote(dt, o.dtype)
    return STensor(T.einsum(spec, *[o.tv for o in ops]), dt, ops[0].device)


def conj(x):
    return STensor(T.conj(x.tv), x.dtype, x.device)


conj_physical = conj


def resolve_conj(x):
    return x


def matmul(a, b):
    na, nb = len(a._sh), len(b._sh)
    if na == 2 and nb == 2:
        s = 'ab,bc->ac'
    elif na == 2 and nb == 1:
        s = 'ab,b->a'
    elif na == 1 and nb == 2:
        s = 'a,ab->b'
    elif na == 1 and nb == 1:
        s = 'a,a->'
    else:
        raise Unsupported('batched matmul')
    if not ieq(a._sh[-1], b._sh[0]):
        raise ShapeError(f'mat1 and mat2 shapes cannot be multiplied ({ikey(a._sh[-1])} and {ikey(b._sh[0])})')
    return einsum(s, a, b)


mm = matmul


def tensordot(a, b, dims=2):
    na, nb = len(a._sh), len(b._sh)
    if isinstance(dims, int):
        da, db = list(range(na - dims, na)), list(range(dims))
    else:
        da, db = dims
        da = [da] if isinstance(da, int) else list(da)
        db = [db] if isinstance(db, int) else list(db)
    da, db = [d % na for d in da], [d % nb for d in db]
    L = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    la = list(L[:na])
    lb = list(L[na:na + nb])
    for x, y in zip(da, db):
        lb[y] = la[x]
    out = [c for i, c in enumerate(la) if i not in da] + [c for i, c in enumerate(lb) if i not in db]
    return einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), a, b)


def outer(a, b):
    return einsum('a,b->ab', a, b)


def kron(a, b):
    if len(a._sh) != 2 or len(b._sh) != 2:
        raise Unsupported('kron')
    r = einsum('ab,cd->acbd', a, b)
    return STensor(T.reshape(r.tv, (a._sh[0] * b._sh[0], a._sh[1] * b._sh[1])), r.dtype, r.device)


def sqrt(x):
    x = _t(x)
    return x._like(T.power(x.tv, Fraction(1, 2)))


def rsqrt(x):
    return x.rsqrt()


def reciprocal(x):
    return 1 / x


def square(x):
    return x * x


def pow(x, n):
    return x ** n


def exp(x):
    return x._like(T.fn_elem('exp', x.tv, real=T.is_real(x.tv), pos=T.is_real(x.tv)))


def abs_(x):
    return STensor(T.absval(x.tv), x.dtype.to_real(), x.device)


def max_(x, *a):
    if a:
        if len(a) == 1 and isinstance(a[0], STensor):
            raise Unsupported('elementwise maximum')
        raise Unsupported('max over an axis')
    if not x._sh:
        return x
    # positively homogeneous
    tv = x.tv
    if x.dtype.is_complex:
        raise RuntimeError('max is not implemented for complex tensors')
    return STensor(T.reduce_fn('max', tv, pos=bool(T.nonneg(tv))), x.dtype, x.device)


def maximum(a, b):
    raise Unsupported('maximum')


def norm(x, p=None, dim=None, **k):
    if p not in (None, 2, 'fro', 2.0) or dim is not None:
        raise Unsupported('norm variant')
    return STensor(T.norm(x.tv), x.dtype.to_real(), x.device)


def sum_(x, dim=None, keepdim=False, **k):
    if isinstance(x, BoolTensor):
        return count_true(x)
    n = len(x._sh)
    d = list(range(n)) if dim is None else [dim] if isinstance(dim, int) else list(dim)
    r = x._like(T.sum_axes(x.tv, d))
    if keepdim:
        for i in sorted(y % n for y in d):
            r = r.unsqueeze(i)
    return r


def count_nonzero(x):
    if isinstance(x, BoolTensor):
        return count_true(x)
    raise Unsupported('count_nonzero')


def _cast(x, dt):
    """Value of x when stored with another dtype."""
    tv = as_tv(x)
    if not isinstance(x, STensor):
        return tv
    if x.dtype.is_complex and not dt.is_complex:
        tv = _real(tv)
    if dt in _NARROW and x.dtype in (float64, complex128) and not x._weak and CTX().data.get('rounding', True):
        tv = rounded(tv)
    return tv


def rounded(tv):
    """Elementwise rounding to single precision (idempotent, otherwise arbitrary)."""
    t = T.pure_monomial(tv)
    if t is not None and t.c == T.ONE and len(t.f) == 1 and t.f[0][0].kind == 'ew_round' and t.f[0][2] == 1:
        return tv
    if not tv.simplify().terms:
        return tv
    return T.fn_elem('round', tv, real=T.is_real(tv))


def _real(tv):
    if T.is_real(tv):
        return tv
    return T.scale(T.add(tv, T.conj(tv)), Fraction(1, 2))


def real(x):
    if not x.dtype.is_complex:
        return x
    return STensor(_real(x.tv), x.dtype.to_real(), x.device)


def imag(x):
    if not x.dtype.is_complex:
        raise RuntimeError('imag is not implemented for tensors with non-complex dtypes.')
    d = T.sub(x.tv, T.conj(x.tv))
    return STensor(T.mul(d, T.const(complex(0, -0.5))), x.dtype.to_real(), x.device)


def clamp(x, min=None, max=None):
    if max is not None:
        raise Unsupported('clamp from above')
    if min is None:
        return x
    tv = x.tv.simplify()
    fl = CTX().data.get('clamp_identity', False)
    if fl and fl(tv, min):
        # unit assumption: all entries are at least the bound (recorded)
        return x._like(tv)
    a = T.fn_elem(f'clampmin_{as_tv(min).canon()}', tv, real=True, pos=True)
    return x._like(a)


def flip(x, dims):
    v = x.tv
    for d in ([dims] if isinstance(dims, int) else dims):
        v = T.flip_axis(v, d % len(x._sh))
    return x._like(v)


def diag(x):
    if len(x._sh) == 1:
        return x._like(T.einsum('a,ab->ab', x.tv, T.eye(x._sh[0])))
    return diagonal(x)


def diagonal(x, *a, **k):
    if a or k or len(x._sh) != 2:
        raise Unsupported('diagonal')
    return einsum('aa->a', x)


def trace(x):
    return einsum('aa->', x)


def _shape_args(a):
    if len(a) == 1 and not isinstance(a[0], (int, SymInt, STensor)):
        a = tuple(a[0])
    return [_int(s) for s in a]


def _default_dtype(dt):
    if dt is None:
        return CTX().data.get('default_dtype', float32) if CTX() else float32
    if dt is int or getattr(dt, '_acev_type', None) is int:
        return int64
    if dt is float or getattr(dt, '_acev_type', None) is float:
        return float64
    if dt is complex:
        return complex128
    return dt


def zeros(*a, dtype=None, device=None, **k):
    return STensor(T.filled(0, _shape_args(a)), _default_dtype(dtype), as_device(device))


def ones(*a, dtype=None, device=None, **k):
    return STensor(T.filled(1, _shape_args(a)), _default_dtype(dtype), as_device(device))


def full(shape, x, dtype=None, device=None, **k):
    return STensor(T.filled(x, [_int(s) for s in shape]), _default_dtype(dtype), as_device(device))


def empty(*a, dtype=None, device=None, **k):
    sh = _shape_args(a)
    dt = _default_dtype(dtype)
    at = T.atom('uninit', (CTX().fresh('u'),), '', sh, real=not dt.is_complex)
    return STensor(T.leaf(at), dt, as_device(device))


def _rand(kind, a, dt, dev, real=True, pos=False):
    sh = _shape_args(a)
    ctx = CTX()
    n = ctx.data.setdefault('rand', [])
    idx = len(n)
    tag = ctx.data.get('rand_tag')
    scope = tuple(v for f in active_frames() for v in f.vars)
    at = T.atom(kind, (str(idx) if tag is None else f'{tag}{idx}',) + scope, '', sh, real=real, pos=pos)
    r = STensor(T.leaf(at), dt, dev)
    n.append((kind, sh, dt, r.tv))
    return r


def rand(*a, dtype=None, device=None, **k):
    dt = _default_dtype(dtype)
    return _rand('rand', a, dt, as_device(device), not dt.is_complex, not dt.is_complex)


def randn(*a, dtype=None, device=None, **k):
    dt = _default_dtype(dtype)
    return _rand('randn', a, dt, as_device(device), not dt.is_complex)


def _like_fn(f):
    def g(x, dtype=None, device=None, **k):
        return f(*x._sh, dtype=dtype or x.dtype, device=x.device if device is None else device)
    return g


zeros_like, ones_like, empty_like, randn_like, rand_like = map(_like_fn, (zeros, ones, empty, randn, rand))


def full_like(x, v, dtype=None, device=None, **k):
    return full(x._sh, v, dtype=dtype or x.dtype, device=device or x.device)


def eye(n, m=None, dtype=None, device=None, **k):
    return STensor(T.eye(_int(n), None if m is None else _int(m)), _default_dtype(dtype), as_device(device))


def tensor(data, dtype=None, device=None, **k):
    if isinstance(data, STensor):
        return data.clone().to(dtype=dtype, device=device)
    dt = dtype
    if hasattr(data, '_as_vector') and not (hasattr(data, '_acev_list') and data.parts is None):
        v = data._as_vector()
        return STensor(v, _default_dtype(dt), as_device(device))
    if hasattr(data, '_acev_list'):
        data = data._acev_list()

    def conv(d):
        if hasattr(d, '_acev_list'):
            d = d._acev_list()
        if isinstance(d, (list, tuple)):
            return [conv(x) for x in d]
        if isinstance(d, STensor):
            return d.tv
        return as_tv(d)
    flatv = []

    def walk(d):
        if hasattr(d, '_acev_list'):
            d = d._acev_list()
        if isinstance(d, (list, tuple)):
            for x in d:
                walk(x)
        else:
            flatv.append(d)
    walk(data)
    if dt is None:
        if any(isinstance(x, complex) for x in flatv):
            dt = complex64
        elif flatv and all(isinstance(x, (int, SymInt)) for x in flatv):
            dt = int64
        else:
            dt = _default_dtype(None)
    if not isinstance(dt, globals()['dtype']):
        dt = _default_dtype(dt)
    c = conv(data)
    v = T.from_nested(c) if isinstance(c, list) else c
    r = STensor(v, dt, as_device(device))
    if dt is int64 and isinstance(c, list) and all(isinstance(x, (int, SymInt)) for x in flatv) and len(r._sh) == 1:
        r.ints = (r._st.version, tuple(flatv))
    return r


as_tensor = tensor


def clone(x, **k):
    return x.clone()


def is_complex(x):
    return x.dtype.is_complex


def is_floating_point(x):
    return x.dtype.is_floating_point


def is_tensor(x):
    return isinstance(x, STensor)


def matrix_exp(m):
    if len(m._sh) != 2 or not ieq(m._sh[0], m._sh[1]):
        raise ShapeError('matrix_exp of a non-square matrix')
    x = m.tv.simplify()
    at = T.atom('expm', (x,), '', [T.WSIZE[w] for w in x.free()], real=T.is_real(x))
    return m._like(TV(x.axes, [T.Term(T.ONE, [(at, False, Fraction(1), tuple(T.arg(w) for w in x.free()))])]).fresh())


def permute(x, dims):
    return x.permute(dims)


def reshape(x, shape):
    return x.reshape(shape)


def transpose(x, a, b):
    return x.transpose(a, b)


def swapaxes(x, a, b):
    return x.transpose(a, b)


def flatten(x, *a, **k):
    return x.flatten(*a, **k)


def unsqueeze(x, d):
    return x.unsqueeze(d)


def squeeze(x, *a):
    return x.squeeze(*a)


def mul(a, b):
    return a * b


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def div(a, b):
    return a / b


def neg(a):
    return -a


def stack(ts, dim=0):
    ts = list(ts)
    if not ts or not all(isinstance(t, STensor) for t in ts):
        raise Unsupported('stack')
    if any(len(t._sh) != len(ts[0]._sh) or not all(ieq(a, b) for a, b in zip(t._sh, ts[0]._sh)) for t in ts):
        raise ShapeError(f'stack of tensors of different shapes {[t._sh for t in ts]}')
    dts = ts[0].dtype
    for t in ts[1:]:
        dts = promote(dts, t.dtype)
    n = len(ts[0]._sh) + 1
    if not -n <= dim < n:
        raise IndexError(f'dimension {dim} out of range')
    if dim % n:
        d = dim % n
        return stack(ts).permute(*([*range(1, d + 1), 0, *range(d + 1, n)]))
    out = None
    w = T.wire(len(ts))
    terms = None
    base = ts[0].tv.fresh()
    axes = [(w,)] + [tuple(g) for g in base.axes]
    terms = []
    for i, t in enumerate(ts):
        for x in _align_axes(t.tv.fresh(), base.axes):
            terms.append(T._fresh_sums(T.Term(x.c, list(x.f) + [(T.DELTA, False, Fraction(1), (T.arg(w), T.carg(i)))]), axes))
    return STensor(TV(axes, terms).simplify(), dts, ts[0].device)


def cat(ts, dim=0, **k):
    ts = list(ts)
    if not ts or not all(isinstance(t, STensor) for t in ts) or k:
        raise Unsupported('cat')
    n = len(ts[0]._sh)
    if not -n <= dim < n:
        raise IndexError(f'dimension {dim} out of range')
    dim = dim % n
    dts, total = ts[0].dtype, 0
    for t in ts:
        if len(t._sh) != n or not all(i == dim or ieq(a, b) for i, (a, b) in enumerate(zip(t._sh, ts[0]._sh))):
            raise ShapeError(f'cat of tensors of shapes {[t._sh for t in ts]}')
        dts = promote(dts, t.dtype)
        total = total + t._sh[dim]
    r = zeros(*[total if i == dim else x for i, x in enumerate(ts[0]._sh)], dtype=dts, device=ts[0].device)
    off = 0
    for t in ts:
        r[tuple([slice(None)] * dim + [slice(off, off + t._sh[dim])])] = t
        off = off + t._sh[dim]
    return STensor(r.tv, dts, ts[0].device)


def split(x, sections, dim=0):
    n = x._sh[dim]
    if isinstance(sections, int):
        if not isinstance(n, int):
            raise Unsupported('split of a symbolic dimension into equal parts')
        sections = [min(sections, n - i) for i in range(0, n, sections)]
    sections = list(sections)
    total = 0
    for k in sections:
        total = total + k
    if not ieq(total, n):
        raise ShapeError(f'split into {sections} of a dimension of {n}')
    r, off = [], 0
    for k in sections:
        r.append(x.narrow(dim, off, k))
        off = off + k
    return tuple(r)


def chunk(x, chunks, dim=0):
    n = x._sh[dim]
    if not isinstance(n, int):
        raise Unsupported('chunk of a symbolic dimension')
    return split(x, -(-n // chunks), dim)


def unbind(x, dim=0):
    if not isinstance(x._sh[dim], int):
        raise Unsupported('unbind of a symbolic dimension')
    return tuple(x.select(dim, i) for i in range(x._sh[dim]))


def roll(x, shifts, dims=None):
    if not isinstance(shifts, int) or not isinstance(dims, int) or isinstance(x._sh[dims], int) and x._sh[dims] == 0:
        raise Unsupported('roll')
    n = x._sh[dims]
    k = shifts % n if isinstance(n, int) else shifts
    if isinstance(k, int) and k == 0:
        return x.clone()
    if k < 0:
        k = n + k
    return cat([x.narrow(dims, n - k, k), x.narrow(dims, 0, n - k)], dims)


class Always:
    """isfinite, isnan, isinf: entries are numbers (arithmetic is exact)."""

    def __init__(self, x, value):
        self.shape, self.value = x.shape, value

    def all(self): return self.value
    def any(self): return self.value
    def __invert__(self): return Always(self, not self.value)
    def item(self): return self.value
    def __bool__(self): return self.value

    def __getattr__(self, name):
        raise Unsupported(f'boolean tensor .{name}')


def all_of(x, *a):
    if isinstance(x, Always) and not a:
        return x.value
    raise Unsupported('all or any')


def finfo(dt=None):
    import torch
    return torch.finfo(getattr(torch, str(_default_dtype(dt)).split('.')[-1]))


def movedim(x, source, destination):
    n = len(x._sh)
    a = [source] if isinstance(source, int) else list(source)
    b = [destination] if isinstance(destination, int) else list(destination)
    if len(a) != len(b) or not all(-n <= i < n for i in a + b):
        raise IndexError('dimension out of range')
    a, b = [i % n for i in a], [i % n for i in b]
    order = [None] * n
    for i, j in zip(a, b):
        order[j] = i
    rest = [i for i in range(n) if i not in a]
    for j in range(n):
        if order[j] is None:
            order[j] = rest.pop(0)
    return x.permute(*order)


def unflatten(x, dim, sizes):
    d = dim % len(x._sh)
    return x.reshape(*x._sh[:d], *sizes, *x._sh[d + 1:])


def select(x, dim, index):
    return x[tuple([slice(None)] * (dim % len(x._sh)) + [index])]


def narrow(x, dim, start, length):
    return x.narrow(dim, start, length)


def mean(x, *a, **k):
    return x.mean(*a, **k)


def adjoint(x):
    return x.mH


def t(x):
    return x.t()


def mv(a, b):
    if len(a._sh) != 2 or len(b._sh) != 1:
        raise ShapeError('mv: a matrix and a vector are expected')
    return matmul(a, b)


def multi_dot(ts, **k):
    r = None
    for x in ts:
        r = x if r is None else matmul(r, x)
    return r


def eigvalsh(x, UPLO='L'):
    return eigh(x, UPLO)[0]


def matrix_norm(x, ord='fro', dim=(-2, -1), **k):
    if ord not in ('fro', None) or tuple(dim) != (-2, -1) or len(x._sh) != 2 or k:
        raise Unsupported('matrix norm variant')
    return norm(x)


def dot(a, b):
    if len(a._sh) != 1 or len(b._sh) != 1:
        raise ShapeError('dot of tensors that are not vectors')
    return matmul(a, b)


def vdot(a, b):
    return dot(conj(a), b)


# ------------------------------------------------------------------ linalg

class LinAlgError(RuntimeError):
    pass


def log_call(name, **kw):
    ctx = CTX()
    ctx.data.setdefault('calls', []).append((name, kw))


def _mat(x):
    """(content, normalised 2-axis value) of a matrix."""
    if len(x._sh) != 2:
        raise Unsupported('batched linear algebra')
    c, v = T.content(x.tv)
    v = TV(x.tv.axes if len(x.tv.axes) == 2 else v.axes, v.terms)
    v = TV(v.axes, v.terms).simplify()
    return c, v


def _rows(v):
    return [T.WSIZE[w] for w in v.axes[0]], [T.WSIZE[w] for w in v.axes[1]]


def _leafw(a, sizes, groups):
    ws = [T.wire(s) for s in sizes]
    return TV([[ws[i] for i in g] for g in groups], [T.Term(T.ONE, [(a, False, Fraction(1), tuple(T.arg(w) for w in ws))])])


def _orient(v):
    """Canonical parameters of a matrix value: the value with wires flattened to one axis each is kept with its grouping."""
    return v


def qr(x, mode='reduced'):
    if mode not in ('reduced',):
        raise Unsupported('qr mode')
    c, v = _mat(x)
    Q, R = qr_atoms(v)
    nr, nc = len(v.axes[0]), len(v.axes[1])
    q = T.leaf(Q, [list(range(nr)), [nr]])
    rr = T.mul(c, T.leaf(R, [[0], list(range(1, nc + 1))]))
    log_call('qr', Q=q, R=rr, M=x.tv)
    return _QR((x._like(q), x._like(rr)))


def _named(name, *fields):
    return type(name, (tuple,), {f: property(lambda s, i=i: s[i]) for i, f in enumerate(fields)})


_SVD, _SVDOLD = _named('svd', 'U', 'S', 'Vh'), _named('svd', 'U', 'S', 'V')
_LSTSQ = _named('lstsq', 'solution', 'residuals', 'rank', 'singular_values')
_QR, _EIGH = _named('qr', 'Q', 'R'), _named('eigh', 'eigenvalues', 'eigenvectors')


def _iso(sizes, k, rows, col):
    """Orthonormal columns; a square matrix has orthonormal rows too."""
    rows = tuple(rows)
    p = 1
    for x in sizes:
        p = p * x
    return ((rows, (col,)),) + ((((col,), rows),) if ieq(p, k) else ())


def qr_atoms(v):
    r, cs = _rows(v)
    k = imin(T.gsize(v.axes[0]), T.gsize(v.axes[1]))
    rl = T.is_real(v)
    ident = 'qr' + v.canon()
    nr = len(r)
    Q = T.atom('Q', (v,), '', r + [k], real=rl, info={'id': ident, 'M': v, 'type': 'Q', 'iso': _iso(r, k, range(nr), nr), 'mate': lambda: qr_atoms(v)[1]})
    R = T.atom('R', (v,), '', [k] + cs, real=rl, info={'id': ident, 'M': v, 'type': 'R'})
    return Q, R


def svd_atoms(v):
    r, cs = _rows(v)
    k = imin(T.gsize(v.axes[0]), T.gsize(v.axes[1]))
    rl = T.is_real(v)
    ident = 'svd' + v.canon()
    nr, nc = len(r), len(cs)
    S = T.atom('svdS', (v,), '', [k], real=True, pos=True, info={'id': ident, 'M': v, 'type': 'svdS'})
    U = T.atom('svdU', (v,), '', r + [k], real=rl, info={'id': ident, 'M': v, 'type': 'svdU', 'iso': _iso(r, k, range(nr), nr),
                                                         'mates': lambda: (S, svd_atoms(v)[2])})
    V = T.atom('svdV', (v,), '', [k] + cs, real=rl, info={'id': ident, 'M': v, 'type': 'svdV', 'iso': _iso(cs, k, range(1, nc + 1), 0),
                                                          'mates': lambda: (S, svd_atoms(v)[0])})
    return U, S, V


def eig_atoms(v):
    herm = T.equal(v, T.conj(T.permute(v, (1, 0))))[0]
    r = [T.WSIZE[w] for w in v.axes[0]]
    n = T.gsize(v.axes[0])
    nr = len(r)
    ident = 'eig' + v.canon()
    w = T.atom('eigw', (v,), '', [n], real=True, info={'id': ident, 'M': v, 'type': 'eigw', 'herm': herm})
    z = T.atom('eigz', (v,), '', r + [n], real=T.is_real(v), info={'id': ident, 'M': v, 'type': 'eigz', 'herm': herm, 'iso': _iso(r, n, range(nr), nr)})
    return w, z


def chol_atom(v):
    r, cs = _rows(v)
    return T.atom('chol', (v,), '', r + [T.gsize(v.axes[0])], real=T.is_real(v), info={'id': 'ch' + v.canon(), 'M': v, 'type': 'chol'})


def linv_atom(v):
    r, cs = _rows(v)
    return T.atom('Linv', (v,), '', [T.gsize(v.axes[0])] + r, real=T.is_real(v),
                  info={'id': 'li' + v.canon(), 'M': v, 'type': 'Linv', 'nj': 1, 'inv': lambda: _inv_of(v)})


T.REBUILD.update({'Q': lambda v: qr_atoms(v)[0], 'R': lambda v: qr_atoms(v)[1], 'svdU': lambda v: svd_atoms(v)[0], 'svdS': lambda v: svd_atoms(v)[1],
                  'svdV': lambda v: svd_atoms(v)[2], 'eigw': lambda v: eig_atoms(v)[0], 'eigz': lambda v: eig_atoms(v)[1], 'chol': chol_atom,
                  'Linv': linv_atom, 'inv': lambda v: _inv_atom(v)})


def svd_values(x):
    """Atoms of the singular value decomposition of a matrix value."""
    c, v = _mat(x)
    r, cs = _rows(v)
    m, n = T.gsize(v.axes[0]), T.gsize(v.axes[1])
    U, S, V = svd_atoms(v)
    return c, v, U, S, V, r, cs, m, n, imin(m, n)


def svd(x, full_matrices=True, **kw):
    log_call('svd', full_matrices=full_matrices)
    if CTX().data.get('psd_svd'):
        r = _svd_psd(x)
        if r is not None:
            return r
    c, v, U, S, V, r, cs, m, n, k = svd_values(x)
    nr, nc = len(r), len(cs)
    ku, kv = (m, n) if full_matrices else (k, k)
    u = _leafw(U, r + [ku], [list(range(nr)), [nr]])
    vh = _leafw(V, [kv] + cs, [[0], list(range(1, nc + 1))])
    s = T.mul(c, T.leaf(S))
    return _SVD((x._like(u), STensor(s, x.dtype.to_real(), x.device), x._like(vh)))


def _svd_psd(x):
    """Singular value decomposition of a Hermitian matrix known to be positive semidefinite: its eigendecomposition in reverse order."""
    tv = x.tv.simplify()
    if len(tv.axes) != 2 or not ieq(T.gsize(tv.axes[0]), T.gsize(tv.axes[1])):
        return None
    shift, rest = split_identity(tv)
    c, v = T.content(rest)
    w, z = eig_atoms(v)
    if not w.info['herm']:
        return None
    wv = T.mul(c, T.leaf(w))
    if shift is not None:
        wv = T.add(wv, shift)
    low = real_expr(T.fix_index(wv, 0, 0))
    if not CTX().known(low >= 0):
        return None
    nr = len(v.axes[0])
    u = T.flip_axis(T.leaf(z, [list(range(nr)), [nr]]), 1)
    return _SVD((x._like(u), STensor(T.flip_axis(wv, 0), x.dtype.to_real(), x.device), x._like(T.conj(T.permute(u, (1, 0))))))


def svd_old(x, some=True, **kw):
    u, s, vh = svd(x, full_matrices=not some)
    return _SVDOLD((u, s, vh.mH))


def svdvals(x):
    return svd(x)[1]


def eigh(x, UPLO='L'):
    log_call('eigh')
    tv = x.tv.simplify()
    if len(tv.axes) != 2:
        raise Unsupported('batched eigh')
    ctx = CTX()
    if ctx.data.get('eigh_may_fail') and _fails_left(ctx) and ctx.opaque('eigh raises LinAlgError' + tv.canon()[:40] + str(len(ctx.trail)), 'eigh raises'):
        raise LinAlgError('eigh did not converge')
    n = T.gsize(tv.axes[0])
    # split off multiples of the identity: eigh(M + t 1) = eigh(M) with shifted eigenvalues
    shift, rest = split_identity(tv)
    c, v = T.content(rest)
    w, z = eig_atoms(v)
    if not w.info['herm']:
        ctx.data.setdefault('nonherm', []).append(v)
    nr = len(v.axes[0])
    wv = T.mul(c, T.leaf(w))
    if shift is not None:
        wv = T.add(wv, shift)
    zv = T.leaf(z, [list(range(nr)), [nr]])
    return _EIGH((STensor(wv, x.dtype.to_real(), x.device), x._like(zv)))


def _fails_left(ctx):
    """eigh_may_fail = k (an int): failures are possible at the first k calls only."""
    k = ctx.data['eigh_may_fail']
    if k is True:
        return True
    ctx.data['eigh_may_fail'] = k - 1
    return k > 0


def split_identity(tv):
    """tv = rest + t * identity (t scalar TV or None)."""
    free = tv.free()
    g0, g1 = tv.axes
    rest, sc = [], []
    for t in tv.terms:
        ds = [f for f in t.f if f[0] is T.DELTA]
        others = [f for f in t.f if f[0] is not T.DELTA]
        if len(g0) == len(g1) and len(ds) == len(g0) and not ({w for f in others for a in f[3] for _, w in a[1]} & set(free)):
            pairs = {frozenset(w for a in f[3] for _, w in a[1]) for f in ds}
            if pairs == {frozenset((a, b)) for a, b in zip(g0, g1)} and all(T.is_wire(a) for f in ds for a in f[3]):
                sc.append(T.Term(t.c, others))
                continue
        rest.append(t)
    if not sc or not rest:
        return None, tv
    return TV((), sc).simplify(), TV(tv.axes, rest).simplify()


def cholesky(x, upper=False, **k):
    log_call('cholesky')
    ctx = CTX()
    v = x.tv.simplify()
    if len(v.axes) != 2:
        raise Unsupported('batched cholesky')
    if ctx.data.get('cholesky_may_fail') and ctx.opaque('cholesky fails' + v.canon()[:30], 'cholesky raises'):
        raise LinAlgError('cholesky: not positive definite')
    if upper:
        raise Unsupported('upper cholesky')
    L = chol_atom(v)
    r = v.axes[0]
    return x._like(T.leaf(L, [list(range(len(r))), [len(r)]]))


def _inv_atom(v):
    r, cs = _rows(v)
    a = T.atom('inv', (v,), '', cs + r, real=T.is_real(v), info={'id': 'inv' + v.canon(), 'M': v, 'type': 'inv', 'n': len(cs)})
    return a


def _inv_of(v):
    c, w = _mat(STensor(v, complex128))
    r, cs = _rows(w)
    a = _inv_atom(w)
    return T.div(T.leaf(a, [list(range(len(cs))), list(range(len(cs), len(cs) + len(r)))]), c)


def inv_value(x):
    """Inverse of a square matrix value (assumed invertible)."""
    c, v = _mat(x)
    r, cs = _rows(v)
    a = _inv_atom(v)
    return T.div(T.leaf(a, [list(range(len(cs))), list(range(len(cs), len(cs) + len(r)))]), c)


def inv(x):
    log_call('inv')
    return x._like(inv_value(x))


def solve(a, b, **k):
    log_call('solve')
    return matmul(a._like(inv_value(a)), b)


def lstsq(a, b, **k):
    log_call('lstsq')
    if len(a._sh) != 2 or not ieq(a._sh[0], a._sh[1]):
        raise Unsupported('lstsq of a matrix that is not square')
    CTX().assumed.add('torch.linalg.lstsq(A, B) = A^-1 B for square A of full rank')
    return _LSTSQ((matmul(a._like(inv_value(a)), b), None, None, None))


def equal(a, b):
    """True where the two are equal by the rules; elsewhere the case in which they happen to be equal stays undecided."""
    if len(a._sh) != len(b._sh):
        return False
    for x, y in zip(a._sh, b._sh):
        if not CTX().decide(x == y, 'equal shapes') if not (isinstance(x, int) and isinstance(y, int)) else x != y:
            return False
    if T.equal(a.tv, b.tv):
        return True
    if CTX().opaque('equal' + a.tv.canon()[:60] + b.tv.canon()[:60] + str(len(CTX().trail)), 'two tensors happen to be equal'):
        raise Unsupported('two different tensors that happen to be equal')
    return False


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if T.equal(a.tv, b.tv):
        return True
    if CTX().opaque('allclose' + a.tv.canon()[:60] + b.tv.canon()[:60] + str(len(CTX().trail)), 'two tensors happen to be close'):
        raise Unsupported('two different tensors that happen to be close')
    return False


def pinv(x, *a, **kw):
    if a:
        kw['rcond'] = a[0]
    log_call('pinv', **kw)
    if len(x._sh) == 2 and ieq(x._sh[0], x._sh[1]):
        # contract for matrices without singular values below the cutoff: the inverse
        CTX().assumed.add('torch.linalg.pinv(X) = X^-1 for square X without singular values below the cutoff')
        if kw.get('hermitian'):
            CTX().data.setdefault('pinv_herm', []).append(x.tv)
        return x._like(inv_value(x))
    c, v = _mat(x)
    r, cs = _rows(v)
    at = T.atom('pinv', (v,), '', cs + r, real=T.is_real(v))
    return x._like(T.div(T.leaf(at, [list(range(len(cs))), list(range(len(cs), len(cs) + len(r)))]), c))


def solve_triangular(A, B, *, upper, left=True, unitriangular=False, **k):
    if not left or unitriangular:
        raise Unsupported('solve_triangular variant')
    log_call('solve_triangular', upper=upper)
    v = A.tv.simplify()
    t = v.terms[0] if len(v.terms) == 1 else None
    if t is None or len(t.f) != 1 or t.c != T.ONE or t.f[0][0].kind != 'chol':
        at = T.atom('trisolve', (v, str(bool(upper))), '', [T.WSIZE[w] for w in v.axes[1]] + [T.WSIZE[w] for w in v.axes[0]])
        n1 = len(v.axes[1])
        m = T.leaf(at, [list(range(n1)), list(range(n1, n1 + len(v.axes[0])))])
        return B._like(T.einsum('ab,bc->ac', m, B.tv))
    a, cj, e, ar = t.f[0]
    args = tuple(x[1][0][1] for x in ar)
    rowmajor = tuple(v.axes[0]) + tuple(v.axes[1])
    is_lower = args == rowmajor
    # conj-transposed factor is upper triangular
    M = a.info['M']
    r, cs = _rows(M)
    li = linv_atom(M)
    lv = T.leaf(li, [[0], list(range(1, len(r) + 1))])
    if is_lower and not upper and not cj:
        return B._like(T.einsum('ab,bc->ac', lv, B.tv))
    if (not is_lower) and upper and (cj or a.real):
        return B._like(T.einsum('ba,bc->ac', T.conj(lv), B.tv))
    at = T.atom('trisolve', (v, str(bool(upper))), '', [T.WSIZE[w] for w in v.axes[1]] + [T.WSIZE[w] for w in v.axes[0]])
    n1 = len(v.axes[1])
    m = T.leaf(at, [list(range(n1)), list(range(n1, n1 + len(v.axes[0])))])
    return B._like(T.einsum('ab,bc->ac', m, B.tv))


def cholesky_solve(B, L, upper=False):
    Y = solve_triangular(L, B, upper=False)
    return solve_triangular(L.mH, Y, upper=True)


# ------------------------------------------------------------------ module objects

def _null_ctx(*a, **k):
    class C:
        def __enter__(self):
            return self

        def __exit__(self, *e):
            return False

        def __call__(self, f):
            return f
    if len(a) == 1 and callable(a[0]):
        return a[0]
    return C()


def make_torch(extra=None):
    g = globals()
    m = types.ModuleType('torch')
    names = ['float64', 'float32', 'complex128', 'complex64', 'int64', 'int32', 'dtype', 'device', 'einsum', 'conj', 'conj_physical',
             'resolve_conj', 'matmul', 'mm', 'tensordot', 'outer', 'kron', 'sqrt', 'rsqrt', 'reciprocal', 'square', 'pow', 'exp', 'maximum',
             'norm', 'count_nonzero', 'real', 'imag', 'clamp', 'flip', 'diag', 'diagonal', 'trace', 'zeros', 'ones', 'full', 'empty', 'rand',
             'randn', 'zeros_like', 'ones_like', 'empty_like', 'randn_like', 'rand_like', 'full_like', 'eye', 'tensor', 'as_tensor', 'clone',
             'is_complex', 'is_floating_point', 'is_tensor', 'matrix_exp', 'permute', 'reshape', 'transpose', 'swapaxes', 'flatten', 'unsqueeze', 'squeeze',
             'mul', 'add', 'sub', 'div', 'neg', 'stack', 'Size', 'cat', 'dot', 'vdot', 'movedim', 'unflatten', 'select', 'narrow', 'mean', 'adjoint', 't', 'mv']
    for n in names:
        setattr(m, n, g[n])
    m.Tensor = STensor
    m.abs = abs_
    m.absolute = abs_
    m.max = max_
    m.amax = max_
    m.sum = sum_
    m.double = float64
    m.float = float32
    m.cfloat, m.cdouble = complex64, complex128
    m.long = int64
    m.int = int32
    m.bool = bool_
    m.multiply, m.divide, m.subtract, m.negative = mul, div, sub, neg
    m.svd = svd_old
    m.qr = qr
    m.cholesky = cholesky
    m.inverse = inv
    m.no_grad = m.inference_mode = m.enable_grad = _null_ctx
    m.get_num_threads = lambda: 1
    m.set_num_threads = lambda n: None
    m.set_grad_enabled = lambda b: None
    m.set_printoptions = lambda *a, **k: None
    m.manual_seed = lambda s: None
    m.set_default_dtype = lambda d: CTX().data.__setitem__('default_dtype', d)
    m.get_default_dtype = lambda: _default_dtype(None)
    la = types.ModuleType('torch.linalg')
    for n in ['qr', 'svd', 'svdvals', 'eigh', 'cholesky', 'inv', 'solve', 'lstsq', 'pinv', 'solve_triangular', 'norm', 'LinAlgError', 'matrix_exp', 'diagonal']:
        setattr(la, n, g[n])
    la.vector_norm = norm
    la.matrix_norm, la.multi_dot, la.eigvalsh = matrix_norm, multi_dot, eigvalsh
    la.vecdot = lambda a, b: vdot(a, b)
    m.concat = m.concatenate = cat
    m.split, m.chunk, m.unbind, m.roll, m.equal, m.allclose, m.finfo = split, chunk, unbind, roll, equal, allclose, finfo
    m.isfinite, m.isnan, m.isinf = (lambda x: x.isfinite()), (lambda x: x.isnan()), (lambda x: x.isinf())
    m.all = m.any = all_of
    m.swapdims, m.clip, m.detach, m.pinverse = swapaxes, clamp, (lambda x: x.detach()), pinv
    m.result_type = lambda a, b: result_type(_t(a), _t(b))
    m.promote_types = promote
    m.numel = lambda x: x.numel()
    m.moveaxis = movedim
    m.ger, m.inner, m.chain_matmul = outer, dot, lambda *a: multi_dot(a)
    m.linalg = la
    c = types.ModuleType('torch._C')
    c._LinAlgError = LinAlgError
    m._C = c
    m.cholesky_solve = cholesky_solve
    cuda = types.ModuleType('torch.cuda')
    cuda.is_available = lambda: False
    cuda.device_count = lambda: 0
    cuda.set_device = lambda d: None
    cuda.synchronize = lambda: None
    nvtx = types.ModuleType('torch.cuda.nvtx')
    cuda.nvtx = nvtx
    m.cuda = cuda

    def missing(modname):
        def f(name):
            if name.startswith('__'):
                raise AttributeError(name)
            # a name torch does not have either is an AttributeError
            import importlib
            if not hasattr(importlib.import_module(modname), name):
                raise AttributeError(f"module '{modname}' has no attribute '{name}'")
            raise Unsupported(f'{modname}.{name} is not modelled')
        return f
    m.__getattr__ = missing('torch')
    la.__getattr__ = missing('torch.linalg')
    m.__path__ = []
    return m
