"""Symbolic numpy arrays: views (fwd/inv index maps) on mutable buffers with functional contents."""
import itertools
import numpy as np
import z3
from .terms import *

_birth = itertools.count()


class Buffer:
    __slots__ = ('shape', 'dtype', 'content', 'name', 'birth', 'readonly', 'mutated')

    def __init__(self, shape, dtype, content, name=None):
        self.shape, self.dtype, self.content, self.name = tuple(shape), dtype, content, name
        self.birth = next(_birth)
        self.readonly = False
        self.mutated = False


def memo(fn):
    cache = {}

    def g(idx):
        key = tuple(('c', x) if isinstance(x, int) else ('z', x.get_id()) for x in idx)
        r = cache.get(key)
        if r is None:
            r = (idx, fn(idx))
            cache[key] = r
        return r[1]
    return g


def zidx(idx):
    return tuple(z3.IntVal(x) if isinstance(x, int) else x for x in idx)


def cidx(idx):
    return tuple(unlit(x) for x in idx)


class SymArr:
    """view on a buffer"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, shape, dtype, buf, fwd=None, inv=None, part=None, cls=np.ndarray, attrs=None):
        self.shape = tuple(unlit(s) for s in shape)
        self.dtype = np.dtype(dtype)
        self.buf, self.fwd, self.inv, self.part = buf, fwd, inv, part
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    ndim = property(lambda s: len(s.shape))

    @property
    def size(self):
        return iprod(self.shape)

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic array outside the interpreter")

    def kind(self):
        return dkind(self.dtype)

    # content as a function of view index at this moment
    def snap(self):
        c, fwd, part, dt = self.buf.content, self.fwd, self.part, self.dtype

        def get(idx):
            idx = cidx(idx)
            v = c(fwd(idx) if fwd is not None else idx)
            if part == 're':
                v = v.real
            elif part == 'im':
                v = v.imag
            return v
        return get

    def get(self, idx):
        v = self.snap()(idx)
        return Val(v.kind, v.re, v.im, self.dtype, v.defd)

    @staticmethod
    def from_fn(shape, dtype, fn, name=None):
        b = Buffer(shape, np.dtype(dtype), memo(lambda idx: _tag(fn(idx), dtype)), name)
        return SymArr(shape, dtype, b)

    def view(self, shape, mapf, invf):
        """compose: new index -> old index by mapf; invf: old index -> (guard, new index)"""
        f0, i0 = self.fwd, self.inv

        def fwd(idx):
            j = mapf(idx)
            return f0(j) if f0 is not None else j

        def inv(b):
            if i0 is None:
                g0, j = z3.BoolVal(True), b
            else:
                g0, j = i0(b)
            g1, k = invf(j)
            return And(g0, g1), k
        return SymArr(shape, self.dtype, self.buf, fwd, inv, self.part, self.cls, dict(self.attrs))

    def as_cls(self, cls, attrs=None):
        return SymArr(self.shape, self.dtype, self.buf, self.fwd, self.inv, self.part, cls, attrs if attrs is not None else {})

    # spec-side conveniences -------------------------------------------------
    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        assert len(idx) == len(self.shape), "spec access must give every index"
        return self.get(tuple(zint(i) if not isinstance(i, int) else i for i in idx))

    def __iter__(self):
        raise TypeError("symbolic array")

    def __repr__(self):
        return "SymArr(%s,%s,%s)" % (self.shape, self.dtype, self.buf.name)


def _tag(v, dtype):
    v = lift(v)
    k = dkind(dtype)
    if k is None:
        return v
    if v.kind == 'bv' and k == 'i':
        return v
    if v.kind != k:
        v = cast(v, k)
    return Val(v.kind, v.re, v.im, np.dtype(dtype), v.defd)


def input_array(name, shape, dtype, cls=np.ndarray, attrs=None):
    """fresh symbolic array: content given by uninterpreted functions"""
    dt = np.dtype(dtype)
    n = len(shape)
    k = dkind(dt)
    sort = {'b': BOOL, 'i': INT, 'f': REAL, 'c': REAL}[k]

    def uf(suffix):
        if n == 0:
            c = z3.Const(name + suffix, sort)
            return lambda *a: c
        return z3.Function(name + suffix, *([INT] * n + [sort]))
    if k == 'c':
        fr, fi = uf("_re"), uf("_im")
        content = memo(lambda idx: Val('c', fr(*zidx(idx)), fi(*zidx(idx)), dt))
    else:
        f = uf("")
        content = memo(lambda idx: Val(k, f(*zidx(idx)), None, dt))
    b = Buffer(shape, dt, content, name)
    return SymArr(shape, dt, b, cls=cls, attrs=attrs)


def const_array(a, name=None):
    """symbolic wrapper of a concrete numpy array (content by nested ite)"""
    a = np.asarray(a)
    shape = a.shape
    vals = a

    def content(idx):
        idx = cidx(idx)
        if all(isinstance(i, int) for i in idx):
            return lift(vals[idx])
        sub = [list(range(s)) if not isinstance(i, int) else [i] for i, s in zip(idx, shape)]
        tot = 1
        for s in sub:
            tot *= len(s)
        if tot > 4096:
            raise Unsupported("symbolic index into a large constant table")
        r = None
        for combo in itertools.product(*sub):
            v = lift(vals[combo])
            if r is None:
                r = v
            else:
                c = And(*[i == z3.IntVal(k) for i, k in zip(idx, combo) if not isinstance(i, int)])
                r = vite(c, v, r)
        return r
    b = Buffer(shape, a.dtype, memo(content), name or "const")
    s = SymArr(shape, a.dtype, b)
    s.buf.name = name
    s.concrete = a
    return s


class SymList:
    """list of symbolic length with homogeneous elements elem(i)"""
    def __init__(self, n, elem):
        self.n, self.elem = n, elem


class ListPlaceholder:
    """a list being appended to inside a summarised loop"""
    def __init__(self):
        self.items = []
