"""Contracts of the numpy operations the repository uses (trusted environment model, exercised against real numpy by
the concrete cross-check of every contract)."""
import math, itertools, functools, operator
import numpy as np
import z3
from .terms import *
from . import terms as T
from .arrays import *
from . import interp as I
from .interp import (FlowRaise, IndexedSeq, SymRange, NpMethod, ModelCallable, UNDEF, as_sym, same_int, has_sym, Unsupported,
                     SymObj, Partial, range_len, lift_int)
from .prover import Schema


def nowrite(b):
    raise Unsupported("write through a strided view")


def as_int_term(p):
    """integer term of a polynomial with integer coefficients and integer atoms"""
    r = []
    for m in sorted(p):
        c = p[m]
        if c.denominator != 1:
            raise Unsupported("fractional stride")
        t = z3.IntVal(int(c)) if c != 1 or not m else None
        for a, e in m:
            for _ in range(e):
                x = T.ATOMS[a]
                t = x if t is None else t * x
        r.append(t)
    return z3.IntVal(0) if not r else r[0] if len(r) == 1 else z3.Sum(r)


def pdiv(p, d):
    """exact quotient of polynomials, None when d does not divide p"""
    if not p:
        return None
    lead = max(d)
    q, r = {}, dict(p)
    for _ in range(50):
        if not r:
            return q
        for m in sorted(r, reverse=True):
            ex, lm, ok = dict(m), dict(lead), True
            for a, e in lm.items():
                if ex.get(a, 0) < e:
                    ok = False
                    break
                ex[a] -= e
            if ok:
                break
        else:
            return None
        mm = tuple(sorted((a, e) for a, e in ex.items() if e))
        c = r[m] / d[lead]
        q[mm] = q.get(mm, 0) + c
        r = padd(r, T.pmul({mm: c}, d), -1)
    return None


def _proxy(dt, scalar):
    dt = np.dtype(dt)
    return dt.type(1) if scalar else np.empty((1,), dt)


def _dummy(x):
    """a concrete stand-in for dtype promotion"""
    if isinstance(x, SymArr):
        return np.empty((1,) if x.ndim else (), x.dtype)
    if isinstance(x, np.ndarray):
        return np.empty((1,) if x.ndim else (), x.dtype)
    if isinstance(x, Val):
        if x.dt is not None:
            return np.dtype(x.dt).type(1)
        return {'b': True, 'i': 1, 'bv': 1, 'f': 1.0, 'c': 1j}[x.kind]
    if isinstance(x, np.generic):
        return x
    return x


def result_dtype(op, *xs):
    d = [_dummy(x) for x in xs]
    try:
        with np.errstate(all='ignore'):
            if op in ('+', '-', '*', '/', '//', '%', '**', '&', '|', '^', '<<', '>>'):
                f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
                     '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}[op]
                d = [np.ones_like(x) if isinstance(x, np.ndarray) else x for x in d]
                return np.asarray(f(*d)).dtype
            return np.result_type(*d)
    except TypeError as ex:
        raise FlowRaise(ex, str(ex))


class NP:
    ARRAY_METHODS = set("""copy conj conjugate mean sum min max argmin argmax flatten ravel reshape astype view transpose
        squeeze dot std var all any cumsum repeat tolist fill round nonzero swapaxes item sort argsort take prod clip""".split())

    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------ shapes
    def eqdim(self, a, b):
        if same_int(a, b):
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        return self.it.decide(zint(a) == zint(b))

    def bdim(self, a, b):
        a, b = unlit(a), unlit(b)
        if isinstance(a, int) and a == 1:
            return b
        if isinstance(b, int) and b == 1:
            return a
        if self.eqdim(a, b):
            return a if isinstance(a, int) or not isinstance(b, int) else b
        if not isinstance(a, int) and self.it.decide(zint(a) == 1):
            return b
        if not isinstance(b, int) and self.it.decide(zint(b) == 1):
            return a
        raise FlowRaise(ValueError("operands could not be broadcast together"), "broadcast")

    def bshape(self, *shapes):
        n = max(len(s) for s in shapes)
        out = [1] * n
        for s in shapes:
            s = (1,) * (n - len(s)) + tuple(s)
            out = [self.bdim(x, y) for x, y in zip(out, s)]
        return tuple(out)

    def baccess(self, arr, shape):
        """fn(idx of result shape) -> scalar of arr"""
        off = len(shape) - len(arr.shape)
        ones = []
        for d, full in zip(arr.shape, shape[off:]):
            ones.append((isinstance(d, int) and d == 1) and not (isinstance(full, int) and full == 1)
                        or (not same_int(d, full) and self.it.implied(zint(d) == 1)))
        g = arr.snap()
        return lambda idx: g(tuple(0 if o else i for o, i in zip(ones, idx[off:])))

    # ------------------------------------------------------------ elementwise
    def prep(self, x):
        if isinstance(x, (list, tuple)):
            return self.array(x)
        if isinstance(x, IndexedSeq):
            return self.array(x)
        if isinstance(x, np.ndarray):
            return const_array(x) if x.ndim else x[()]
        if isinstance(x, SymArr) and x.ndim == 0:
            return x.get(())
        return x

    def elementwise(self, fn, dtype, *xs):
        xs = [self.prep(x) for x in xs]
        arrs = [x for x in xs if isinstance(x, SymArr)]
        if not arrs:
            v = fn(*xs)
            return v
        if len(arrs) > 1 and any(len(a.shape) for a in arrs):
            shape = self.bshape(*[a.shape for a in arrs])
        else:
            shape = arrs[0].shape
        acc = [self.baccess(x, shape) if isinstance(x, SymArr) else None for x in xs]

        def content(idx):
            return fn(*[x if a is None else a(idx) for x, a in zip(xs, acc)])
        r = SymArr.from_fn(shape, dtype, content)
        comps = [getattr(a, 'comp', None) for a in arrs]
        if any(comps):
            toks = {c[0] for c in comps if c}
            if len(toks) == 1 and all(c or all(same_int(d, 1) for d in a.shape) for c, a in zip(comps, arrs)) and len(shape) == 1:
                c0 = [c for c in comps if c][0]
                fns = [(c[3] if c else (lambda i, a=a: a.get((0,)))) for c, a in zip(comps, arrs)]

                def vfn(i):
                    it = iter(fns)
                    return fn(*[x if not isinstance(x, SymArr) else next(it)(i) for x in xs])
                r.comp = (c0[0], c0[1], c0[2], vfn)
        return self.wrap_like(r, arrs)

    def wrap_like(self, r, srcs):
        """numpy gives elementwise results the class of the highest-priority operand"""
        best = None
        for s in srcs:
            if s.cls is not np.ndarray:
                if best is None:
                    best = s
                elif issubclass(s.cls, best.cls) and s.cls is not best.cls:
                    best = s
        if best is not None:
            return self.view_cls(r, best.cls, best)
        return r

    def view_cls(self, r, cls, src):
        """r.view(cls) with __array_finalize__(src)"""
        v = SymArr(r.shape, r.dtype, r.buf, r.fwd, r.inv, r.part, cls, {})
        if hasattr(r, 'comp'):
            v.comp = r.comp
        if cls is not np.ndarray:
            for c in cls.__mro__:
                if c is np.ndarray:
                    break
                if '__array_finalize__' in c.__dict__:
                    self.it.call(c.__dict__['__array_finalize__'], [v, src], {})
                    break
        return v

    def ufunc1(self, fn, x, dtype=None):
        x = self.prep(x)
        if isinstance(x, SymArr):
            if dtype is None:
                dtype = x.dtype
            return self.elementwise(fn, dtype, x)
        return fn(x)

    def binop(self, op, a, b):
        if op == '@':
            return self.matmul(a, b)
        if isinstance(a, (type(None), str)) or isinstance(b, (type(None), str)):
            raise FlowRaise(TypeError("unsupported operand"), "operand of %s" % op)
        a, b = self.prep(a), self.prep(b)
        if not isinstance(a, SymArr) and not isinstance(b, SymArr):
            return binop(op, a, b)
        dt = result_dtype(op, a, b)
        return self.elementwise(lambda x, y: binop(op, x, y), dt, a, b)

    def cmp(self, op, a, b):
        a, b = self.prep(a), self.prep(b)
        if not isinstance(a, SymArr) and not isinstance(b, SymArr):
            return compare(op, a, b)
        return self.elementwise(lambda x, y: compare(op, x, y), bool, a, b)

    # ------------------------------------------------------------ creation
    def shape_of(self, shape):
        if isinstance(shape, (Val, int, np.integer)):
            return (unlit(shape),)
        if isinstance(shape, SymArr):
            return tuple(unlit(v) for v in self.it.unpack(shape))
        return tuple(unlit(s) for s in shape)

    def filled(self, shape, value, dtype):
        shape = self.shape_of(shape)
        for s in shape:
            if not isinstance(s, int):
                if not self.it.decide(s >= 0):
                    raise FlowRaise(ValueError("negative dimensions are not allowed"), "array creation")
            elif s < 0:
                raise FlowRaise(ValueError("negative dimensions are not allowed"), "array creation")
        v = value
        return SymArr.from_fn(shape, dtype, lambda idx: v)

    def array(self, x, dtype=None, copy=True):
        if isinstance(x, SymArr):
            r = self.copy(x) if copy else x
            if r.cls is not np.ndarray:
                r = SymArr(r.shape, r.dtype, r.buf, r.fwd, r.inv, r.part)
            return self.astype(r, dtype) if dtype is not None else r
        if not has_sym(x):
            r = np.array(x, dtype=dtype)
            return const_array(r) if r.ndim else r[()]
        if isinstance(x, Val):
            dt = np.dtype(dtype) if dtype is not None else x.dtype
            return SymArr.from_fn((), dt, lambda idx: x)
        if isinstance(x, IndexedSeq):
            return self.stack_seq(x, dtype)
        if isinstance(x, (list, tuple)):
            el = [self.prep(y) if not is_scalar(y) else y for y in x]
            el = [e[()] if isinstance(e, np.ndarray) and e.ndim == 0 else e for e in el]
            if all(is_scalar(e) for e in el):
                dt = np.dtype(dtype) if dtype is not None else result_dtype('r', *el) if len(el) > 1 else np.asarray(_dummy(el[0])).dtype
                els = [lift(e) for e in el]

                def content(idx):
                    i = idx[0]
                    if isinstance(i, int):
                        return els[i]
                    r = els[-1]
                    for k in range(len(els) - 2, -1, -1):
                        r = vite(i == k, els[k], r)
                    return r
                return SymArr.from_fn((len(els),), dt, content)
            el = [as_sym(e) if not is_scalar(e) else e for e in el]
            if any(is_scalar(e) for e in el):
                raise Unsupported("ragged array")
            sh = el[0].shape
            for e in el[1:]:
                if len(e.shape) != len(sh) or not all(self.eqdim(p, q) for p, q in zip(e.shape, sh)):
                    raise FlowRaise(ValueError("inhomogeneous shape"), "np.array")
            dt = np.dtype(dtype) if dtype is not None else np.result_type(*[e.dtype for e in el])
            gs = [e.snap() for e in el]

            def content(idx):
                i, rest = idx[0], idx[1:]
                if isinstance(i, int):
                    return gs[i](rest)
                r = gs[-1](rest)
                for k in range(len(gs) - 2, -1, -1):
                    r = vite(i == k, gs[k](rest), r)
                return r
            return SymArr.from_fn((len(el),) + tuple(sh), dt, content)
        raise Unsupported("np.array of %s" % type(x))

    def stack_seq(self, x, dtype=None):
        e0 = x.fn(z3.IntVal(0)) if not isinstance(x.n, int) else x.fn(0)
        probe = self.prep(x.fn(FreshInt("e")))
        if is_scalar(probe):
            dt = np.dtype(dtype) if dtype is not None else lift(probe).dtype
            return SymArr.from_fn((x.n,), dt, lambda idx: self.prep(x.fn(idx[0])))
        probe = as_sym(probe)
        dt = np.dtype(dtype) if dtype is not None else probe.dtype
        return SymArr.from_fn((x.n,) + probe.shape, dt, lambda idx: as_sym(self.prep(x.fn(idx[0]))).get(idx[1:]))

    def asarray(self, x, dtype=None):
        if isinstance(x, SymArr):
            r = x if x.cls is np.ndarray else SymArr(x.shape, x.dtype, x.buf, x.fwd, x.inv, x.part)
            if hasattr(x, 'comp'):
                r.comp = x.comp
            if dtype is not None and np.dtype(dtype) != r.dtype:
                r = self.astype(r, dtype)
            return r
        return self.array(x, dtype)

    def copy(self, x):
        if isinstance(x, Val):
            return x
        if isinstance(x, np.ndarray):
            return x.copy()
        g = x.snap()
        r = SymArr.from_fn(x.shape, x.dtype, g)
        if hasattr(x, 'comp'):
            r.comp = x.comp
        return self.wrap_like(r, [x])

    def astype(self, x, dtype):
        if isinstance(x, Val):
            return cast(x, dkind(dtype), np.dtype(dtype))
        if isinstance(x, np.ndarray):
            return x.astype(dtype)
        if isinstance(x, (int, float, complex)):
            return np.asarray(x).astype(dtype)[()]
        dt = np.dtype(dtype)
        g = x.snap()
        r = SymArr.from_fn(x.shape, dt, lambda idx: cast(g(idx), dkind(dt), dt))
        if hasattr(x, 'comp'):
            c = x.comp
            r.comp = (c[0], c[1], c[2], lambda i: cast(c[3](i), dkind(dt), dt))
        return self.wrap_like(r, [x])

    def arange(self, *a, **kw):
        dtype = kw.get('dtype')
        a = [self.prep(x) for x in a]
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a[:3]
        if len(a) == 4:
            dtype = a[3]
        vals = [lift(x) for x in (lo, hi, st)]
        if all(v.kind in ('i', 'b') for v in vals):
            n = range_len(self.it, SymRange(unlit(lo), unlit(hi), unlit(st)))
            dt = np.dtype(dtype) if dtype is not None else np.dtype(int)
            r = SymArr.from_fn((n,), dt, lambda idx: cast(lift(iadd(unlit(lo), imul(idx[0], unlit(st)))), dkind(dt), dt))
            r.progression = (unlit(lo), unlit(hi), unlit(st), r.buf.content)
            return r
        # real step: length is ceil((hi-lo)/st)
        lo_, hi_, st_ = (v.as_real() for v in vals)
        q = rdiv(rsub(hi_, lo_), st_)
        n = z3.simplify(-z3.ToInt(-q))
        if not self.it.implied(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        dt = np.dtype(dtype) if dtype is not None else np.dtype(float)
        return SymArr.from_fn((unlit(n),), dt, lambda idx: Val('f', radd(lo_, rmul(z3.ToReal(zint(idx[0])), st_)), None, dt))

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, dtype=None):
        a, b, num = self.prep(a), self.prep(b), unlit(self.prep(num))
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            raise Unsupported("linspace of arrays")
        ra, rb = lift(a).as_real(), lift(b).as_real()
        if endpoint:
            div = isub(num, 1)
        else:
            div = num
        if isinstance(div, int) and div <= 0:
            step = z3.RealVal(0)
        else:
            step = rdiv(rsub(rb, ra), z3.ToReal(zint(div)))
            if not isinstance(div, int) and not self.it.implied(zint(div) > 0):
                step = z3.If(zint(div) > 0, step, z3.RealVal(0))
        return SymArr.from_fn((num,), float, lambda idx: Val('f', radd(ra, rmul(z3.ToReal(zint(idx[0])), step)), None, np.dtype(float)))

    def mgrid(self, sl):
        axes = []
        for s in (sl if isinstance(sl, tuple) else (sl,)):
            st = lift(s.step if s.step is not None else 1)
            if st.kind == 'c':
                if not (z3.is_rational_value(st.re) and st.re.as_fraction() == 0):
                    raise Unsupported("mgrid with a general complex step")
                im = z3.simplify(st.im)
                if not self.it.implied(im >= 0):
                    raise Unsupported("mgrid with a step of unknown sign")
                for f, _ in self.it.facts:       # the number of points, where a fact names it
                    if z3.is_eq(f) and z3.is_real(f.arg(0)):
                        for x, y in (f.children(), f.children()[::-1]):
                            if z3.is_app(x) and x.decl().name() == 'SQRT':
                                im = z3.simplify(z3.substitute(im, (x, y)))
                n = Val('i', toint(im))
                axes.append(self.linspace(s.start, s.stop, n))
            else:
                axes.append(self.arange(s.start, s.stop, s.step if s.step is not None else 1))
        dt = np.result_type(*[a.dtype for a in axes])
        axes = [as_sym(self.astype(a, dt)) for a in axes]
        if not isinstance(sl, tuple):
            return axes[0]

        def fn(idx):
            r = axes[-1].get((idx[len(axes)],))
            for k in range(len(axes) - 2, -1, -1):
                c = zint(idx[0]) == k
                r = vite(z3.simplify(c), axes[k].get((idx[k + 1],)), r)
            return r
        return SymArr.from_fn((len(axes),) + tuple(a.shape[0] for a in axes), dt, fn)

    # ------------------------------------------------------------ attributes / methods
    def arr_attr(self, o, name):
        if name == 'shape':
            return tuple(lift_int(s) if isinstance(s, int) else Val('i', s) for s in o.shape)
        if name == 'dtype':
            return o.dtype
        if name == 'size':
            s = o.size
            return s if isinstance(s, int) else Val('i', s)
        if name == 'ndim':
            return o.ndim
        if name == 'nbytes':
            return lift(imul(o.size, o.dtype.itemsize))
        if name == 'itemsize':
            return o.dtype.itemsize
        if name == 'T':
            return self.transpose(o)
        if name in ('real', 'imag'):
            return self.part(o, name)
        if name == 'flat':
            return self.reshape(o, (o.size,))
        if name == 'strides':
            return tuple(Val('i', s) for s in self.strides(o)[0])
        if name == 'base':
            return None
        if name == 'flags':
            raise Unsupported("array flags")
        if name in self.ARRAY_METHODS:
            return NpMethod(name, o)
        return UNDEF

    def part(self, o, name):
        if isinstance(o, (Val, int, float, complex, np.generic)):
            return getattr(o, name)
        o = as_sym(o)
        if o.dtype.kind != 'c':
            if name == 'real':
                return o
            return SymArr.from_fn(o.shape, o.dtype, lambda idx: lift(0))
        rd = real_dtype(o.dtype)
        p = 're' if name == 'real' else 'im'
        r = SymArr(o.shape, rd, o.buf, o.fwd, o.inv, p)
        if hasattr(o, 'comp'):
            c = o.comp
            r.comp = (c[0], c[1], c[2], lambda i: getattr(c[3](i), name))
        return self.wrap_like(r, [o]) if o.cls is not np.ndarray else r

    def method(self, o, name, args, kw):
        np_ = self
        if isinstance(o, (Val, np.generic, int, float, complex)) and not isinstance(o, np.ndarray):
            if name in ('copy', 'item', 'squeeze', 'flatten', 'ravel'):
                if name in ('flatten', 'ravel'):
                    return self.array([o])
                return o
            if name in ('conj', 'conjugate'):
                return lift(o).conj()
            if name == 'astype':
                return self.astype(lift(o), *args)
            if name in ('mean', 'sum', 'min', 'max'):
                return o
            if name == 'dot':
                return binop('*', o, args[0])
            raise Unsupported("scalar method %s" % name)
        f = {
            'copy': lambda *a, **k: np_.copy(o),
            'conj': lambda: np_.conj(o), 'conjugate': lambda: np_.conj(o),
            'astype': lambda dt, **k: np_.astype(o, dt),
            'mean': lambda *a, **k: np_.mean(o, *a, **k), 'sum': lambda *a, **k: np_.sum(o, *a, **k),
            'min': lambda *a, **k: np_.minmax(o, 'MIN', *a, **k), 'max': lambda *a, **k: np_.minmax(o, 'MAX', *a, **k),
            'argmin': lambda *a, **k: np_.argminmax(o, 'ARGMIN', *a, **k), 'argmax': lambda *a, **k: np_.argminmax(o, 'ARGMAX', *a, **k),
            'flatten': lambda *a: np_.copy(np_.reshape(o, (as_sym(o).size,))), 'ravel': lambda *a: np_.reshape(o, (as_sym(o).size,)),
            'reshape': lambda *a, **k: np_.reshape(o, a[0] if len(a) == 1 else a, **k),
            'view': lambda *a, **k: np_.view(o, *a, **k),
            'transpose': lambda *a: np_.transpose(o, *a), 'squeeze': lambda *a, **k: np_.squeeze(o, *a, **k),
            'dot': lambda b: np_.dot(o, b), 'std': lambda *a, **k: np_.std(o, *a, **k), 'var': lambda *a, **k: np_.var(o, *a, **k),
            'all': lambda *a, **k: np_.allany(o, True, *a, **k), 'any': lambda *a, **k: np_.allany(o, False, *a, **k),
            'cumsum': lambda *a, **k: np_.cumsum(o, *a, **k), 'repeat': lambda *a, **k: np_.repeat(o, *a, **k),
            'tolist': lambda: np_.tolist(o), 'fill': lambda v: np_.it.setitem(o, (Ellipsis,), v),
            'nonzero': lambda: np_.nonzero(o), 'swapaxes': lambda a, b: np_.swapaxes(o, a, b),
            'take': lambda *a, **k: np_.take(o, *a, **k), 'item': lambda *a: np_.it.getitem(o, a), 'round': lambda *a: np_.round(o, *a),
        }.get(name)
        if f is None:
            raise Unsupported("array method %s" % name)
        if not isinstance(o, SymArr):
            if not has_sym(args) and not has_sym(list(kw.values())):
                try:
                    return getattr(o, name)(*args, **kw)
                except Exception as ex:
                    raise FlowRaise(ex, "%s" % name)
            o = as_sym(o)
        return f(*args, **kw)

    def tolist(self, o):
        n = o.shape[0]
        if isinstance(n, int) and o.ndim == 1:
            return [o.get((i,)) for i in range(n)]
        return IndexedSeq(n, lambda i: self.it.getitem(o, i))

    def conj(self, o):
        o = self.prep(o)
        if isinstance(o, SymArr):
            return self.elementwise(lambda v: lift(v).conj(), o.dtype, o)
        return lift(o).conj() if isinstance(o, Val) else np.conj(o)

    def view(self, o, typ=None, type=None, dtype=None):
        typ = type if typ is None else typ
        if isinstance(typ, builtins_type) and issubclass(typ, np.ndarray):
            return self.view_cls(o, typ, o)
        raise Unsupported("view with dtype")

    def transpose(self, o, *axes):
        o = as_sym(o)
        n = o.ndim
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(n)))
        axes = tuple(int(a) % n for a in axes)
        inv = [axes.index(i) for i in range(n)]
        r = o.view(tuple(o.shape[a] for a in axes), lambda idx: tuple(idx[inv[i]] for i in range(n)),
                   lambda b: (z3.BoolVal(True), tuple(b[a] for a in axes)))
        return self.keep_cls(r, o)

    def keep_cls(self, r, o):
        if o.cls is np.ndarray:
            r.attrs = {}
            return r
        return self.view_cls(SymArr(r.shape, r.dtype, r.buf, r.fwd, r.inv, r.part), o.cls, o)

    def affine(self, o):
        """(offsets, coefs): buffer index_j of view index i is offsets[j] + sum_k coefs[k][j]*i_k"""
        if o.part is not None:
            raise Unsupported("strides of a real or imaginary part")
        nb = len(o.buf.shape)
        if o.fwd is None:
            return [{} for _ in range(nb)], [[T.pconst(1) if j == k else {} for j in range(nb)] for k in range(o.ndim)]
        ix = tuple(FreshInt("st") for _ in o.shape)
        names = [x.decl().name() for x in ix]
        at = o.fwd(ix)
        off, coef = [], [[None] * nb for _ in ix]
        for j, t in enumerate(at):
            p = poly(zint(t))
            base = {}
            cs = [{} for _ in ix]
            for m, c in p.items():
                hit = [(q, e) for q, nm in enumerate(names) for a, e in m if a == nm]
                if not hit:
                    if any(n in T.ATOM_DEPS[a] for a, e in m for n in names):
                        raise Unsupported("strides of a view that is not affine")
                    base[m] = c
                    continue
                if len(hit) != 1 or hit[0][1] != 1:
                    raise Unsupported("strides of a view that is not affine")
                q = hit[0][0]
                cs[q][tuple((a, e) for a, e in m if a != names[q])] = c
            off.append(base)
            for q in range(len(ix)):
                coef[q][j] = cs[q]
        return off, coef

    def bufstrides(self, b):
        """strides of the (C contiguous) buffer in elements, as polynomials"""
        acc, st = T.pconst(1), []
        for d in reversed(b.shape):
            st.append(acc)
            acc = T.pmul(acc, poly(zint(d)))
        return list(reversed(st))

    def strides(self, o):
        off, coef = self.affine(o)
        bs = self.bufstrides(o.buf)
        it = T.pconst(o.dtype.itemsize)
        out = []
        for k in range(o.ndim):
            p = {}
            for j in range(len(bs)):
                p = padd(p, T.pmul(coef[k][j], bs[j]))
            out.append(T.pmul(it, p))
        return [as_int_term(p) for p in out], off, coef, bs

    def contiguous(self, o):
        """condition under which the view is one C or Fortran contiguous block"""
        st = [poly(x) for x in self.strides(o)[0]]

        def cond(order):
            acc, cs = T.pconst(o.dtype.itemsize), []
            for k in order:
                if st[k] != acc:
                    cs.append(Or(zint(o.shape[k]) == 1, as_int_term(st[k]) == as_int_term(acc)))
                acc = T.pmul(acc, poly(zint(o.shape[k])))
            return And(*cs)
        n = o.ndim
        return Or(cond(range(n - 1, -1, -1)), cond(range(n)), *[zint(d) == 0 for d in o.shape])

    def strided(self, o, shape, strides, cls=np.ndarray):
        """view of o's memory with the given shape and byte strides; every address has to lie inside the buffer"""
        o = as_sym(o)
        shape = tuple(unlit(lift(s).as_int()) for s in shape)
        st = [poly(lift(s).as_int()) for s in strides]
        if len(st) != len(shape):
            raise FlowRaise(ValueError("mismatch in length of strides and shape"), "strides")
        own, off, coef, bs = self.strides(o)
        nb = len(bs)
        isz = o.dtype.itemsize
        own = [poly(x) for x in own]
        cf = [[{} for _ in range(nb)] for _ in shape]
        for k, p in enumerate(st):
            for a in sorted(range(o.ndim), key=lambda a: list(own[a]) == [()]):
                q = pdiv(p, own[a]) if own[a] else None
                if q is not None and all(c.denominator == 1 for c in q.values()):
                    cf[k] = [T.pmul(q, c) for c in coef[a]]
                    break
            if any(cf[k]):
                continue
            p = {m: c / isz for m, c in p.items()}
            if any(c.denominator != 1 for c in p.values()):
                raise Unsupported("stride is not a multiple of the item size")
            for j in range(nb):
                if j == nb - 1:
                    cf[k][j] = p
                    break
                if list(bs[j]) == [()]:
                    continue
                q = pdiv(p, bs[j])
                if q is not None:
                    cf[k][j] = q
                    break
        offz = [as_int_term(x) for x in off]
        cz = [[as_int_term(x) if x else None for x in r] for r in cf]

        def fwd(idx):
            out = []
            for j in range(nb):
                t = offz[j]
                for k, i in enumerate(idx):
                    if cz[k][j] is not None:
                        t = iadd(t, imul(cz[k][j], i))
                out.append(unlit(t))
            return tuple(out)
        g = tuple(FreshInt("ad") for _ in shape)
        rng = And(*[And(x >= 0, x < zint(s)) for x, s in zip(g, shape)])
        at = fwd(g)
        for j in range(nb):
            self.it.oblige("strided view stays inside the array", z3.Implies(rng, And(zint(at[j]) >= 0, zint(at[j]) < zint(o.buf.shape[j]))))
        return SymArr(shape, o.dtype, o.buf, fwd, nowrite, None, cls, {})

    def take(self, o, idx, axis=None, mode='raise'):
        o = as_sym(self.prep(o))
        if axis is None:
            o, axis = self.reshape(o, (o.size,)), 0
        axis = axis % o.ndim
        idx = self.prep(idx)
        if mode == 'wrap':
            idx = self.it.binop('%', idx, Val('i', zint(o.shape[axis])))
        elif mode != 'raise':
            raise Unsupported("take mode %s" % mode)
        return self.it.getitem(o, tuple([slice(None)] * axis + [idx]))

    def insert(self, a, pos, val, axis=None):
        a = as_sym(self.prep(a))
        if axis is None or pos != 0 or not is_scalar(val):
            raise Unsupported("np.insert other than a scalar at the front")
        axis = axis % a.ndim
        v = cast(lift(val), a.kind())
        z = SymArr.from_fn(tuple(1 if d == axis else s for d, s in enumerate(a.shape)), a.dtype, lambda idx: v)
        return self.concatenate([z, a], axis)

    def swapaxes(self, o, a, b):
        n = as_sym(o).ndim
        ax = list(range(n))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(o, *ax)

    def squeeze(self, o, axis=None):
        o = as_sym(o)
        ax = None if axis is None else [a % o.ndim for a in ((axis,) if isinstance(axis, int) else axis)]
        drop = [i for i, d in enumerate(o.shape) if (ax is None and (d == 1 if isinstance(d, int) else self.it.decide(zint(d) == 1))) or (ax is not None and i in ax)]
        keep = [i for i in range(o.ndim) if i not in drop]

        def mapf(idx):
            r = [0] * o.ndim
            for k, i in zip(keep, idx):
                r[k] = i
            return tuple(r)
        r = o.view(tuple(o.shape[i] for i in keep), mapf, lambda b: (And(*[zint(b[i]) == 0 for i in drop]), tuple(b[i] for i in keep)))
        r = self.keep_cls(r, o)
        if not keep:
            return r.get(())
        return r

    def reshape(self, o, shape, order='C'):
        o = self.prep(o)
        if not isinstance(o, SymArr):
            o = self.array([o])
        if order not in ('C', 'c'):
            raise Unsupported("reshape order")
        if isinstance(shape, (Val, int, np.integer)):
            shape = (shape,)
        shape = tuple(unlit(s) for s in shape)
        size = o.size
        neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if neg:
            rest = iprod([s for i, s in enumerate(shape) if i != neg[0]])
            q = self.exact_div(size, rest)
            if q is None:
                if isinstance(size, int) and isinstance(rest, int):
                    if rest == 0 or size % rest:
                        raise FlowRaise(ValueError("cannot reshape"), "reshape")
                    q = size // rest
                else:
                    if not self.it.decide(zint(size) % zint(rest) == 0):
                        raise FlowRaise(ValueError("cannot reshape array"), "reshape")
                    q = unlit(idiv_term(zint(size), zint(rest)))
            shape = tuple(q if i == neg[0] else s for i, s in enumerate(shape))
        else:
            if not self.eqdim(iprod(shape), size):
                raise FlowRaise(ValueError("cannot reshape array"), "reshape")
        old = o.shape
        if len(old) == len(shape) and all(same_int(a, b) for a, b in zip(old, shape)):
            return self.keep_cls(o.view(shape, lambda i: i, lambda b: (z3.BoolVal(True), b)), o)
        mapf = self.reindex(old, shape)
        back = self.reindex(shape, old)
        r = o.view(shape, mapf, lambda b: (z3.BoolVal(True), back(b)))
        return self.keep_cls(r, o)

    def exact_div(self, a, b):
        a, b = unlit(a), unlit(b)
        if isinstance(b, int) and b == 1:
            return a
        if isinstance(a, int) and isinstance(b, int):
            return a // b if b and a % b == 0 else None
        try:
            p = pmul(poly(zint(a)), pinv(poly(zint(b))))
        except Exception:
            return None
        if any(e < 0 for m in p for _, e in m) or any(c.denominator != 1 for c in p.values()):
            return None
        r = z3.IntVal(0)
        for m, c in p.items():
            t = z3.IntVal(int(c))
            for k, e in m:
                x = T.ATOMS[k]
                if not z3.is_int(x):
                    return None
                for _ in range(e):
                    t = t * x
            r = r + t
        return unlit(z3.simplify(r))

    def reindex(self, old, new):
        """function mapping an index of shape `new` to an index of shape `old` (same size)"""
        # strip equal leading / trailing dims
        lead = 0
        while lead < min(len(old), len(new)) and same_int(old[lead], new[lead]):
            lead += 1
        trail = 0
        while trail < min(len(old), len(new)) - lead and same_int(old[-1 - trail], new[-1 - trail]):
            trail += 1
        o, n = old[lead:len(old) - trail], new[lead:len(new) - trail]

        def f(idx):
            a, b, c = idx[:lead], idx[lead:len(new) - trail], idx[len(new) - trail:]
            # linear index in the middle block
            mid_n = [(d, i) for d, i in zip(n, b) if not (isinstance(d, int) and d == 1)]
            if not mid_n:
                lin = 0
            else:
                lin = mid_n[0][1]
                for d, i in mid_n[1:]:
                    lin = iadd(imul(lin, d), i)
            mo = [d for d in o if not (isinstance(d, int) and d == 1)]
            out = []
            # unravel lin over the non-unit dims of o
            vals = []
            if len(mo) == 1:
                vals = [lin]
            elif mo:
                # divide by trailing products, trying to split syntactically
                rem = lin
                for k in range(len(mo) - 1):
                    p = iprod(mo[k + 1:])
                    q, r = self.divmod_(rem, p)
                    vals.append(q)
                    rem = r
                vals.append(rem)
            it = iter(vals)
            mid = tuple(0 if (isinstance(d, int) and d == 1) else next(it) for d in o)
            return tuple(a) + mid + tuple(c)
        return f

    def divmod_(self, a, b):
        a, b = unlit(a), unlit(b)
        if isinstance(a, int) and isinstance(b, int):
            return a // b, a % b
        # a = b*q + r syntactically with 0 <= r < b provable
        q = self.poly_quot(a, b)
        if q is not None:
            qq, rr = q
            if self.it.implied(And(zint(rr) >= 0, zint(rr) < zint(b))):
                return qq, rr
        if isinstance(b, int) and b == 0:
            return a, 0
        # assume positive size on access
        za, zb = zint(a), zint(b)
        if conc_int(zb) is None and not self.it.implied(zb > 0):
            # indices are only formed for non-empty arrays
            pass
        return unlit(za / zb), unlit(za % zb)

    def poly_quot(self, a, b):
        try:
            pa, pb = poly(zint(a)), poly(zint(b))
        except Exception:
            return None
        if len(pb) != 1:
            return None
        (mb, cb), = pb.items()
        db = dict(mb)
        qp, rp = {}, {}
        for m, c in pa.items():
            dm = dict(m)
            if all(dm.get(k, 0) >= e for k, e in db.items()) and (c / cb).denominator == 1:
                qm = tuple(sorted((k, e - db.get(k, 0)) for k, e in dm.items() if e - db.get(k, 0)))
                qp[qm] = c / cb
            else:
                rp[m] = c
        if not qp:
            return None
        return self.poly_int(qp), self.poly_int(rp)

    def poly_int(self, p):
        r = z3.IntVal(0)
        for m, c in p.items():
            t = z3.IntVal(int(c))
            for k, e in m:
                x = T.ATOMS[k]
                if not z3.is_int(x):            # the polynomial leaves out the conversion of integer-valued sums
                    x = toint(x)
                for _ in range(e):
                    t = t * x
            r = r + t
        return unlit(z3.simplify(r))

    # ------------------------------------------------------------ indexing
    def norm_index(self, k, n, what="index"):
        k = unlit(self.prep(k) if not isinstance(k, (int, Val)) else k)
        if isinstance(k, Val):
            raise Unsupported("non-integer index")
        if isinstance(k, int):
            if k < 0:
                if isinstance(n, int):
                    if k + n < 0:
                        raise FlowRaise(IndexError("index out of bounds"), "index")
                    return k + n
                self.it.oblige("index %d in range" % k, zint(n) + k >= 0)
                return isub(n, -k)
            if isinstance(n, int):
                if k >= n:
                    raise FlowRaise(IndexError("index out of bounds"), "index")
                return k
            self.it.oblige("index in range", zint(k) < zint(n))
            return k
        self.it.oblige("index in range", And(k >= -zint(n), k < zint(n)))
        if self.it.implied(k >= 0):
            return k
        if self.it.implied(k < 0):
            return iadd(k, n)
        return z3.If(k >= 0, k, k + zint(n))

    def norm_slice(self, s, n):
        """-> (start, step, length); element q is start + q*step"""
        it = self.it
        step = 1 if s.step is None else unlit(s.step)
        if not isinstance(step, int):
            if not it.implied(zint(step) > 0):
                raise Unsupported("slice with symbolic step")
        elif step == 0:
            raise FlowRaise(ValueError("slice step cannot be zero"), "slice")

        def bound(x, default):
            if x is None:
                return default
            x = unlit(self.prep(x))
            if isinstance(x, Val):
                if x.kind == 'f':
                    raise FlowRaise(TypeError("slice indices must be integers"), "slice")
                raise Unsupported("slice bound")
            if isinstance(x, float):
                raise FlowRaise(TypeError("slice indices must be integers"), "slice")
            return x
        if isinstance(step, int) and step < 0:
            if s.start is None and s.stop is None and step == -1:
                return isub(n, 1), -1, n
            if isinstance(n, int) and all(x is None or isinstance(unlit(x), int) for x in (s.start, s.stop)):
                r = range(*slice(None if s.start is None else unlit(s.start), None if s.stop is None else unlit(s.stop), step).indices(n))
                return r.start, step, len(r)
            raise Unsupported("negative slice step")
        a, b = bound(s.start, 0), bound(s.stop, n)
        a, b = self.clamp(a, n), (n if s.stop is None else self.clamp(b, n))
        if isinstance(a, int) and isinstance(b, int):
            d = max(b - a, 0)
            if isinstance(step, int):
                return a, step, -(-d // step)
        d = isub(b, a)
        if isinstance(d, int):
            d = max(d, 0)
        elif not it.implied(zint(d) >= 0):
            d = z3.If(zint(d) >= 0, zint(d), z3.IntVal(0))
        if isinstance(step, int) and step == 1:
            return a, 1, d
        return a, step, unlit(idiv_term(zint(iadd(d, isub(step, 1))), zint(step)))

    def clamp(self, x, n):
        it = self.it
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x + n if x < 0 else x))
        if isinstance(x, int) and x < 0:
            y = iadd(n, x)
            if it.implied(zint(y) >= 0):
                return y
            return z3.If(zint(y) >= 0, zint(y), z3.IntVal(0))
        zx, zn = zint(x), zint(n)
        k = it.known(zx >= 0) if not isinstance(x, int) else True
        if k is False:
            y = iadd(x, n)
            if it.implied(zint(y) >= 0):
                return y
            return z3.If(zint(y) >= 0, zint(y), z3.IntVal(0))
        if k is None:
            if it.implied(zx + zn >= 0) and it.implied(zx <= zn):
                return z3.If(zx >= 0, zx, zx + zn)
            y = z3.If(zx < 0, z3.If(zx + zn < 0, z3.IntVal(0), zx + zn), z3.If(zx > zn, zn, zx))
            return y
        if it.implied(zx <= zn):
            return x
        if it.implied(zx >= zn):
            return n
        return z3.If(zx <= zn, zx, zn)

    def expand_index(self, a, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        out = []
        nb = sum(1 for i in idx if not (i is None or i is Ellipsis or self.is_mask(i)))
        nb += sum(self.prep(i).ndim for i in idx if i is not None and i is not Ellipsis and self.is_mask(i))
        seen = False
        for i in idx:
            if i is Ellipsis:
                seen = True
                out += [slice(None)] * (a.ndim - nb)
            else:
                out.append(i)
        if not seen:
            out += [slice(None)] * (a.ndim - nb)
        if nb > a.ndim:
            raise FlowRaise(IndexError("too many indices for array"), "index")
        return out

    def is_mask(self, i):
        if isinstance(i, SymArr):
            return i.dtype.kind == 'b' and i.ndim > 0
        if isinstance(i, np.ndarray):
            return i.dtype.kind == 'b' and i.ndim > 0
        if isinstance(i, list):
            return len(i) > 0 and all(isinstance(x, (bool, np.bool_)) for x in i)
        return False

    def is_fancy(self, i):
        return isinstance(i, (list, IndexedSeq)) or isinstance(i, (SymArr, np.ndarray)) and i.ndim > 0 or isinstance(i, tuple)

    def getitem(self, a, idx):
        full = self.expand_index(a, idx)
        if a.cls is not np.ndarray:
            # overridden __getitem__
            for c in a.cls.__mro__:
                if c is np.ndarray:
                    break
                if '__getitem__' in c.__dict__:
                    raise Unsupported("overridden __getitem__")
        if any(self.is_fancy(i) for i in full):
            return self.fancy_get(a, full)
        r = self.basic(a, full)
        if not r.shape:
            return r.get(())
        return self.keep_cls(r, a)

    def basic(self, a, full):
        """view for a basic index"""
        spec = []       # per base dim: ('i',k) | ('s',start,step,len) ; None entries are new axes
        d = 0
        for i in full:
            if i is None:
                spec.append(('n',))
                continue
            n = a.shape[d]
            if isinstance(i, slice):
                if i == slice(None):
                    spec.append(('s', 0, 1, n))
                else:
                    spec.append(('s',) + tuple(self.norm_slice(i, n)))
            else:
                if isinstance(i, (bool, np.bool_)) or isinstance(i, Val) and i.kind == 'b':
                    raise Unsupported("boolean scalar index")
                if isinstance(i, (float, np.floating)) or isinstance(i, Val) and i.kind in ('f', 'c'):
                    raise FlowRaise(IndexError("only integers are valid indices"), "index")
                spec.append(('i', self.norm_index(i, n)))
            d += 1
        shape = tuple(1 if s[0] == 'n' else s[3] for s in spec if s[0] != 'i')

        def mapf(idx):
            out, p = [], 0
            for s in spec:
                if s[0] == 'n':
                    p += 1
                elif s[0] == 'i':
                    out.append(s[1])
                else:
                    out.append(iadd(s[1], imul(idx[p], s[2])))
                    p += 1
            return tuple(out)

        def invf(b):
            g, out, p = [], [], 0
            for s in spec:
                if s[0] == 'n':
                    out.append(0)
                    continue
                x = b[p]
                p += 1
                if s[0] == 'i':
                    g.append(zint(x) == zint(s[1]))
                    continue
                st = s[2]
                y = isub(x, s[1])
                if isinstance(st, int) and st == 1:
                    q = y
                elif isinstance(st, int) and st == -1:
                    q = isub(s[1], x)
                elif isinstance(st, int) and st < 0:
                    q = unlit(zint(isub(s[1], x)) / z3.IntVal(-st))
                    g.append(zint(isub(s[1], x)) % (-st) == 0)
                else:
                    # x == start + q*step
                    pq = self.poly_quot(y, st) if not isinstance(y, int) else None
                    if pq is not None and same_int(pq[1], 0):
                        q = pq[0]
                    else:
                        q = unlit(zint(y) / zint(st))
                        g.append(zint(y) % zint(st) == 0)
                whole = isinstance(s[1], int) and s[1] == 0 and isinstance(st, int) and st == 1 and same_int(s[3], a.shape[p - 1])
                if not whole:
                    g += [zint(q) >= 0, zint(q) < zint(s[3])]
                out.append(q)
            return And(*[z3.simplify(x) for x in g]), tuple(out)
        return a.view(shape, mapf, invf)

    def fancy_get(self, a, full):
        # masks: replaced by compressed index arrays
        pos = [k for k, i in enumerate(full) if i is not None and self.is_fancy(i)]
        idxs = []
        comp = None
        dims = []
        d = 0
        for i in full:
            if i is None:
                dims.append(None)
            elif self.is_mask(i):
                m = as_sym(self.prep(i))
                dims.append(d)
                d += m.ndim
            else:
                dims.append(d)
                d += 1
        new = []
        for k, i in enumerate(full):
            if k in pos and self.is_mask(i):
                m = as_sym(self.prep(i))
                if m.ndim != 1:
                    raise Unsupported("multi-dimensional mask")
                if not self.eqdim(m.shape[0], a.shape[dims[k]]):
                    raise FlowRaise(IndexError("boolean index did not match"), "mask index")
                sel = self.compress_index(m)
                comp = (k, sel)
                new.append(sel)
            elif k in pos:
                x = i
                if isinstance(x, (list, tuple, IndexedSeq)):
                    x = self.array(list(x) if isinstance(x, tuple) else x)
                x = as_sym(x)
                if x.dtype.kind not in 'iu':
                    raise FlowRaise(IndexError("arrays used as indices must be of integer type"), "index")
                new.append(x)
            else:
                new.append(i)
        shape_adv = self.bshape(*[new[k].shape for k in pos])
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        # scalars next to advanced indices are advanced as well; only the simple adjacent case matters
        basic = [slice(None) if k in pos else i for k, i in enumerate(new)]
        base = self.basic(a, basic)      # advanced axes kept whole
        # axes of base that correspond to the advanced positions
        ax, p = [], 0
        for k, i in enumerate(new):
            if i is None or isinstance(i, slice):
                p += 1
            elif k in pos:
                ax.append(p)
                p += 1
        nb = len(base.shape)
        rest = [q for q in range(nb) if q not in ax]
        at = ax[0] if contiguous else 0
        if contiguous and any(not isinstance(i, slice) and i is not None and k not in pos for k, i in enumerate(new)):
            # integers mixed with one index array: numpy broadcasts them together; adjacent int keeps position
            at = ax[0]
        acc = [self.baccess(new[k], shape_adv) for k in pos]
        na = len(shape_adv)
        shape = tuple(base.shape[q] for q in rest if q < at) + tuple(shape_adv) + tuple(base.shape[q] for q in rest if q >= at)
        g = base.snap()
        # bounds obligations on a generic element
        gi = tuple(FreshInt("g") if not (isinstance(s, int) and s == 1) else 0 for s in shape_adv)
        rng = And(*[And(x >= 0, x < zint(s)) for x, s in zip(gi, shape_adv) if not isinstance(x, int)])
        negs = []
        for t, q in zip(acc, ax):
            v = lift(t(gi)).as_int()
            n = zint(base.shape[q])
            if comp is None or pos.index(comp[0]) != ax.index(q):
                self.it.oblige("index array in range", z3.Implies(rng, And(v >= -n, v < n)))
            fm = len(self.it.facts)
            self.it.facts.append((rng, False))
            negs.append(not self.it.implied(v >= 0))
            del self.it.facts[fm:]
        nlead = len([q for q in rest if q < at])

        def content(idx):
            lead, adv, tail = idx[:nlead], idx[nlead:nlead + na], idx[nlead + na:]
            out = [None] * nb
            it1 = iter(tuple(lead) + tuple(tail))
            for q in rest:
                out[q] = next(it1)
            for q, t, neg in zip(ax, acc, negs):
                v = unlit(lift(t(adv)))
                if neg:
                    v = z3.If(zint(v) >= 0, zint(v), zint(v) + zint(base.shape[q])) if not isinstance(v, int) else (v if v >= 0 else iadd(v, base.shape[q]))
                out[q] = v
            return g(tuple(out))
        r = SymArr.from_fn(shape, a.dtype, content)
        if comp is not None and len(shape) == 1 and nb == 1:
            sel = comp[1]
            c = sel.comp
            r.comp = (c[0], c[1], c[2], lambda i: g((i,)))
        elif comp is None and len(pos) == 1 and getattr(new[pos[0]], 'comp', None) and nb == 1:
            c = new[pos[0]].comp
            r.comp = (c[0], c[1], c[2], lambda i: g((unlit(c[3](i)),)))
        if not shape:
            return r.get(())
        return self.wrap_like(r, [a])

    _sel = {}
    _tok = {}

    def compress_index(self, m):
        """np.nonzero(mask)[0] of a 1-d mask as an index array with its defining schemas"""
        tl = getattr(m, 'tiled', None)
        if tl is not None and tl[1] is m.buf.content:
            return self.compress_tiled(m, tl[0], tl[2])
        n = zint(m.shape[0])
        g = m.snap()
        k = FreshInt("m")
        if self.all_true(g, n):
            r = SymArr.from_fn((m.shape[0],), int, lambda idx: Val('i', zint(idx[0]), None, np.dtype(int)))
            r.rank = lambda i: zint(i)
            r.comp = ("all!" + str(n), unlit(m.shape[0]), lambda i: z3.BoolVal(True), lambda i: Val('i', zint(i), None, np.dtype(int)))
            return r
        body = lift(g((k,))).as_bool()
        cnt = SumT(z3.IntVal(0), n, lambda i: z3.If(lift(g((i,))).as_bool(), z3.RealVal(1), z3.RealVal(0)))
        key = bkey(AnyTraw(z3.IntVal(0), n, lambda i: lift(g((i,))).as_bool()))
        tok = self._sel.get(key)
        if tok is None:
            nm = fresh_name("NTH")
            NTH = z3.Function(nm, INT, INT)
            RANK = z3.Function(nm.replace("NTH", "RANK"), INT, INT)
            COUNT = toint(cnt) if not z3.is_rational_value(cnt) else z3.IntVal(cnt.numerator_as_long())
            tok = (nm, NTH, RANK, COUNT)
            self._sel[key] = tok
            self._tok[nm] = (NTH, RANK)
        nm, NTH, RANK, COUNT = tok
        mk = lambda i: lift(g((i,))).as_bool()
        if not any(getattr(s, 'name', '') == nm for s in self.it.schemas):
            self.it.schemas.append(Schema(1, lambda t: z3.Implies(And(t >= 0, t < COUNT), And(NTH(t) >= t, NTH(t) < n, mk(NTH(t)), RANK(NTH(t)) == t)), nm))
            self.it.schemas.append(Schema(1, lambda t: z3.Implies(And(t >= 0, t < n, mk(t)), And(RANK(t) >= 0, RANK(t) < COUNT, RANK(t) <= t, NTH(RANK(t)) == t)), nm))
            self.it.schemas.append(Schema(2, lambda s, t: z3.Implies(And(0 <= s, s < t, t < COUNT), NTH(s) < NTH(t)), nm))
            before = lambda t: SumT(z3.IntVal(0), t, lambda i: z3.If(mk(i), z3.RealVal(1), z3.RealVal(0)))
            self.it.schemas.append(Schema(1, lambda t: z3.Implies(And(t >= 0, t <= n, mk(t)), z3.ToReal(RANK(t)) == before(t)), RANK.name()))
            self.it.assume(And(COUNT >= 0, COUNT <= z3.If(n >= 0, n, z3.IntVal(0))))
        r = SymArr.from_fn((COUNT,), int, lambda idx: Val('i', NTH(zint(idx[0])), None, np.dtype(int)))
        r.comp = (nm, unlit(n), mk, lambda i: Val('i', zint(i), None, np.dtype(int)))
        r.rank = RANK
        return r

    def all_true(self, g, n):
        """the mask selects everything (a consequence of the facts at hand)"""
        k = FreshInt("a")
        c = simp(lift(g((k,))).as_bool())
        if not (z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_TRUE)):
            return False
        from . import prover
        mark = len(self.it.facts)
        self.it.facts.append((And(k >= 0, k < n), False))
        try:
            return prover.quick(self.it.ctx(), c)
        finally:
            del self.it.facts[mark:]

    def compress_tiled(self, m, base, reps):
        """a mask repeated `reps` times: its positions are those of the mask in every period, in order"""
        s = self.compress_index(base)
        nm, F, mk, _ = s.comp
        NTH, RANK = self._tok[nm]
        C, F = zint(s.shape[0]), zint(F)
        count = imul(s.shape[0], reps)
        r = SymArr.from_fn((count,), int, lambda idx: Val('i', F * (zint(idx[0]) / C) + NTH(zint(idx[0]) % C), None, np.dtype(int)))
        r.comp = ("%s*%s" % (nm, reps), unlit(m.shape[0]), lambda i: mk(zint(i) % F), lambda i: Val('i', zint(i), None, np.dtype(int)))
        r.rank = lambda i: C * (zint(i) / F) + RANK(zint(i) % F)
        return r

    def nonzero(self, x):
        x = as_sym(self.prep(x))
        if x.ndim != 1:
            raise Unsupported("nonzero of nd array")
        m = self.elementwise(lambda v: Val('b', lift(v).as_bool()), bool, x)
        return (self.compress_index(m),)

    def setitem(self, a, idx, v):
        full = self.expand_index(a, idx)
        it = self.it
        if any(self.is_fancy(i) for i in full if i is not None):
            return self.fancy_set(a, full, v)
        if len(full) == a.ndim and all(isinstance(i, slice) and i == slice(None) for i in full):
            tgt = a
        else:
            tgt = self.basic(a, full)
        self.store(tgt, v, z3.BoolVal(True))

    def store(self, tgt, v, extra):
        buf = tgt.buf
        v = self.prep(v)
        if isinstance(v, (list, tuple)):
            v = self.array(v)
        if isinstance(v, SymArr):
            # broadcast v to tgt
            vs = v.shape
            while len(vs) > len(tgt.shape) and same_int(vs[0], 1):
                v = self.it.getitem(v, 0)
                if not isinstance(v, SymArr):
                    break
                vs = v.shape
        if isinstance(v, SymArr):
            if len(v.shape) > len(tgt.shape):
                raise FlowRaise(ValueError("could not broadcast input array"), "assignment")
            off = len(tgt.shape) - len(v.shape)
            for d, f in zip(v.shape, tgt.shape[off:]):
                if same_int(d, f):
                    continue
                if isinstance(d, int) and d == 1:
                    continue
                if not self.it.decide(zint(d) == zint(f)):
                    if isinstance(d, int) or not self.it.decide(zint(d) == 1):
                        raise FlowRaise(ValueError("could not broadcast input array"), "assignment")
            if v.dtype.kind == 'c' and tgt.dtype.kind != 'c':
                pass
            acc = self.baccess(v, tgt.shape)
        else:
            lv = lift(v)
            if lv.kind == 'c' and tgt.dtype.kind != 'c':
                raise FlowRaise(TypeError("can't convert complex to float"), "assignment")
            acc = lambda idx: lv
        old = buf.content
        fwd_inv, part, dt, bdt = tgt.inv, tgt.part, tgt.dtype, buf.dtype

        def content(b):
            if fwd_inv is None:
                g, j = z3.BoolVal(True), b
            else:
                g, j = fwd_inv(b)
                g = z3.simplify(g)
            if z3.is_false(g):
                return old(b)
            nv = lift(acc(cidx(j)))
            nv = cast(nv, dkind(dt)) if nv.kind != 'bv' else nv
            if part is not None:
                o = old(b)
                re, im = o.as_cpx()
                nv = Val('c', nv.re if part == 're' else re, nv.re if part == 'im' else im)
            elif nv.kind != dkind(bdt) and nv.kind != 'bv':
                nv = cast(nv, dkind(bdt))
            nv = Val(nv.kind, nv.re, nv.im, bdt)
            if z3.is_true(g):
                return nv
            return vite(g, nv, old(b))
        if fwd_inv is not None or tgt.fwd is None:
            it_content = memo(content)
        else:
            raise Unsupported("store through a view without an inverse")
        self.it.write_buffer(buf, it_content)

    def fancy_set(self, a, full, v):
        pos = [k for k, i in enumerate(full) if i is not None and self.is_fancy(i)]
        if len(pos) != 1 or any(i is None for i in full):
            raise Unsupported("store through several index arrays")
        k = pos[0]
        i = full[k]
        if self.is_mask(i):
            m = as_sym(self.prep(i))
            if m.ndim == a.ndim and len(full) == 1:
                return self.mask_set_nd(a, m, v)
            if m.ndim != 1:
                raise Unsupported("mask store")
            if not self.eqdim(m.shape[0], a.shape[k]):
                raise FlowRaise(IndexError("boolean index did not match"), "mask index")
            sel = self.compress_index(m)
            RANK, mk = sel.rank, sel.comp[2]
            inside = lambda x: (mk(zint(x)), RANK(zint(x)))
            count = sel.shape[0]
        else:
            x = self.prep(i)
            x = as_sym(self.array(x) if isinstance(x, (list, IndexedSeq)) else x)
            if x.ndim != 1:
                raise Unsupported("store through an nd index array")
            if hasattr(x, 'comp') and hasattr(x, 'rank'):
                RANK, mk = x.rank, x.comp[2]
                n = zint(a.shape[k])
                inside = lambda y: (And(zint(y) < zint(x.comp[1]), mk(zint(y))), RANK(zint(y)))
                count = x.shape[0]
                self.it.oblige("index array in range", zint(x.comp[1]) <= n)
            elif isinstance(x.shape[0], int):
                xs = [self.norm_index(x.get((q,)), a.shape[k]) for q in range(x.shape[0])]

                def inside(y):
                    g = Or(*[zint(y) == zint(e) for e in xs])
                    r = z3.IntVal(0)
                    for q, e in enumerate(xs):      # later stores win
                        r = zite(zint(y) == zint(e), z3.IntVal(q), r)
                    return g, r
                count = x.shape[0]
            else:
                inv = self.affine_inverse(x)
                if inv is None:
                    raise Unsupported("store through an index array")
                inside, count = inv, x.shape[0]
        basic = [slice(None) if q == k else i for q, i in enumerate(full)]
        base = self.basic(a, basic)
        ax = sum(1 for q, i in enumerate(basic[:k]) if isinstance(i, slice))
        shape = tuple(count if q == ax else d for q, d in enumerate(base.shape))

        inv0 = base.inv

        def inv(b):
            g, j = inv0(b) if inv0 is not None else (z3.BoolVal(True), b)
            g1, r = inside(j[ax])
            return And(g, g1), tuple(unlit(r) if q == ax else y for q, y in enumerate(j))
        tgt = SymArr(shape, a.dtype, a.buf, base.fwd or (lambda i: i), inv, a.part)
        self.store(tgt, v, z3.BoolVal(True))

    def affine_inverse(self, x):
        j = FreshInt("j")
        t = lift(x.get((j,))).as_int()
        p = poly(t)
        jn = j.decl().name()
        c = p.get(((jn, 1),))
        if c in (1, -1) and not any(jn in [k for k, _ in m] for m in p if m != ((jn, 1),)) and all(jn not in T.ATOM_DEPS[k] for m in p for k, _ in m if k != jn):
            off = z3.simplify(z3.substitute(t, (j, z3.IntVal(0))))
            n = zint(x.shape[0])

            def inside(y):
                r = z3.simplify((zint(y) - off) if c == 1 else (off - zint(y)))
                return And(r >= 0, r < n), r
            return inside
        return None

    def mask_set_nd(self, a, m, v):
        v = self.prep(v)
        if isinstance(v, SymArr) and not (v.ndim == 0):
            if m.ndim == 1:
                return self.fancy_set1(a, m, v)
            raise Unsupported("array store through an nd mask")
        if any(not self.eqdim(p, q) for p, q in zip(m.shape, a.shape)):
            raise FlowRaise(IndexError("boolean index did not match"), "mask")
        g = m.snap()
        f = a.snap()
        lv = lift(v)
        new = SymArr.from_fn(a.shape, a.dtype, lambda idx: vite(lift(g(idx)).as_bool(), cast(lv, dkind(a.dtype), a.dtype), f(idx)))
        self.store(a, new, z3.BoolVal(True))

    def fancy_set1(self, a, m, v):
        sel = self.compress_index(m)
        RANK, mk = sel.rank, sel.comp[2]
        f, g = a.snap(), self.baccess(v, (sel.shape[0],))
        if not (same_int(v.shape[0], 1) or self.eqdim(v.shape[0], sel.shape[0])):
            raise FlowRaise(ValueError("shape mismatch"), "mask store")
        new = SymArr.from_fn(a.shape, a.dtype, lambda idx: vite(mk(zint(idx[0])), cast(g((unlit(RANK(zint(idx[0]))),)), dkind(a.dtype)), f(idx)))
        self.store(a, new, z3.BoolVal(True))

    # ------------------------------------------------------------ reductions
    def axes(self, a, axis):
        if axis is None:
            return list(range(a.ndim))
        if isinstance(axis, (tuple, list)):
            return [int(unlit(x)) % a.ndim for x in axis]
        ax = unlit(axis)
        if not isinstance(ax, int):
            raise Unsupported("symbolic axis")
        if ax >= a.ndim or ax < -a.ndim:
            raise FlowRaise(ValueError("axis out of bounds"), "axis")
        return [ax % a.ndim]

    def reduce(self, a, axis, keepdims, dtype, red):
        """red(list of extents, fn(idx list) -> Val) -> Val"""
        a = self.prep(a)
        if not isinstance(a, SymArr):
            return a
        ax = self.axes(a, axis)
        keep = [d for d in range(a.ndim) if d not in ax]
        comp = getattr(a, 'comp', None)
        g = a.snap()
        if not keep:
            v = red([a.shape[d] for d in ax], lambda ii: g(tuple(ii)), comp)
            v = Val(v.kind, v.re, v.im, np.dtype(dtype))
            if keepdims:
                return SymArr.from_fn((1,) * a.ndim, dtype, lambda idx: v)
            return v
        shape = tuple(a.shape[d] for d in keep) if not keepdims else tuple(1 if d in ax else a.shape[d] for d in range(a.ndim))

        def content(idx):
            base = list(idx) if keepdims else [None] * a.ndim
            if not keepdims:
                for d, i in zip(keep, idx):
                    base[d] = i

            def f(ii):
                full = list(base)
                for d, i in zip(ax, ii):
                    full[d] = i
                return g(tuple(full))
            return red([a.shape[d] for d in ax], f, None)
        r = SymArr.from_fn(shape, dtype, content)
        return self.wrap_like(r, [a])

    def _sumred(self, ext, f, comp):
        def term(part):
            if comp is not None:
                tok, n, mk, vf = comp

                def body(i):
                    v = lift(vf(i))
                    x = {'re': lambda: v.as_cpx()[0], 'im': lambda: v.as_cpx()[1]}[part]() if part else v.as_real()
                    return z3.If(mk(zint(i)), x, z3.RealVal(0))
                return SumT(z3.IntVal(0), zint(n), body)

            def rec(k, ii):
                if k == len(ext):
                    v = lift(f(ii))
                    if part == 're':
                        return v.as_cpx()[0]
                    if part == 'im':
                        return v.as_cpx()[1]
                    return v.as_real()
                return SumR(ext[k], lambda i: rec(k + 1, ii + [unlit(i)]))
            return rec(0, [])
        probe = lift(f([FreshInt("p") if not isinstance(e, int) else 0 for e in ext]))
        if probe.kind == 'c':
            return Val('c', term('re'), term('im'))
        if probe.kind in ('i', 'b', 'bv'):
            t = term(None)
            return Val('i', toint(t))
        return Val('f', term(None))

    def sum(self, a, axis=None, dtype=None, keepdims=False, out=None):
        a = self.prep(a)
        if not isinstance(a, SymArr):
            return a
        dt = np.dtype(dtype) if dtype is not None else np.zeros(1, a.dtype).sum().dtype
        if out is not None:
            raise Unsupported("out=")
        return self.reduce(a, axis, keepdims, dt, self._sumred)

    def count(self, a, ax):
        return iprod([a.shape[d] for d in ax])

    def mean(self, a, axis=None, dtype=None, keepdims=False, **kw):
        a = self.prep(a)
        if not isinstance(a, SymArr):
            return a
        dt = np.zeros(1, a.dtype).mean().dtype if dtype is None else np.dtype(dtype)
        n = self.count(a, self.axes(a, axis))

        def red(ext, f, comp):
            s = self._sumred(ext, lambda ii: cast(f(ii), dkind(dt)), None if comp is None else (comp[0], comp[1], comp[2], lambda i: cast(comp[3](i), dkind(dt))))
            return binop('/', s, Val('f', z3.ToReal(zint(n))))
        return self.reduce(a, axis, keepdims, dt, red)

    def var(self, a, axis=None, ddof=0, keepdims=False, **kw):
        a = self.prep(a)
        m = self.mean(a, axis=axis, keepdims=True) if isinstance(a, SymArr) and axis is not None else self.mean(a)
        d = self.binop('-', a, m)
        sq = self.elementwise(lambda v: abs2(v), real_dtype(as_sym(d).dtype) if isinstance(d, SymArr) else float, d)
        if ddof:
            raise Unsupported("ddof")
        r = self.mean(sq, axis=axis, keepdims=keepdims)
        return r

    def std(self, a, axis=None, **kw):
        return self.ufunc1(lambda v: Val('f', sqrt_term(lift(v).as_real())), self.var(a, axis=axis, **kw))

    def minmax(self, a, kind, axis=None, keepdims=False, **kw):
        a = self.prep(a)
        if not isinstance(a, SymArr):
            return a
        if a.dtype.kind == 'c':
            raise Unsupported("minimum of complex values")
        ax = self.axes(a, axis)
        for d in ax:
            n = a.shape[d]
            if not isinstance(n, int):
                if not self.it.decide(zint(n) > 0):
                    raise FlowRaise(ValueError("zero-size array to reduction"), "min/max")
            elif n == 0:
                raise FlowRaise(ValueError("zero-size array to reduction"), "min/max")

        def red(ext, f, comp):
            probe = lift(f([FreshInt("p") if not isinstance(e, int) else 0 for e in ext]))
            isint = probe.kind in ('i', 'b')

            def rec(k, ii):
                if k == len(ext):
                    v = lift(f(ii))
                    return v.as_int() if isint else v.as_real()
                return MinT(z3.IntVal(0), zint(ext[k]), lambda i: rec(k + 1, ii + [unlit(i)]), kind)
            return Val('i' if isint else 'f', rec(0, []))
        return self.reduce(a, axis, keepdims, a.dtype, red)

    def argminmax(self, a, kind, axis=None, **kw):
        a = self.prep(a)
        a = as_sym(a)
        if axis is None and a.ndim > 1:
            a = self.reshape(a, (a.size,))
        if a.dtype.kind == 'c':
            raise Unsupported("argmin of complex values")
        ax = self.axes(a, axis)
        if len(ax) != 1:
            raise Unsupported("argmin axes")
        n = a.shape[ax[0]]
        if not isinstance(n, int):
            if not self.it.decide(zint(n) > 0):
                raise FlowRaise(ValueError("attempt to get argmin of an empty sequence"), "argmin")

        def red(ext, f, comp):
            def body(i):
                v = lift(f([unlit(i)]))
                return v.as_real() if v.kind == 'f' else v.as_int()
            return Val('i', MinT(z3.IntVal(0), zint(ext[0]), body, kind))
        return self.reduce(a, axis, False, np.dtype(int), red)

    def allany(self, a, isall, axis=None, **kw):
        a = self.prep(a)
        if not isinstance(a, SymArr):
            return bool(np.all(a)) if isall else bool(np.any(a))

        def red(ext, f, comp):
            def rec(k, ii):
                if k == len(ext):
                    b = lift(f(ii)).as_bool()
                    return Not(b) if isall else b
                n = ext[k]
                if isinstance(n, int) and n <= 8:
                    return Or(*[rec(k + 1, ii + [q]) for q in range(n)])
                return AnyT(z3.IntVal(0), zint(n), lambda i: rec(k + 1, ii + [i]))
            r = rec(0, [])
            return Val('b', Not(r) if isall else r)
        return self.reduce(a, axis, False, bool, red)

    def count_nonzero(self, a, axis=None, **kw):
        a = self.prep(a)
        if not isinstance(a, SymArr):
            if isinstance(a, Val):
                return Val('i', z3.If(a.as_bool(), z3.IntVal(1), z3.IntVal(0)))
            return np.count_nonzero(a)
        m = self.elementwise(lambda v: Val('i', z3.If(lift(v).as_bool(), z3.IntVal(1), z3.IntVal(0))), int, a)
        return self.sum(m, axis=axis)

    def cumsum(self, a, axis=None, **kw):
        a = as_sym(self.prep(a))
        if axis is None and a.ndim > 1:
            a = self.reshape(a, (a.size,))
        ax = self.axes(a, axis if axis is not None else 0)[0]
        dt = np.zeros(1, a.dtype).cumsum().dtype
        g = a.snap()

        def content(idx):
            def f(ii):
                return g(tuple(ii[0] if d == ax else i for d, i in enumerate(idx)))
            return self._sumred_sym(iadd(idx[ax], 1), f)
        return self.wrap_like(SymArr.from_fn(a.shape, dt, content), [a])

    def _sumred_sym(self, n, f):
        return self._sumred([n], f, None)

    def diff(self, a, n=1, axis=-1):
        a = as_sym(self.prep(a))
        if n != 1:
            raise Unsupported("diff order")
        ax = self.axes(a, axis)[0]
        lo = [slice(None)] * a.ndim
        hi = [slice(None)] * a.ndim
        lo[ax], hi[ax] = slice(None, -1), slice(1, None)
        return self.binop('-', self.getitem(a, tuple(hi)), self.getitem(a, tuple(lo)))

    # ------------------------------------------------------------ joins
    def concatenate(self, seq, axis=0, **kw):
        if isinstance(seq, IndexedSeq):
            return self.concat_seq(seq, axis)
        xs = [as_sym(self.prep(x) if not is_scalar(x) else self.array([x])) for x in (seq if not isinstance(seq, SymArr) else self.it.unpack(seq))]
        xs = [x if isinstance(x, SymArr) else self.array([x]) for x in xs]
        nd = xs[0].ndim
        ax = axis % nd
        for x in xs[1:]:
            if x.ndim != nd:
                raise FlowRaise(ValueError("dimension mismatch in concatenate"), "concatenate")
            for d in range(nd):
                if d != ax and not self.eqdim(x.shape[d], xs[0].shape[d]):
                    raise FlowRaise(ValueError("dimension mismatch in concatenate"), "concatenate")
        dt = np.result_type(*[x.dtype for x in xs])
        offs = [0]
        for x in xs:
            offs.append(iadd(offs[-1], x.shape[ax]))
        gs = [x.snap() for x in xs]
        shape = tuple(offs[-1] if d == ax else xs[0].shape[d] for d in range(nd))

        def content(idx):
            i = idx[ax]
            r = None
            for k in range(len(xs) - 1, -1, -1):
                j = isub(i, offs[k])
                if isinstance(xs[k].shape[ax], int) and xs[k].shape[ax] == 0:
                    continue
                if r is None:
                    r = gs[k](tuple(j if d == ax else y for d, y in enumerate(idx)))
                    continue
                c = zint(i) < zint(offs[k + 1]) if not (isinstance(i, int) and isinstance(offs[k + 1], int)) else i < offs[k + 1]
                if c is False:
                    continue
                v = gs[k](tuple(j if d == ax else y for d, y in enumerate(idx)))
                r = vite(c if not isinstance(c, bool) else z3.BoolVal(c), v, r)
            return r
        r = SymArr.from_fn(shape, dt, content)
        return self.wrap_like(r, xs)

    def concat_seq(self, seq, axis):
        """concatenation of a symbolic number of equally shaped pieces"""
        p0 = as_sym(self.prep(seq.fn(FreshInt("e"))))
        nd = p0.ndim
        ax = axis % nd
        m = p0.shape[ax]
        shape = tuple(imul(seq.n, m) if d == ax else s for d, s in enumerate(p0.shape))

        def content(idx):
            q, r = self.divmod_(idx[ax], m)
            return as_sym(self.prep(seq.fn(q if not isinstance(q, int) else z3.IntVal(q)))).get(tuple(r if d == ax else y for d, y in enumerate(idx)))
        return SymArr.from_fn(shape, p0.dtype, content)

    def hstack(self, seq, **kw):
        if isinstance(seq, IndexedSeq):
            p = as_sym(self.prep(seq.fn(FreshInt("e"))))
            return self.concat_seq(seq, 0 if p.ndim == 1 else 1)
        xs = [self.atleast(x, 1) for x in seq]
        return self.concatenate(xs, 0 if xs[0].ndim == 1 else 1)

    def vstack(self, seq, **kw):
        if isinstance(seq, IndexedSeq) and as_sym(self.prep(seq.fn(FreshInt("e")))).ndim > 1:
            return self.concat_seq(seq, 0)
        xs = [self.atleast(x, 2) for x in seq]
        return self.concatenate(xs, 0)

    def atleast(self, x, n):
        x = self.prep(x)
        if is_scalar(x):
            x = self.array([x])
            if n == 2:
                x = self.getitem(x, (None, slice(None)))
            return x
        x = as_sym(x)
        if x.ndim >= n:
            return x
        if n == 2 and x.ndim == 1:
            return self.getitem(x, (None, slice(None)))
        raise Unsupported("atleast_%dd" % n)

    def roll(self, a, shift, axis=None):
        a = as_sym(self.prep(a))
        shift = unlit(self.prep(shift))
        if isinstance(shift, Val):
            raise FlowRaise(TypeError("shift must be an integer"), "roll")
        if axis is None and a.ndim > 1:
            r = self.roll(self.reshape(a, (a.size,)), shift)
            return self.reshape(r, a.shape)
        ax = self.axes(a, axis if axis is not None else 0)[0]
        n = a.shape[ax]
        g = a.snap()

        def content(idx):
            k = isub(idx[ax], shift)
            if isinstance(k, int) and isinstance(n, int):
                j = k % n
            else:
                j = zint(k) % zint(n)
            return g(tuple(j if d == ax else y for d, y in enumerate(idx)))
        return self.wrap_like(SymArr.from_fn(a.shape, a.dtype, content), [a])

    def delete(self, a, obj, axis=None):
        """np.delete of the positions 0, R, 2R .. (R at least 2) below the length of the axis"""
        a, obj = as_sym(self.prep(a)), self.prep(obj)
        p = getattr(obj, 'progression', None)
        if axis is None or p is None or p[3] is not obj.buf.content or not isinstance(p[0], int) or p[0] != 0:
            raise Unsupported("np.delete of these positions")
        axis = axis % a.ndim
        n, R = zint(a.shape[axis]), zint(p[2])
        if not self.it.implied(z3.And(R >= 2, zint(p[1]) == n)):
            raise Unsupported("np.delete of these positions")
        left = z3.simplify(n - idiv_term(n + R - 1, R))
        g = a.snap()
        shape = tuple(unlit(left) if d == axis else s_ for d, s_ in enumerate(a.shape))

        def content(idx):
            k = zint(idx[axis])
            return g(idx[:axis] + (idiv_term(k, R - 1) * R + 1 + imod_term(k, R - 1),) + idx[axis + 1:])
        return SymArr.from_fn(shape, a.dtype, content)

    def unique(self, a, **kw):
        """the distinct values of a real array in increasing order"""
        if kw:
            raise Unsupported("np.unique with options")
        a = as_sym(self.prep(a))
        if a.ndim != 1:
            a = self.reshape(a, (a.size,))
        if a.dtype.kind not in 'if':
            raise Unsupported("np.unique of these values")
        g, n = a.snap(), zint(a.shape[0])
        m = FreshInt("distinct")
        u = input_array(fresh_name("UNIQUE"), (m,), a.dtype)
        U = u.snap()
        SRC, POS = z3.Function(fresh_name("USRC"), INT, INT), z3.Function(fresh_name("UPOS"), INT, INT)
        it = self.it
        it.facts.append((And(m >= 0, m <= n, z3.Implies(n >= 1, m >= 1)), False))
        it.schemas.append(Schema(2, lambda s, t: z3.Implies(And(0 <= s, s < t, t < m), lift(U((s,))).as_real() < lift(U((t,))).as_real()), u.buf.name))
        it.schemas.append(Schema(1, lambda t: z3.Implies(And(t >= 0, t < m), And(SRC(t) >= 0, SRC(t) < n, lift(U((t,))).as_real() == lift(g((SRC(t),))).as_real())), u.buf.name))
        it.schemas.append(Schema(1, lambda t: z3.Implies(And(t >= 0, t < n), And(POS(t) >= 0, POS(t) < m, lift(U((POS(t),))).as_real() == lift(g((t,))).as_real())), u.buf.name))
        return u

    def tile(self, a, reps):
        a = self.prep(a)
        a = self.array([a]) if is_scalar(a) else as_sym(a)
        if isinstance(reps, (Val, int, np.integer)):
            reps = (reps,)
        reps = tuple(unlit(r) for r in reps)
        nd = max(len(reps), a.ndim)
        reps = (1,) * (nd - len(reps)) + reps
        sh = (1,) * (nd - a.ndim) + tuple(a.shape)
        off = nd - a.ndim
        g = a.snap()
        shape = tuple(imul(s, r) for s, r in zip(sh, reps))

        def content(idx):
            out = []
            for d in range(off, nd):
                s, r, i = sh[d], reps[d], idx[d]
                if isinstance(r, int) and r == 1:
                    out.append(i)
                elif isinstance(s, int) and s == 1:
                    out.append(0)
                elif isinstance(i, int) and isinstance(s, int):
                    out.append(i % s)
                else:
                    out.append(zint(i) % zint(s))
            return g(tuple(out))
        r = self.wrap_like(SymArr.from_fn(shape, a.dtype, content), [a])
        if nd == 1 and a.dtype == bool and isinstance(r, SymArr):
            r.tiled = (a, r.buf.content, reps[0])
        return r

    def repeat(self, a, n, axis=None):
        a = self.prep(a)
        a = self.array([a]) if is_scalar(a) else as_sym(a)
        n = unlit(n)
        if isinstance(n, (SymArr, list, tuple)):
            raise Unsupported("repeat counts")
        if axis is None and a.ndim > 1:
            a = self.reshape(a, (a.size,))
        ax = self.axes(a, axis if axis is not None else 0)[0]
        g = a.snap()
        shape = tuple(imul(s, n) if d == ax else s for d, s in enumerate(a.shape))

        def content(idx):
            i = idx[ax]
            if same_int(a.shape[ax], 1):
                q = 0
            else:
                q = self.divmod_(i, n)[0]
            return g(tuple(q if d == ax else y for d, y in enumerate(idx)))
        return SymArr.from_fn(shape, a.dtype, content)

    def flip(self, a, axis=None):
        a = as_sym(self.prep(a))
        ax = self.axes(a, axis)
        return self.getitem(a, tuple(slice(None, None, -1) if d in ax else slice(None) for d in range(a.ndim)))

    # ------------------------------------------------------------ products
    def dot(self, a, b):
        a, b = self.prep(a), self.prep(b)
        if is_scalar(a) or is_scalar(b):
            return self.binop('*', a, b)
        return self.matmul(a, b, True)

    def matmul(self, a, b, isdot=False):
        a, b = as_sym(self.prep(a)), as_sym(self.prep(b))
        if a.ndim > 2 or b.ndim > 2:
            raise Unsupported("matmul of nd arrays")
        ka = a.ndim - 1
        kb = max(b.ndim - 2, 0)
        if not self.eqdim(a.shape[ka], b.shape[kb]):
            raise FlowRaise(ValueError("shapes not aligned"), "dot")
        n = a.shape[ka]
        ga, gb = a.snap(), b.snap()
        shape = tuple(a.shape[:-1]) + tuple(s for d, s in enumerate(b.shape) if d != kb)
        dt = np.result_type(a.dtype, b.dtype)

        def content(idx):
            ia = tuple(idx[:a.ndim - 1])
            ib = tuple(idx[a.ndim - 1:])
            return self._sumred([n], lambda ii: binop('*', ga(ia + (ii[0],)), gb((ii[0],) + ib)), None)
        if not shape:
            v = content(())
            return Val(v.kind, v.re, v.im, dt)
        return self.wrap_like(SymArr.from_fn(shape, dt, content), [a, b])

    def where(self, c, *ab):
        c = self.prep(c)
        if not ab:
            return self.nonzero(c)
        a, b = self.prep(ab[0]), self.prep(ab[1])
        dt = result_dtype('r', a, b)
        return self.elementwise(lambda x, y, z: cast(vite(lift(x).as_bool(), y, z), dkind(dt), dt), dt, c, a, b)

    def round(self, a, *r):
        raise Unsupported("round")

    # ------------------------------------------------------------ unary maths
    def fmath(self, x, fn, cplx=False):
        """real function on reals (float result)"""
        x = self.prep(x)
        if isinstance(x, SymArr):
            dt = x.dtype if x.dtype.kind in 'fc' else np.dtype(float)
            return self.elementwise(lambda v: fn(lift(v)), dt, x)
        return fn(lift(x))


builtins_type = type


def AnyTraw(lo, hi, f):
    k = FreshInt("e")
    return make_binder('ANY', k, lo, hi, f(k), BOOL)


def SumR(n, f):
    n = unlit(n)
    if isinstance(n, int) and n <= T.UNROLL_SUM:
        r = z3.RealVal(0)
        for i in range(n):
            r = radd(r, f(i))
        return r
    return SumT(z3.IntVal(0), zint(n), f)


def interp_term(v, n, X, F):
    """piecewise linear interpolation through (X(k), F(k)), k below n; constant outside"""
    j = FirstT(z3.IntVal(0), n, lambda q: v < X(q))
    lin = F(j - 1) + (v - X(j - 1)) * (F(j) - F(j - 1)) / (X(j) - X(j - 1))
    return z3.If(j <= 0, F(z3.IntVal(0)), z3.If(j >= n, F(n - 1), lin))


def toint(t):
    if z3.is_int(t):
        return t
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long() // t.denominator_as_long())
    r = int_sum(t)
    return r if r is not None else z3.ToInt(t)


def int_sum(t):
    """integer version of a real-valued term built from sums of integers"""
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_add(t):
        xs = [int_sum(c) for c in t.children()]
        return None if any(x is None for x in xs) else z3.Sum(xs)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = int_sum(t.arg(1)), int_sum(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    return None


# ====================================================================== table of modelled callables
def install(it):
    np_ = NP(it)
    it.np_ = np_
    M = it.models

    def reg(*fs):
        def deco(m):
            for f in fs:
                if f is not None:
                    M[f] = m
            return m
        return deco

    def conc(*xs):
        return not any(has_sym(x) for x in xs)

    def native_first(f):
        """use real numpy when every argument is concrete"""
        def deco(m):
            def w(interp, *a, **k):
                if conc(list(a), k):
                    try:
                        return f(*a, **k)
                    except Exception as ex:
                        raise FlowRaise(ex, "%s: %s" % (getattr(f, '__name__', f), ex))
                it.assumed[getattr(f, '__name__', str(f))] = it.assumed.get(getattr(f, '__name__', str(f)), 0) + 1
                return m(interp, *a, **k)
            M[f] = w
            return w
        return deco

    # builtins
    @reg(len)
    def _len(i, x):
        if isinstance(x, SymArr):
            if x.ndim == 0:
                raise FlowRaise(TypeError("len() of unsized object"), "len")
            n = x.shape[0]
            return n if isinstance(n, int) else Val('i', n)
        if isinstance(x, IndexedSeq):
            return x.n if isinstance(x.n, int) else Val('i', x.n)
        if isinstance(x, SymRange):
            return lift_int(range_len(it, x))
        try:
            return len(x)
        except TypeError as ex:
            raise FlowRaise(ex, "len")

    @reg(range)
    def _range(i, *a):
        a = [unlit(np_.prep(x)) for x in a]
        for x in a:
            if isinstance(x, (float, Val)):
                raise FlowRaise(TypeError("range() needs integers"), "range")
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)

    @reg(abs)
    def _abs(i, x): return npabs(i, x)

    def npabs(i, x):
        x = np_.prep(x)
        if isinstance(x, SymArr):
            return np_.elementwise(vabs, real_dtype(x.dtype), x)
        if isinstance(x, Val):
            return vabs(x)
        return abs(x)
    native_first(np.abs)(npabs)
    M[np.absolute] = M[np.abs]

    @reg(int)
    def _int(i, x=0, *a):
        x = np_.prep(x)
        if isinstance(x, Val):
            if x.kind == 'c':
                raise FlowRaise(TypeError("can't convert complex to int"), "int()")
            if x.kind == 'f':
                return Val('i', trunc(x.re))
            return Val('i', x.as_int())
        if isinstance(x, SymArr):
            return _int(i, x.get((0,) * x.ndim))
        try:
            return int(x, *a)
        except (TypeError, ValueError) as ex:
            raise FlowRaise(ex, "int()")

    @reg(float)
    def _float(i, x=0.0):
        x = np_.prep(x)
        if isinstance(x, Val):
            return Val('f', x.as_real())
        return float(x)

    @reg(complex)
    def _complex(i, x=0, y=0):
        if conc(x, y):
            return complex(x, y)
        return cast(binop('+', lift(np_.prep(x)), binop('*', 1j, lift(np_.prep(y)))), 'c')

    @reg(bool)
    def _bool(i, x=False):
        t = it.truth(np_.prep(x))
        return t if isinstance(t, bool) else Val('b', t)

    @reg(tuple, list)
    def _tuple(i, x=()):
        return x

    def _tup(i, x=()):
        r = it.iterate(x)
        return tuple(r) if not isinstance(r, IndexedSeq) else r
    M[tuple] = _tup

    def _lst(i, x=()):
        r = it.iterate(x)
        return list(r) if not isinstance(r, IndexedSeq) else r
    M[list] = _lst

    @reg(enumerate)
    def _enum(i, x, start=0):
        x = it.iterate(x)
        if isinstance(x, IndexedSeq):
            return IndexedSeq(x.n, lambda k: (lift(iadd(k, start)), x.fn(k)))
        return [(k + start, v) for k, v in enumerate(x)]

    @reg(zip)
    def _zip(i, *xs):
        xs = [it.iterate(x) for x in xs]
        if any(isinstance(x, IndexedSeq) for x in xs):
            n = None
            for x in xs:
                m = x.n if isinstance(x, IndexedSeq) else len(x)
                if n is None or same_int(n, m):
                    n = m
                else:
                    n = n if it.decide(zint(n) <= zint(m)) else m
            ys = [x if isinstance(x, IndexedSeq) else IndexedSeq(len(x), lambda k, x=x: it.getitem(x, lift(k))) for x in xs]
            return IndexedSeq(n, lambda k: tuple(y.fn(k) for y in ys))
        return list(zip(*xs))

    @reg(reversed)
    def _rev(i, x):
        x = it.iterate(x)
        if isinstance(x, IndexedSeq):
            return IndexedSeq(x.n, lambda k: x.fn(z3.simplify(zint(isub(isub(x.n, 1), k)))))
        return list(reversed(x))

    @reg(map)
    def _map(i, f, *xs):
        xs = [it.iterate(x) for x in xs]
        if any(isinstance(x, IndexedSeq) for x in xs):
            return IndexedSeq(xs[0].n, lambda k: it.call(f, [x.fn(k) for x in xs]))
        return [it.call(f, list(t)) for t in zip(*xs)]

    @reg(sum)
    def _bsum(i, x, start=0):
        x = it.iterate(x)
        if isinstance(x, IndexedSeq):
            s = np_._sumred([x.n], lambda ii: x.fn(ii[0]), None)
            return binop('+', s, start) if not (isinstance(start, int) and start == 0) else s
        r = start
        for v in x:
            r = it.binop('+', r, v)
        return r

    @reg(all)
    def _ball(i, x):
        x = it.iterate(x)
        if isinstance(x, IndexedSeq):
            return np_.allany(np_.array(x), True)
        cs = [it.truth(v) for v in x]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return Val('b', And(*cs)) if cs else True

    @reg(any)
    def _bany(i, x):
        x = it.iterate(x)
        cs = [it.truth(v) for v in x]
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return Val('b', Or(*cs)) if cs else False

    def minmax2(kind):
        def f(i, *a, **k):
            if k.get('key') is not None:
                raise Unsupported("min with key")
            if len(a) == 1:
                x = it.iterate(a[0])
                if isinstance(x, IndexedSeq):
                    return np_.minmax(np_.array(x), kind)
                a = x
            r = a[0]
            for v in a[1:]:
                c = it.truth(np_.cmp('<' if kind == 'MIN' else '>', v, r))
                if isinstance(c, bool):
                    r = v if c else r
                else:
                    r = it.merge_val(c, v, r)
            return r
        return f
    M[min] = minmax2('MIN')
    M[max] = minmax2('MAX')

    @reg(isinstance)
    def _isinst(i, x, cls):
        cl = cls if isinstance(cls, tuple) else (cls,)
        if isinstance(x, SymArr):
            return any(isinstance(c, type) and issubclass(x.cls, c) for c in cl)
        if isinstance(x, SymObj):
            return issubclass(x.cls, tuple(cl))
        if isinstance(x, Val):
            t = type(_dummy(x))
            return issubclass(t, tuple(cl))
        if isinstance(x, IndexedSeq):
            return list in cl or tuple in cl
        return isinstance(x, cls)

    @reg(issubclass)
    def _issub(i, a, b): return issubclass(a, b)

    @reg(type)
    def _type(i, x, *a):
        if isinstance(x, (SymArr, SymObj)):
            return x.cls
        if isinstance(x, Val):
            return type(_dummy(x))
        return type(x)

    @reg(hasattr)
    def _hasattr(i, o, n):
        if isinstance(o, SymArr) or isinstance(o, SymObj):
            if n in o.attrs:
                return True
            if isinstance(o, SymArr) and o.cls is np.ndarray:
                return hasattr(np.ndarray, n)
            for c in o.cls.__mro__:
                if n in c.__dict__:
                    d = c.__dict__[n]
                    if isinstance(d, property):
                        try:
                            it.call(d.fget, [o], {})
                        except FlowRaise as e:
                            if isinstance(e.exc, AttributeError):
                                return False
                            raise
                    return True
            return False
        if isinstance(o, Val):
            return hasattr(_dummy(o), n)
        return hasattr(o, n)

    @reg(getattr)
    def _getattr(i, o, n, *d):
        try:
            r = it.getattr(o, n)
            return r
        except FlowRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    @reg(setattr)
    def _setattr(i, o, n, v): return it.setattr(o, n, v)

    @reg(print)
    def _print(i, *a, **k): return None
    import warnings as _w
    M[_w.warn] = _print

    @reg(callable)
    def _callable(i, f): return True

    @reg(round)
    def _round(i, x, *a):
        if conc(x):
            return round(x, *a)
        return np_.round(x)

    @reg(pow)
    def _pow(i, a, b): return it.binop('**', a, b)

    # numpy creation
    def creation(f, val):
        def m(i, shape, dtype=None, order=None, **k):
            dt = np.dtype(dtype) if dtype is not None else np.dtype(float)
            sh = np_.shape_of(shape)
            v = val if val is not None else 0
            if val is None:
                nm = fresh_name("empty")
                return input_array(nm, sh, dt)
            return np_.filled(shape, lift(v), dt)
        M[f] = m
    creation(np.zeros, 0)
    creation(np.ones, 1)
    creation(np.empty, None)

    def creation_like(f, val):
        def m(i, a, dtype=None, **k):
            a = np_.prep(a)
            if is_scalar(a):
                return val
            a = as_sym(a)
            dt = np.dtype(dtype) if dtype is not None else a.dtype
            r = input_array(fresh_name("empty"), a.shape, dt) if val is None else np_.filled(a.shape, lift(val), dt)
            return np_.wrap_like(r, [a])
        M[f] = m
    creation_like(np.zeros_like, 0)
    creation_like(np.ones_like, 1)
    creation_like(np.empty_like, None)

    @reg(np.full)
    def _full(i, shape, v, dtype=None, **k):
        v = np_.prep(v)
        dt = np.dtype(dtype) if dtype is not None else lift(v).dtype
        return np_.filled(shape, cast(lift(v), dkind(dt), dt), dt)

    @native_first(np.array)
    def _array(i, x, dtype=None, copy=True, ndmin=0, **k):
        r = np_.array(x, dtype, copy)
        return r

    @native_first(np.asarray)
    def _asarray(i, x, dtype=None, **k): return np_.asarray(x, dtype)
    M[np.asanyarray] = lambda i, x, dtype=None: (x if isinstance(x, SymArr) and dtype is None else _asarray(i, x, dtype))

    @native_first(np.ascontiguousarray)
    def _ascont(i, x, dtype=None): return np_.asarray(x, dtype)

    @native_first(np.copy)
    def _copy(i, x, **k):
        r = np_.copy(as_sym(np_.prep(x)) if not is_scalar(x) else x)
        if isinstance(r, SymArr) and r.cls is not np.ndarray:
            r = SymArr(r.shape, r.dtype, r.buf, r.fwd, r.inv, r.part)
        return r

    @native_first(np.arange)
    def _arange(i, *a, **k): return np_.arange(*a, **k)

    def _linspace(i, *a, **k): return np_.linspace(*a, **k)      # exact also for known limits (no rounded table)
    M[np.linspace] = _linspace

    def atl(f, n):
        @native_first(f)
        def m(i, *xs):
            r = [np_.atleast(x, n) for x in xs]
            return r[0] if len(r) == 1 else r
    atl(np.atleast_1d, 1)
    atl(np.atleast_2d, 2)

    # functions of arrays
    def simple(f, g):
        native_first(f)(lambda i, *a, **k: g(*a, **k))
    simple(np.sum, np_.sum)
    simple(np.mean, np_.mean)
    simple(np.var, np_.var)
    simple(np.std, np_.std)
    simple(np.min, lambda a, axis=None, **k: np_.minmax(a, 'MIN', axis, **k))
    simple(np.max, lambda a, axis=None, **k: np_.minmax(a, 'MAX', axis, **k))
    M[np.amin], M[np.amax] = M[np.min], M[np.max]
    simple(np.argmin, lambda a, axis=None: np_.argminmax(a, 'ARGMIN', axis))
    simple(np.argmax, lambda a, axis=None: np_.argminmax(a, 'ARGMAX', axis))
    simple(np.all, lambda a, axis=None: np_.allany(a, True, axis))
    simple(np.any, lambda a, axis=None: np_.allany(a, False, axis))
    simple(np.count_nonzero, np_.count_nonzero)
    simple(np.cumsum, np_.cumsum)
    simple(np.diff, np_.diff)
    simple(np.concatenate, np_.concatenate)
    simple(np.hstack, np_.hstack)
    simple(np.vstack, np_.vstack)
    simple(np.roll, np_.roll)
    simple(np.tile, np_.tile)
    simple(np.delete, np_.delete)
    simple(np.unique, np_.unique)
    simple(np.repeat, np_.repeat)
    simple(np.flip, np_.flip)
    simple(np.fliplr, lambda a: np_.flip(a, 1))
    simple(np.dot, np_.dot)
    simple(np.matmul, np_.matmul)
    simple(np.where, np_.where)
    simple(np.nonzero, np_.nonzero)
    simple(np.transpose, lambda a, axes=None: np_.transpose(a, *([axes] if axes is not None else [])))
    simple(np.squeeze, np_.squeeze)
    simple(np.reshape, np_.reshape)
    simple(np.ravel, lambda a: np_.reshape(a, (as_sym(a).size,)))
    simple(np.swapaxes, np_.swapaxes)
    simple(np.shape, lambda a: it.getattr(a, 'shape') if isinstance(a, (SymArr, Val)) else np_.arr_attr(as_sym(np_.prep(a)), 'shape'))
    simple(np.size, lambda a: it.getattr(a, 'size'))
    simple(np.ndim, lambda a: it.getattr(a, 'ndim'))
    simple(np.conj, np_.conj)
    M[np.conjugate] = M[np.conj]
    simple(np.real, lambda a: np_.part(np_.prep(a), 'real'))
    simple(np.imag, lambda a: np_.part(np_.prep(a), 'imag'))
    simple(np.iscomplexobj, lambda a: (a.dtype.kind == 'c') if isinstance(a, (SymArr, Val)) else np_.prep(a).dtype.kind == 'c')
    simple(np.isrealobj, lambda a: a.dtype.kind != 'c')
    def fftconvolve(x, y, mode='full', axes=None):
        x, y = as_sym(np_.prep(x)), as_sym(np_.prep(y))
        if x.ndim != 1 or y.ndim != 1 or mode not in ('full', 'same', 'valid'):
            raise Unsupported("fftconvolve arguments")
        nx, ny = x.shape[0], y.shape[0]
        full = isub(iadd(nx, ny), 1)
        n, off = full, 0
        if mode == 'same':
            n = nx
            off = np_.divmod_(isub(full, nx), 2)[0]
        elif mode == 'valid':
            raise Unsupported("fftconvolve valid")
        gx, gy = x.snap(), y.snap()
        dt = np.result_type(x.dtype, y.dtype, np.float32)

        def content(idx):
            k = zint(iadd(idx[0], off))
            lo = z3.If(k - zint(ny) + 1 > 0, k - zint(ny) + 1, z3.IntVal(0))
            hi = z3.If(zint(nx) < k + 1, zint(nx), k + 1)
            term = lambda j: binop('*', lift(gx((j,))), lift(gy((k - j,))))
            if dt.kind == 'c':
                return Val('c', SumT(lo, hi, lambda j: cast(term(j), 'c').re), SumT(lo, hi, lambda j: cast(term(j), 'c').im), dt)
            return Val('f', SumT(lo, hi, lambda j: term(j).as_real()), None, dt)
        return SymArr.from_fn((n,), dt, content)
    import scipy.signal as _ss
    simple(_ss.fftconvolve, fftconvolve)
    simple(np.take, np_.take)
    simple(np.insert, np_.insert)

    def _strided(i, x, shape=None, strides=None, subok=False, writeable=True):
        return np_.strided(x, np_.shape_of(shape), strides)
    simple(np.lib.stride_tricks.as_strided, lambda x, shape=None, strides=None, **k: np_.strided(x, np_.shape_of(shape), strides))

    def _ndnew(i, cls, shape=None, dtype=None, buffer=None, offset=0, strides=None, order=None):
        if not isinstance(buffer, SymArr) or strides is None or offset != 0 or np.dtype(dtype) != buffer.dtype or buffer.ndim == 0:
            raise Unsupported("ndarray.__new__ other than a strided view of an array")
        if not it.decide(np_.contiguous(buffer)):
            raise FlowRaise(ValueError("ndarray is not contiguous"), "ndarray.__new__")
        return np_.strided(buffer, np_.shape_of(shape), strides, cls)
    M[np.ndarray.__new__] = _ndnew
    simple(np.broadcast_to, lambda a, shape: bto(a, shape))
    simple(np.expand_dims, lambda a, axis: np_.getitem(as_sym(a), tuple([slice(None)] * (axis % (as_sym(a).ndim + 1)) + [None])))

    def bto(a, shape):
        a = as_sym(np_.prep(a))
        sh = np_.shape_of(shape)
        acc = np_.baccess(a, np_.bshape(a.shape, sh))
        r = SymArr.from_fn(sh, a.dtype, acc)
        r.buf.readonly = True
        return r

    def real_ufunc(f, g, cplx=None):
        def m(i, x, *a, **k):
            if a or k:
                raise Unsupported("ufunc arguments")
            x = np_.prep(x)

            def h(v):
                v = lift(v)
                if v.kind == 'c':
                    if cplx is None:
                        raise Unsupported("%s of complex" % f.__name__)
                    r = cplx(v)
                else:
                    r = g(v)
                return r
            if isinstance(x, SymArr):
                with np.errstate(all='ignore'):
                    dt = f(np.ones(1, x.dtype)).dtype
                return np_.elementwise(h, dt, x)
            r = h(x)
            with np.errstate(all='ignore'):
                dt = np.asarray(f(_dummy(x))).dtype
            return Val(r.kind, r.re, r.im, dt)
        native_first(f)(m)

    R = lambda t: Val('f', t)
    real_ufunc(np.sqrt, lambda v: R(sqrt_term(v.as_real())), csqrt)
    real_ufunc(np.exp, lambda v: cexp(cast(v, 'f')), cexp)
    real_ufunc(np.cos, lambda v: R(cos_sin(v.as_real())[0]))
    real_ufunc(np.sin, lambda v: R(cos_sin(v.as_real())[1]))
    real_ufunc(np.log, lambda v: R(LOG(v.as_real())))
    real_ufunc(np.log2, lambda v: R(LOG2(v.as_real())))
    real_ufunc(np.log10, lambda v: R(LOG10(v.as_real())))
    for nm in ('tan', 'arcsin', 'arccos', 'arctan', 'tanh', 'cosh', 'sinh', 'deg2rad', 'rad2deg'):
        fn = getattr(np, nm)
        real_ufunc(fn, lambda v, nm=nm: R(uf1(nm.upper())(v.as_real())))
    real_ufunc(np.sinc, lambda v: R(sinc_term(v.as_real())))
    real_ufunc(np.sign, lambda v: sgn(v))
    real_ufunc(np.floor, lambda v: R(z3.ToReal(z3.ToInt(v.as_real()))))
    real_ufunc(np.ceil, lambda v: R(-z3.ToReal(z3.ToInt(-v.as_real()))))
    real_ufunc(np.square, lambda v: binop('*', v, v), lambda v: binop('*', v, v))
    real_ufunc(np.isnan, lambda v: Val('b', z3.BoolVal(False)), lambda v: Val('b', z3.BoolVal(False)))
    real_ufunc(np.logical_not, lambda v: Val('b', Not(v.as_bool())))
    M[np.invert] = lambda i, x: it.unop('~', np_.prep(x))
    real_ufunc(np.angle, lambda v: R(z3.If(v.as_real() >= 0, z3.RealVal(0), PI)), lambda v: R(ATAN2(v.im, v.re)))
    try:
        from scipy.special import erfc
        real_ufunc(erfc, lambda v: R(uf1('ERFC')(v.as_real())))
    except ImportError:
        pass
    import math as _m
    for f, g in ((_m.sqrt, np.sqrt), (_m.floor, None), (_m.ceil, None), (_m.log, np.log), (_m.log2, np.log2), (_m.exp, np.exp)):
        if g is not None:
            M[f] = (lambda g, f: lambda i, x, *a: f(x, *a) if conc(x) else M[g](i, x))(g, f)
    M[_m.floor] = lambda i, x: _m.floor(x) if conc(x) else Val('i', z3.ToInt(lift(x).as_real()))
    M[_m.ceil] = lambda i, x: _m.ceil(x) if conc(x) else Val('i', -z3.ToInt(-lift(x).as_real()))

    def bin_ufunc(f, op):
        def m(i, a, b, **k):
            if k:
                raise Unsupported("ufunc arguments")
            return it.binop(op, a, b)
        native_first(f)(m)
    for f, op in ((np.add, '+'), (np.subtract, '-'), (np.multiply, '*'), (np.divide, '/'), (np.power, '**'), (np.mod, '%'), (np.floor_divide, '//')):
        bin_ufunc(f, op)

    def pick(f, op):
        def m(i, a, b):
            a, b = np_.prep(a), np_.prep(b)
            dt = result_dtype('r', a, b)
            return np_.elementwise(lambda x, y: vite(lift(compare(op, x, y)).as_bool(), x, y), dt, a, b)
        native_first(f)(m)
    pick(np.maximum, '>=')
    pick(np.minimum, '<=')

    def logical(f, op):
        native_first(f)(lambda i, a, b: np_.elementwise(lambda x, y: binop(op, Val('b', lift(x).as_bool()), Val('b', lift(y).as_bool())), bool, a, b))
    logical(np.logical_and, '&')
    logical(np.logical_or, '|')
    logical(np.logical_xor, '^')

    @native_first(np.clip)
    def _clip(i, a, lo, hi):
        return M[np.minimum](i, M[np.maximum](i, a, lo), hi)

    @native_first(np.hypot)
    def _hyp(i, a, b):
        return M[np.sqrt](i, it.binop('+', it.binop('*', a, a), it.binop('*', b, b)))

    @native_first(np.arctan2)
    def _at2(i, a, b):
        return np_.elementwise(lambda x, y: Val('f', ATAN2(lift(x).as_real(), lift(y).as_real())), float, a, b)

    @native_first(np.outer)
    def _outer(i, a, b):
        a, b = np_.reshape(a, (-1,)), np_.reshape(b, (-1,))
        return np_.binop('*', np_.getitem(a, (slice(None), None)), np_.getitem(b, (None, slice(None))))

    @native_first(np.array_split)
    def _split(i, a, n, axis=0):
        a = as_sym(a)
        k = unlit(n)
        L = a.shape[axis]
        if not isinstance(k, int):
            raise Unsupported("array_split")
        out, off = [], 0
        for q in range(k):
            # first L % k pieces have L//k + 1 elements
            if isinstance(L, int):
                m = L // k + (1 if q < L % k else 0)
            elif q == 0 and k == 2:
                m = unlit((L + 1) / z3.IntVal(2))
            elif q == 1 and k == 2:
                m = isub(L, off)
            else:
                m = unlit(z3.If(z3.IntVal(q) < L % k, L / z3.IntVal(k) + 1, L / z3.IntVal(k)))
            idx = [slice(None)] * a.ndim
            idx[axis] = slice(lift(off), lift(iadd(off, m)))
            out.append(np_.getitem(a, tuple(idx)))
            off = iadd(off, m)
        return out

    @native_first(np.digitize)
    def _digitize(i, x, bins, right=False):
        """for increasing bins (an obligation): the first bin b with x < b (right=False) resp. x <= b, else the number of bins"""
        b = as_sym(np_.prep(bins))
        g = b.snap()
        n = b.shape[0]
        k = FreshInt("bin")
        at = lambda q: lift(g((unlit(q),))).as_real()
        i.oblige("increasing bins", z3.Implies(And(0 <= k, k + 1 < zint(n)), at(k) < at(k + 1)))

        def f(v):
            v = lift(v).as_real()
            return Val('i', FirstT(z3.IntVal(0), zint(n), lambda q: v <= at(q) if right else v < at(q)))
        return np_.elementwise(f, np.int64, x)

    @native_first(np.unwrap)
    def _unwrap(i, x, *a, **k):
        x = as_sym(np_.prep(x))
        if len(a) > 2 or set(k) - {'discont', 'axis'}:
            raise Unsupported("unwrap with a period")
        disc = a[0] if a else k.get('discont')
        ax = (a[1] if len(a) > 1 else k.get('axis', -1)) % x.ndim
        g = x.snap()
        it.assumed['unwrap adds multiples of 2*pi that depend on the samples up to there'] = 1

        def content(idx):
            idx = cidx(idx)
            # the number of turns at n is a function of the samples 0..n along the axis
            at = lambda q: g(tuple(unlit(q) if d == ax else y for d, y in enumerate(idx))).as_real()
            kk = FreshInt("u")
            turns = T.make_binder('UNWRAP' + ('' if disc is None else str(disc)), kk, z3.IntVal(0), zint(idx[ax]) + 1, at(kk), INT)
            return Val('f', g(idx).as_real() + 2 * PI * z3.ToReal(turns))
        r = SymArr.from_fn(x.shape, x.dtype, content)
        r.unwrapped_from = x
        return np_.wrap_like(r, [x])

    @native_first(np.polyfit)
    def _polyfit(i, x, y, deg, **k):
        x, y = as_sym(np_.prep(x)), as_sym(np_.prep(y))
        if deg != 1 or k or x.ndim != 1 or y.ndim != 1:
            raise Unsupported("polyfit other than a straight line")
        it.assumed['polyfit of degree one is the least-squares line'] = 1
        n = zint(x.shape[0])
        i.oblige("as many values as points", n == zint(y.shape[0]))
        i.oblige("points for a line", n >= 2)
        gx, gy = x.snap(), y.snap()
        X, Y = (lambda q: lift(gx((unlit(q),))).as_real()), (lambda q: lift(gy((unlit(q),))).as_real())
        zero, rn = z3.IntVal(0), z3.ToReal(n)
        mx, my = SumT(zero, n, X) / rn, SumT(zero, n, Y) / rn
        a = SumT(zero, n, lambda q: (X(q) - mx) * (Y(q) - my)) / SumT(zero, n, lambda q: (X(q) - mx) * (X(q) - mx))
        return np_.array([Val('f', a), Val('f', my - a * mx)])

    @native_first(np.interp)
    def _interp(i, x, xp, fp, **k):
        x, xp, fp = [as_sym(np_.prep(q)) for q in (x, xp, fp)]
        if k or xp.ndim != 1 or fp.ndim != 1:
            raise Unsupported("interp")
        n = xp.shape[0]
        i.oblige("as many values as points", zint(n) == zint(fp.shape[0]))
        i.oblige("points to interpolate between", zint(n) > 0)
        gx, gf = xp.snap(), fp.snap()
        X, F = (lambda q: lift(gx((unlit(q),))).as_real()), (lambda q: lift(gf((unlit(q),))).as_real())
        q = FreshInt("k")
        i.oblige("increasing points", z3.Implies(And(0 <= q, q + 1 < zint(n)), X(q) < X(q + 1)))
        return np_.elementwise(lambda v: Val('f', interp_term(lift(v).as_real(), zint(n), X, F)), np.float64, x)

    @native_first(np.einsum)
    def _einsum(i, spec, *ops):
        ins, out = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        ops = [as_sym(np_.prep(o)) for o in ops]
        ext = {}
        for s, o in zip(ins, ops):
            for c, d in zip(s, o.shape):
                if c in ext:
                    if not np_.eqdim(ext[c], d):
                        raise FlowRaise(ValueError("einsum dims"), "einsum")
                else:
                    ext[c] = d
        red = [c for c in ext if c not in out]
        gs = [o.snap() for o in ops]
        dt = np.result_type(*[o.dtype for o in ops])

        def content(idx):
            env = dict(zip(out, idx))

            def f(ii):
                e = dict(env)
                e.update(zip(red, ii))
                r = None
                for s, g in zip(ins, gs):
                    v = g(tuple(e[c] for c in s))
                    r = v if r is None else binop('*', r, v)
                return r
            if not red:
                return f([])
            return np_._sumred([ext[c] for c in red], f, None)
        sh = tuple(ext[c] for c in out)
        r = SymArr.from_fn(sh, dt, content)
        return r if sh else r.get(())

    # random numbers: fresh symbolic arrays
    def rnd(f, cons):
        def m(i, *a, **k):
            sh, dt, rng = cons(*a, **k)
            sh = tuple(unlit(s) for s in sh)
            it.assumed['random values are arbitrary'] = 1
            if not sh:
                c = z3.Const(fresh_name("rnd"), INT if dkind(dt) == 'i' else REAL)
                if rng is not None:
                    it.assume(And(zint(rng[0]) <= c, c < zint(rng[1])))
                return Val(dkind(dt), c, None, np.dtype(dt))
            r = input_array(fresh_name("rnd"), sh, dt)
            it.fresh_arrays.setdefault('random', []).append(r)
            if rng is not None:
                lo, hi = zint(rng[0]), zint(rng[1])
                n = len(sh)
                g = r.snap()
                it.schemas.append(Schema(n, lambda *t: And(lo <= g(t).re, g(t).re < hi), "random range"))
            return r
        M[f] = m
    rnd(np.random.randn, lambda *sh: (sh, np.dtype(float), None))
    rnd(np.random.rand, lambda *sh: (sh, np.dtype(float), None))
    rnd(np.random.normal, lambda loc=0, scale=1, size=(): (np_.shape_of(size) if size != () and size is not None else (), np.dtype(float), None))
    rnd(np.random.randint, lambda lo, hi=None, size=(), dtype=int: (np_.shape_of(size) if size != () and size is not None else (), np.dtype(dtype),
                                                                 (0, unlit(lo)) if hi is None else (unlit(lo), unlit(hi))))
    # dtype helpers
    M[np.dtype] = lambda i, *a, **k: np.dtype(*a, **k)
    M[np.result_type] = lambda i, *a: np.result_type(*[_dummy(x) for x in a])
    M[np.iscomplex] = lambda i, x: np_.elementwise(lambda v: Val('b', lift(v).as_cpx()[1] != 0), bool, x)
    M[np.isclose] = lambda i, a, b, *r, **k: np.isclose(a, b, *r, **k) if conc(a, b) else np_.elementwise(lambda x, y: isclose(x, y), bool, a, b)

    def isclose(x, y):
        # |x-y| <= 1e-8 + 1e-5*|y|
        d = vabs(binop('-', x, y))
        return compare('<=', d, binop('+', 1e-8, binop('*', 1e-5, vabs(y))))

    for t in (np.float32, np.float64, np.complex64, np.complex128, np.int32, np.int64, np.uint8, np.int16, np.uint, np.bool_, np.uint32, np.int8):
        def mk(t):
            def m(i, x=0):
                x = np_.prep(x)
                if isinstance(x, SymArr):
                    return np_.astype(x, t)
                if isinstance(x, Val):
                    return cast(x, dkind(t), np.dtype(t))
                return t(x)
            return m
        M[t] = mk(t)
    from .fftmodel import install_fft
    install_fft(it, np_, native_first)
    from .iomodel import install_io
    install_io(it)


def sgn(v):
    x = v.as_real()
    t = z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
    if v.kind == 'i':
        x = v.as_int()
        return Val('i', z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0))))
    return Val('f', t)


def sinc_term(x):
    return z3.If(x == 0, z3.RealVal(1), SIN(PI * x) / (PI * x)) if not z3.is_rational_value(x) else \
        (z3.RealVal(1) if T._is0(x) else SIN(PI * x) / (PI * x))


def csqrt(v):
    if T._is0(v.im) and nonneg_syn(v.re):
        return Val('c', sqrt_term(v.re), z3.RealVal(0))
    raise Unsupported("complex square root")


def toint_sum(t):
    r = toint(t)
    return r
