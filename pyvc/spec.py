"""Dual-use contracts.  A contract is one python function c(S, **case).  Run with a symbolic S it produces proof
obligations from the interpreted source; run with a concrete S it draws inputs, runs the real code natively and
evaluates the same pre- and postconditions."""
import itertools, math, time, traceback
import numpy as np
import z3
from .terms import *
from . import terms as T
from .arrays import *
from . import interp as I
from .interp import Interp, FlowRaise, Infeasible, IndexedSeq
from . import prover as P

REGISTRY = []


class Contract:
    def __init__(self, prop, name, fn, cases, kind, trials, thorough, timeout, budget, funcs, unroll, note):
        self.prop, self.name, self.fn, self.cases, self.kind = prop, name, fn, cases, kind
        self.trials, self.thorough, self.timeout, self.budget, self.funcs = trials, thorough, timeout, budget, funcs
        self.unroll, self.note = unroll, note


def contract(prop, cases=None, kind="proof", trials=12, thorough=False, timeout=30.0, budget=400.0, funcs=(), unroll=None,
             name=None, note="", also=()):
    """kind: proof (symbolic + concrete replay search) | bounded (concrete only, never counted as proved)"""
    def deco(fn):
        for p in (prop,) + tuple(also):
            REGISTRY.append(Contract(p, name or fn.__name__, fn, cases or [{}], kind, trials, thorough, timeout, budget,
                                     tuple(funcs), unroll, note))
        return fn
    return deco


class Reject(Exception):
    pass


class CheckFail(Exception):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Raised:
    """result of S.attempt when the call raised"""
    def __init__(self, name, text):
        self.name, self.text = name, text

    def __repr__(self): return "Raised(%s: %s)" % (self.name, self.text)


# =====================================================================================================  symbolic
class SymS:
    symbolic = True

    def __init__(self, it):
        self.it = it
        self.uniq = {}
        it.contracts.clear()
        self.pre = []

    # ---- inputs
    def _name(self, n):
        k = self.uniq.get(n, 0)
        self.uniq[n] = k + 1
        return n if k == 0 else "%s_%d" % (n, k)

    def int(self, name, lo=None, hi=None, cmax=None, cmin=None, dt=None):
        c = z3.Int(self._name(name))
        if lo is not None:
            self.it.assume(c >= zint(lo))
        if hi is not None:
            self.it.assume(c <= zint(hi))
        return Val('i', c, None, dt)

    def bits(self, c):
        """constant machine word"""
        return Val('bv', z3.BitVecVal(c, 64), None, np.dtype(np.int64))

    def ghost(self, name, arity, kind, dt=None):
        """ghost function of integers (symbolic mode only)"""
        srt = {'c': z3.RealSort(), 'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 'bv': z3.BitVecSort(64)}[kind]
        fs = [z3.Function("%s!g%s" % (self._name(name), p), *([z3.IntSort()] * arity + [srt])) for p in (('re', 'im') if kind == 'c' else ('',))]

        def g(*ix):
            z = [zint(i.as_int() if isinstance(i, Val) else i) for i in ix]
            v = [f(*z) for f in fs]
            return Val(kind, v[0], v[1] if kind == 'c' else None, dt)
        return g

    def invariant(self, name, depth, kind, arity, fn, step, base=None):
        """loop invariant: see loops.Inv (the ghost functions used must be defined by step and base)"""
        from .loops import Inv
        self.it.cands.append(Inv(name, depth, kind, arity, fn, step, base))

    def word(self, name, hi=None):
        """non-negative 64-bit machine word below hi"""
        c = z3.BitVec(self._name(name), 64)
        self.it.assume(z3.ULT(c, z3.BitVecVal(int(hi if hi is not None else 2 ** 62), 64)))
        return Val('bv', c, None, np.dtype(np.int64))

    def real(self, name, lo=None, hi=None, strict=False, crange=None, dt=None):
        c = z3.Real(self._name(name))
        if lo is not None:
            l = lift(lo).as_real()
            self.it.assume(c > l if strict else c >= l)
        if hi is not None:
            h = lift(hi).as_real()
            self.it.assume(c < h if strict else c <= h)
        return Val('f', c, None, None if dt is None else np.dtype(dt))

    def cplx(self, name, dt=None):
        n = self._name(name)
        return Val('c', z3.Real(n + "_re"), z3.Real(n + "_im"), None if dt is None else np.dtype(dt))

    def bool(self, name):
        return Val('b', z3.Bool(self._name(name)))

    def array(self, name, shape, dtype, gen=None, lo=None, hi=None, cls=None, attrs=None):
        a = input_array(self._name(name), tuple(unlit(s) if not isinstance(s, Val) else s.as_int() for s in shape), dtype)
        if cls is not None:
            a = a.as_cls(cls, attrs or {})
        if lo is not None or hi is not None:
            c = a.buf.content

            def fn(*idx):
                v = c(tuple(idx))
                r = []
                if lo is not None:
                    r.append(v.re >= (zint(lo) if v.kind == 'i' else lift(lo).as_real()))
                if hi is not None:
                    r.append(v.re <= (zint(hi) if v.kind == 'i' else lift(hi).as_real()))
                return And(*r)
            self.forall_fact(len(shape), fn, trigger=a.buf.name)
        a.buf0 = a.buf.content
        return a

    def const(self, x):
        """concrete data handed to the code as it is"""
        return x

    def forall_fact(self, arity, fn, trigger=None):
        s = P.Schema(arity, lambda *i: (lambda r: r.as_bool() if isinstance(r, Val) else r)(fn(*i)), trigger or "pre")
        self.it.schemas.append(s)
        s.cheap = True

    def require(self, cond):
        self.it.assume(self._b(cond))

    def assume_forall(self, dims, fn):
        """precondition over all index tuples below dims"""
        dims = [zint(d) for d in dims]

        def f(*idx):
            vs = [Val('i', zint(i)) for i in idx]
            g = And(*[And(zint(i) >= 0, zint(i) < d) for i, d in zip(idx, dims)])
            return z3.Implies(g, self._b(fn(*vs)))
        self.forall_fact(len(dims), f)

    def _b(self, c):
        if isinstance(c, Val):
            return c.as_bool()
        if isinstance(c, (bool, np.bool_)):
            return z3.BoolVal(bool(c))
        return c

    # ---- running code
    def call(self, f, *a, **k):
        try:
            return self.it.call(f, list(a), k)
        except FlowRaise as r:
            self.it.obls.append(I.Obligation("no exception (%s: %s)" % (type(r.exc).__name__, r.where),
                                             [x for x, _ in self.it.facts], z3.BoolVal(False), list(self.it.schemas)))
            raise Infeasible()

    def attempt(self, f, *a, **k):
        try:
            return self.it.call(f, list(a), k)
        except FlowRaise as r:
            return Raised(type(r.exc).__name__, str(r.exc))

    def method(self, o, name, *a, **k):
        try:
            f = self.it.getattr(o, name)
        except FlowRaise as r:
            self.ensure("no exception in .%s (%s)" % (name, r.exc), False)
            raise Infeasible()
        return self.call(f, *a, **k)

    def attr(self, o, name):
        try:
            return self.it.getattr(o, name)
        except FlowRaise as r:
            self.ensure("no exception in .%s (%s %s)" % (name, type(r.exc).__name__, r.exc), False)
            raise Infeasible()

    def shape(self, a):
        return tuple(Val('i', s) if not isinstance(s, int) else s for s in I.as_sym(a).shape)

    def elem(self, a, *idx):
        a = I.as_sym(a)
        return a[tuple(idx)]

    def row(self, a, i):
        return self.it.getitem(a, i)

    def view(self, a, index):
        return self.it.getitem(a, index)

    def dtype(self, a):
        return a.dtype

    def cls(self, a):
        return a.cls if isinstance(a, SymArr) else type(a)

    def concrete(self, c):
        """decide a condition (forks the proof)"""
        return self.it.decide(self._b(c))

    def initial(self, a):
        """the contents of an input at entry (spec side), as an array that later writes do not affect"""
        c = a.buf0
        return SymArr(a.shape, a.dtype, Buffer(a.shape, a.dtype, c, None))

    def by_contract(self, f, spec, proved_by):
        """calls of f are answered by its contract (proved separately by the named contract) instead of its body"""
        self.it.contracts[f] = lambda it, *a, **k: spec(self, *a, **k)
        self.it.assumed["contract of %s.%s (proved by %s)" % (f.__module__, f.__name__, proved_by)] = 1

    def recorder(self):
        """context in which the arrays drawn from np.random are recorded, in order"""
        return SymRec(self.it)

    def array_of(self, shape, dtype, fn):
        return SymArr.from_fn(tuple(unlit(s.as_int() if isinstance(s, Val) else s) for s in shape), np.dtype(dtype),
                              lambda idx: lift(fn(*[Val('i', zint(i)) if not isinstance(i, int) else i for i in idx])))

    # ---- spec vocabulary
    def sum(self, n, fn, lo=0):
        probe = lift(fn(Val('i', FreshInt("q"))))
        lo_, hi_ = zint(lo), zint(n)
        if probe.kind == 'c':
            return Val('c', SumT(lo_, hi_, lambda k: lift(fn(Val('i', k))).re), SumT(lo_, hi_, lambda k: lift(fn(Val('i', k))).im))
        r = SumT(lo_, hi_, lambda k: lift(fn(Val('i', k))).as_real())
        return Val('f', r)

    def count(self, n, fn):
        return self.sum(n, lambda i: self.ite(fn(i), 1.0, 0.0))

    def mean(self, n, fn):
        return self.sum(n, fn) / lift_int(n)

    def min(self, n, fn, lo=0):
        return Val('f', MinT(lo, zint(n), lambda k: lift(fn(Val('i', k))).as_real(), 'MIN'))

    def max(self, n, fn, lo=0):
        return Val('f', MinT(lo, zint(n), lambda k: lift(fn(Val('i', k))).as_real(), 'MAX'))

    def argmin(self, n, fn, lo=0):
        return Val('i', MinT(lo, zint(n), lambda k: lift(fn(Val('i', k))).as_real(), 'ARGMIN'))

    def argmax(self, n, fn, lo=0):
        return Val('i', MinT(lo, zint(n), lambda k: lift(fn(Val('i', k))).as_real(), 'ARGMAX'))

    def ite(self, c, a, b):
        c = self._b(c)
        if z3.is_true(c):
            return a() if callable(a) else a
        if z3.is_false(c):
            return b() if callable(b) else b
        return vite(c, a() if callable(a) else a, b() if callable(b) else b)

    def _f1(self, x, fn):
        return self.it.call(fn, [x], {})

    def sqrt(self, x): return Val('f', sqrt_term(lift(x).as_real()))
    def abs(self, x): return vabs(lift(x))
    def abs2(self, x): return abs2(lift(x))
    def re(self, x): return lift(x).real
    def im(self, x): return lift(x).imag
    def conj(self, x): return lift(x).conj()
    def exp(self, x): return self._f1(x, np.exp)
    def log2(self, x): return self._f1(x, np.log2)
    def log10(self, x): return self._f1(x, np.log10)
    def cos(self, x): return self._f1(x, np.cos)
    def sin(self, x): return self._f1(x, np.sin)
    def fn(self, f, *x): return self.it.call(f, list(x), {})
    def complex(self, a, b): return Val('c', lift(a).as_real(), lift(b).as_real())
    def and_(self, *c): return Val('b', And(*[self._b(x) for x in c]))
    def or_(self, *c): return Val('b', Or(*[self._b(x) for x in c]))
    def not_(self, c): return Val('b', Not(self._b(c)))
    def implies(self, a, b): return Val('b', z3.Implies(self._b(a), self._b(b() if callable(b) else b)))
    def eq(self, a, b, tol=None): return compare('==', lift(a), lift(b))
    def le(self, a, b, tol=None): return compare('<=', lift(a), lift(b))
    def lt(self, a, b, tol=None): return compare('<', lift(a), lift(b))
    def imin(self, a, b): return self.ite(lift(a) <= lift(b), a, b)
    def imax(self, a, b): return self.ite(lift(a) >= lift(b), a, b)
    def pi(self): return Val('f', PI)
    def toint(self, x):
        v = lift(x)
        from .npmodels import toint
        return Val('i', toint(v.re) if v.kind == 'f' else v.as_int())

    def is_integer(self, x):
        t = lift(x).as_real()
        try:
            p = poly(t)
            if all(c.denominator == 1 and all(e > 0 and z3.is_int(ATOMS[a]) for a, e in m) for m, c in p.items()):
                return Val('b', z3.BoolVal(True))
            t = poly_to_z3(p)
        except PolyTooBig:
            pass
        return Val('b', z3.ToReal(z3.ToInt(t)) == t)

    # ---- obligations
    def ensure(self, label, cond):
        self.it.obls.append(I.Obligation(label, [f for f, _ in self.it.facts], self._b(cond), list(self.it.schemas)))

    def ensure_eq(self, label, a, b, tol=None):
        self.ensure(label, compare('==', lift(a), lift(b)))

    def ensure_same(self, label, a, b):
        """python-level equality of non numeric values"""
        if isinstance(a, Val) or isinstance(b, Val):
            return self.ensure_eq(label, a, b)
        self.ensure(label, bool(a == b))

    def forall(self, dims, fn):
        """run fn on fresh indices 0<=i<dim"""
        mark = len(self.it.facts)
        ks = []
        for d in dims:
            k = FreshInt("ix")
            self.it.assume(And(k >= 0, k < zint(d)))
            ks.append(Val('i', k))
        fn(*ks)
        del self.it.facts[mark:]

    def range(self, lo, hi, fn):
        mark = len(self.it.facts)
        k = FreshInt("ix")
        self.it.assume(And(k >= zint(lo), k < zint(hi)))
        fn(Val('i', k))
        del self.it.facts[mark:]

    def ensure_array(self, label, arr, shape, fn, tol=None, dtype=None):
        arr = I.as_sym(arr) if not isinstance(arr, SymArr) else arr
        if not isinstance(arr, SymArr):
            self.ensure(label + ": is an array", False)
            return
        if len(arr.shape) != len(shape):
            self.ensure(label + ": rank", False)
            return
        for q, (s, t) in enumerate(zip(arr.shape, shape)):
            self.ensure(label + ": length of axis %d" % q, zint(s) == zint(t))
        if dtype is not None:
            self.ensure(label + ": dtype", np.dtype(arr.dtype) == np.dtype(dtype))
        self.forall(shape, lambda *ix: self.ensure(label + ": value", compare('==', arr[tuple(ix)], lift(fn(*ix)))))

    def ensure_unchanged(self, label, a):
        c0, c1 = a.buf0, a.buf.content
        if c0 is c1:
            self.ensure(label, True)
            return
        n = len(a.buf.shape)

        def f(*ix):
            z = tuple(i.as_int() for i in ix)
            self.ensure(label, compare('==', c0(z), c1(z)))
        self.forall(a.buf.shape, f)

    def ensure_fresh(self, label, r, *inputs):
        """the result shares no memory with the inputs"""
        self.ensure(label, not any(isinstance(x, SymArr) and isinstance(r, SymArr) and r.buf is x.buf for x in inputs))

    def same(self, a, b):
        return a is b

    def lemma(self, label, cond):
        """intermediate fact: proved once, then available"""
        c = self._b(cond)
        self.it.obls.append(I.Obligation("lemma " + label, [f for f, _ in self.it.facts], c, list(self.it.schemas)))
        self.it.assume(c)

    def lemma_forall(self, label, dims, fn):
        """proved for arbitrary indices, then available for all of them"""
        self.forall(dims, lambda *ix: self.ensure("lemma " + label, fn(*ix)))
        self.assume_forall(dims, fn)

    def sum_le(self, label, n, f, g, lo=0):
        """termwise f<=g, hence the sums (monotonicity of finite sums)"""
        self.range(lo, n, lambda k: self.ensure("lemma " + label, compare('<=', lift(f(k)), lift(g(k)))))
        self.it.assume(self._b(compare('<=', self.sum(n, f, lo), self.sum(n, g, lo))))

    def interp(self, v, n, X, F):
        """piecewise linear interpolation of the points (X(k), F(k)), k below n; constant outside"""
        from .npmodels import interp_term
        at = lambda f: lambda q: lift(f(Val('i', q))).as_real()
        return Val('f', interp_term(lift(v).as_real(), zint(n), at(X), at(F)))

    def unwrap(self, n, F):
        """value at n of the unwrapped sequence F(0..n)"""
        k = FreshInt("u")
        f = lambda q: lift(F(Val('i', zint(q)))).as_real()
        return Val('f', f(zint(n)) + 2 * PI * z3.ToReal(T.make_binder('UNWRAP', k, z3.IntVal(0), zint(n) + 1, f(k), z3.IntSort())))

    def note(self, text):
        pass


def lift_int(n):
    return n if isinstance(n, (Val, int)) else Val('i', n)


class SymRec:
    def __init__(self, it): self.l = it.fresh_arrays.setdefault('random', [])
    def __enter__(self):
        self.start = len(self.l)
        return self
    def __exit__(self, *a): self.got = self.l[self.start:]
    def __getitem__(self, k): return self.got[k]
    def __len__(self): return len(self.got)


class ConcRec:
    NAMES = ("randn", "rand", "normal", "randint")

    def __enter__(self):
        self.got, self.old = [], {n: getattr(np.random, n) for n in self.NAMES}
        for n, f in self.old.items():
            def g(*a, _f=f, **k):
                r = _f(*a, **k)
                self.got.append(np.array(r))
                return r
            setattr(np.random, n, g)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)

    def __getitem__(self, k): return self.got[k]
    def __len__(self): return len(self.got)


# =====================================================================================================  concrete
class ConcS:
    symbolic = False

    def __init__(self, rng, big=False, forced=None):
        self.rng = rng
        self.log = {}
        self.checks = 0
        self.big = big
        self.forced = forced or {}
        self.snap = {}
        self.tolscale = 1.0
        self.single = False

    def _name(self, n):
        k, b = 0, n
        while n in self.log:
            k += 1
            n = "%s_%d" % (b, k)
        return n

    def int(self, name, lo=None, hi=None, cmax=None, cmin=None, dt=None):
        name = self._name(name)
        l = int(cmin if cmin is not None else lo if lo is not None else -5)
        h = int(cmax if cmax is not None else hi if hi is not None else l + 6)
        if hi is not None:
            h = min(h, int(hi))
        if lo is not None:
            l = max(l, int(lo))
        if h < l:
            raise Reject()
        if name in self.forced and l <= self.forced[name] <= max(h, l + 40):
            v = int(self.forced[name])
        else:
            r = self.rng.random()
            v = l if r < .15 else h if r < .3 else int(self.rng.integers(l, h + 1))
        self.log[name] = v
        return v if dt is None else np.dtype(dt).type(v)

    def word(self, name, hi=None):
        n = int(self.rng.integers(0, 63))
        v = int(self.rng.integers(0, 2 ** n)) % int(hi if hi is not None else 2 ** 62)
        self.log[self._name(name)] = v
        return np.int64(v)

    def real(self, name, lo=None, hi=None, strict=False, crange=None, dt=None):
        name = self._name(name)
        if crange is not None:
            l, h = crange
        else:
            l = float(lo) if lo is not None else -3.0
            h = float(hi) if hi is not None else l + 6.0
        v = float(self.rng.uniform(l, h))
        if not strict and self.rng.random() < .1:
            v = l
        self.log[name] = v
        return v if dt is None else np.dtype(dt).type(v)

    def cplx(self, name, dt=None):
        v = complex(self.rng.normal(), self.rng.normal())
        self.log[self._name(name)] = repr(v)
        return v if dt is None else np.dtype(dt).type(v)

    def bool(self, name):
        v = bool(self.rng.integers(0, 2))
        self.log[self._name(name)] = v
        return v

    def array(self, name, shape, dtype, gen=None, lo=None, hi=None, cls=None, attrs=None):
        name = self._name(name)
        dt = np.dtype(dtype)
        if dt in (np.dtype('f4'), np.dtype('c8')):
            self.single = True
        shape = tuple(int(s) for s in shape)
        if gen is not None:
            a = np.array(gen(self.rng, shape)).astype(dt)
        elif dt.kind == 'b':
            a = self.rng.integers(0, 2, shape).astype(bool)
        elif dt.kind in 'iu':
            a = self.rng.integers(int(lo) if lo is not None else -4, int(hi) + 1 if hi is not None else 9, shape).astype(dt)
        elif dt.kind == 'f':
            a = self.rng.uniform(float(lo), float(hi), shape) if lo is not None and hi is not None else self.rng.normal(size=shape)
            if lo is not None and hi is None:
                a = float(lo) + np.abs(a)
            a = a.astype(dt)
        else:
            a = (self.rng.normal(size=shape) + 1j * self.rng.normal(size=shape)).astype(dt)
        self.log[name] = "array%s %s %s" % (shape, dt, np.array2string(a.ravel()[:48], precision=6, threshold=48))
        if cls is not None:
            b = a.view(cls)
            for k, v in (attrs or {}).items():
                setattr(b, k, v)
            a = b
        self.snap[id(a)] = (a, np.array(a, copy=True, subok=False))
        return a

    def const(self, x):
        return x

    def require(self, c):
        if not c:
            raise Reject()

    def assume_forall(self, dims, fn):
        for ix in itertools.product(*[range(int(d)) for d in dims]):
            if not fn(*ix):
                raise Reject()

    def call(self, f, *a, **k):
        return f(*a, **k)

    def attempt(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as ex:
            return Raised(type(ex).__name__, str(ex))

    def method(self, o, name, *a, **k):
        return getattr(o, name)(*a, **k)

    def attr(self, o, name):
        return getattr(o, name)

    def shape(self, a):
        return np.shape(a)

    def elem(self, a, *idx):
        return np.asarray(a)[tuple(int(i) for i in idx)]

    def row(self, a, i):
        return np.asarray(a)[i]

    def view(self, a, index):
        return a[index]

    def dtype(self, a):
        return a.dtype

    def cls(self, a):
        return type(a)

    def concrete(self, c):
        return bool(c)

    def initial(self, a):
        return self.snap[id(a)][1]

    def by_contract(self, f, spec, proved_by):
        pass

    def array_of(self, shape, dtype, fn):
        shape = tuple(int(x) for x in shape)
        r = np.zeros(shape, np.result_type(dtype, np.float64) if np.dtype(dtype).kind in 'fc' else dtype)
        for ix in itertools.product(*[range(d) for d in shape]):
            r[ix] = fn(*ix)
        return r

    def recorder(self):
        return ConcRec()

    # ---- vocabulary
    def sum(self, n, fn, lo=0):
        return sum((fn(i) for i in range(int(lo), int(n))), 0.0)

    def count(self, n, fn):
        return float(sum(1 for i in range(int(n)) if fn(i)))

    def mean(self, n, fn):
        return self.sum(n, fn) / int(n)

    def min(self, n, fn, lo=0): return min(fn(i) for i in range(int(lo), int(n)))
    def max(self, n, fn, lo=0): return max(fn(i) for i in range(int(lo), int(n)))
    def argmin(self, n, fn, lo=0): return int(lo) + int(np.argmin([fn(i) for i in range(int(lo), int(n))]))
    def argmax(self, n, fn, lo=0): return int(lo) + int(np.argmax([fn(i) for i in range(int(lo), int(n))]))

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def sqrt(self, x): return np.sqrt(x)
    def abs(self, x): return abs(x)
    def abs2(self, x): return abs(x) ** 2
    def re(self, x): return x.real
    def im(self, x): return x.imag
    def conj(self, x): return np.conj(x)
    def exp(self, x): return np.exp(x)
    def log2(self, x): return np.log2(x)
    def log10(self, x): return np.log10(x)
    def cos(self, x): return np.cos(x)
    def sin(self, x): return np.sin(x)
    def fn(self, f, *x): return f(*x)
    def complex(self, a, b): return complex(a, b)
    def and_(self, *c): return all(bool(x) for x in c)
    def or_(self, *c): return any(bool(x) for x in c)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b() if callable(b) else b)
    def eq(self, a, b, tol=None): return self.close(a, b, tol)
    def le(self, a, b, tol=None): return a <= b + self._tol(a, b, tol)
    def lt(self, a, b, tol=None): return a < b
    def imin(self, a, b): return a if a <= b else b
    def imax(self, a, b): return a if a >= b else b
    def pi(self): return np.pi
    def toint(self, x): return int(x)
    def is_integer(self, x): return abs(x - round(x)) < (1e-3 if self.single else 1e-8)

    def _tol(self, a, b, tol):
        if tol is None:
            tol = 2e-4 if self.single else 1e-9
            for x in (a, b):
                d = getattr(x, 'dtype', None)
                if d is not None and d.kind in 'fc' and d.itemsize // (2 if d.kind == 'c' else 1) < 8:
                    tol = 2e-4
        s = 1.0
        try:
            s = max(1.0, abs(a), abs(b))
        except Exception:
            pass
        return tol * s * self.tolscale

    def close(self, a, b, tol=None):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return int(a) == int(b)
        if np.size(a) != 1 or np.size(b) != 1:
            a, b = np.broadcast_arrays(a, b)
            return all(self.close(x, y, tol) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        a, b = (np.asarray(x).item() if isinstance(x, np.ndarray) else x for x in (a, b))
        if a == b:
            return True
        try:
            if a != a and b != b:
                return True
        except Exception:
            pass
        return bool(abs(a - b) <= self._tol(a, b, tol))

    # ---- checks
    def ensure(self, label, cond):
        self.checks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not cond:
            raise CheckFail(label, "condition is false")

    def ensure_eq(self, label, a, b, tol=None):
        self.checks += 1
        if not self.close(a, b, tol):
            raise CheckFail(label, "got %r, specified %r" % (a, b))

    def ensure_same(self, label, a, b):
        self.checks += 1
        if isinstance(a, float) and isinstance(b, float) and self.close(a, b):
            return
        if not (a == b):
            raise CheckFail(label, "got %r, specified %r" % (a, b))

    def forall(self, dims, fn):
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= max(d, 0)
        if tot <= 600:
            for ix in itertools.product(*[range(d) for d in dims]):
                fn(*ix)
        else:
            for _ in range(500):
                fn(*[int(self.rng.integers(0, d)) if self.rng.random() < .8 else (0 if self.rng.random() < .5 else d - 1) for d in dims])

    def range(self, lo, hi, fn):
        lo, hi = int(lo), int(hi)
        if hi - lo <= 600:
            for i in range(lo, hi):
                fn(i)
        else:
            for _ in range(500):
                fn(int(self.rng.integers(lo, hi)))

    def ensure_array(self, label, arr, shape, fn, tol=None, dtype=None):
        self.checks += 1
        if not isinstance(arr, np.ndarray) and not np.isscalar(arr):
            raise CheckFail(label + ": is an array", "got %r" % type(arr))
        a = np.asarray(arr)
        if a.shape != tuple(int(s) for s in shape):
            raise CheckFail(label + ": length of axis", "shape %s, specified %s" % (a.shape, tuple(int(s) for s in shape)))
        if dtype is not None and a.dtype != np.dtype(dtype):
            raise CheckFail(label + ": dtype", "got %s, specified %s" % (a.dtype, dtype))

        def f(*ix):
            self.checks += 1
            g, w = a[ix], fn(*ix)
            if not self.close(g, w, tol):
                raise CheckFail(label + ": value", "at %s got %r, specified %r" % (ix, g, w))
        self.forall(shape, f)

    def ensure_unchanged(self, label, a):
        self.checks += 1
        o, s = self.snap[id(a)]
        if not np.array_equal(np.asarray(o), s, equal_nan=s.dtype.kind in 'fc'):
            raise CheckFail(label, "input was modified")

    def ensure_fresh(self, label, r, *inputs):
        self.checks += 1
        if any(isinstance(x, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(x, r) for x in inputs):
            raise CheckFail(label, "result shares memory with an input")

    def same(self, a, b):
        return a is b

    def lemma(self, label, cond):
        self.ensure(label, cond)

    def lemma_forall(self, label, dims, fn):
        self.forall(dims, lambda *ix: self.ensure("lemma " + label, fn(*ix)))

    def sum_le(self, label, n, f, g, lo=0):
        pass

    def interp(self, v, n, X, F):
        return float(np.interp(float(v), [float(X(k)) for k in range(int(n))], [float(F(k)) for k in range(int(n))]))

    def unwrap(self, n, F):
        return float(np.unwrap([float(F(k)) for k in range(int(n) + 1)])[-1])

    def note(self, text):
        pass


# =====================================================================================================  runners
def run_symbolic(con, case, root, seed=0):
    """-> dict with obligations (unproved), loops, functions, models used; may raise Unsupported"""
    it = Interp(root)
    if con.unroll is not None:
        it.unroll = con.unroll
    S = SymS(it)
    paths = []

    def th():
        S.uniq = {}
        mark = len(it.obls)
        try:
            con.fn(S, **case)
        finally:
            pass
        paths.append((mark, [f for f, _ in it.facts]))
    T.POS_MADE, T.POS_SEEN = {}, None
    outs = it.explore(th)
    T.POS_SEEN = T.POS_MADE
    for o in outs:
        if o.flow == 'raise':
            it.obls.append(I.Obligation("no exception (%s: %s)" % (type(o.value.exc).__name__, o.value.where), o.conds + o.facts, z3.BoolVal(False), list(it.schemas)))
    return it, paths, S


def run_concrete(con, case, seed, trial, big=False, forced=None):
    """one concrete trial: returns (status, info, log); status ok|reject|fail"""
    rng = np.random.default_rng([seed, trial, 7919])
    np.random.seed((seed * 1000003 + trial) % (2 ** 32 - 1))
    S = ConcS(rng, big, forced)
    try:
        with np.errstate(all='ignore'):
            con.fn(S, **case)
        return 'ok', S.checks, S.log
    except Reject:
        return 'reject', None, S.log
    except CheckFail as f:
        return 'fail', "%s: %s" % (f.label, f.detail), S.log
    except Exception as ex:
        tb = traceback.format_exc().splitlines()
        return 'fail', "exception %s: %s | %s" % (type(ex).__name__, ex, " / ".join(x.strip() for x in tb[-4:-1])), S.log
