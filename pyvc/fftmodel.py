"""Contract of the discrete Fourier transform: opaque, linear, invertible, energy preserving (trusted)."""
import itertools
import numpy as np
import z3
from .terms import *
from .arrays import *
from . import interp as I
from .interp import as_sym, Unsupported, FlowRaise, same_int


def install_fft(it, np_, native_first):
    recs = []          # (time-domain arr, frequency-domain arr, axis)
    it.fft_records = recs

    def same_arr(a, b):
        if a.ndim != b.ndim or not all(same_int(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        if a.buf is b.buf and a.fwd is b.fwd and a.part == b.part:
            return True
        small = [range(d) if isinstance(d, int) and d <= 4 else (None,) for d in a.shape]
        from .prover import prove
        for pick in itertools.product(*small):
            idx = tuple(FreshInt("f") if p is None else p for p in pick)
            fm = len(it.facts)
            for i, s in zip(idx, a.shape):
                if not isinstance(i, int):
                    it.facts.append((And(i >= 0, i < zint(s)), False))
            try:
                x, y = a.get(idx), b.get(idx)
                xr, xi = x.as_cpx()
                yr, yi = y.as_cpx()
                for u, v in ((xr, yr), (xi, yi)):
                    if not quick_no(u, v) and prove(it.ctx(), u == v, 6, use_cvc5=False) is None or quick_no(u, v):
                        return False
            finally:
                del it.facts[fm:]
        return True

    def quick_no(u, v):
        """different functions of the program are involved, so the arrays are not the same"""
        f = lambda t: {x.decl().name() for x in subterms(t) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and
                       x.decl().name().split("_")[0].split("!")[0] in ("FFT", "IFFT")}
        return not z3.is_rational_value(z3.simplify(u - v)) and bool(f(u) or f(v)) and not (f(u) & f(v)) 

    def frozen(a):
        g = a.snap()
        return SymArr.from_fn(a.shape, a.dtype, g)

    def transform(x, axis, forward):
        x = as_sym(np_.prep(x))
        ax = axis % x.ndim
        x = frozen(x)
        for t, f, a in recs:
            src, dst = (t, f) if forward else (f, t)
            if a == ax and same_arr(src, x):
                return frozen(dst)
        dt = np.dtype(complex) if x.dtype.itemsize >= 8 and x.dtype != np.dtype('c8') else np.dtype(complex)
        r = input_array(fresh_name("FFT" if forward else "IFFT"), x.shape, dt)
        recs.append((x, r, ax) if forward else (r, x, ax))
        it.assumed['fft/ifft are mutually inverse (and unitary up to 1/N)'] = 1
        return frozen(r)

    def fwd(i, x, n=None, axis=-1, **k):
        if n is not None and not same_int(unlit(n), as_sym(np_.prep(x)).shape[axis]):
            x = padded(as_sym(np_.prep(x)), axis, unlit(n))
        return transform(x, axis, True)

    def padded(x, axis, n):
        """zeros appended (samples dropped) along the axis to make it n long"""
        ax, g = axis % x.ndim, x.snap()
        L = zint(x.shape[ax])

        def content(idx):
            v = lift(g(idx))
            c = zint(idx[ax]) < L
            if v.kind == 'c':
                return Val('c', z3.If(c, v.re, z3.RealVal(0)), z3.If(c, v.im, z3.RealVal(0)))
            return Val('f', z3.If(c, v.as_real(), z3.RealVal(0)))
        return SymArr.from_fn(tuple(n if d == ax else s_ for d, s_ in enumerate(x.shape)), x.dtype, content)

    def inv(i, x, n=None, axis=-1, **k):
        if n is not None and not same_int(unlit(n), as_sym(np_.prep(x)).shape[axis]):
            raise Unsupported("ifft with zero padding")
        return transform(x, axis, False)
    import scipy.fft as sf
    for m in (np.fft, sf):
        native_first(m.fft)(fwd)
        native_first(m.ifft)(inv)

    def shift(sign):
        def m(i, x, axes=None):
            x = as_sym(np_.prep(x))
            ax = range(x.ndim) if axes is None else ([axes] if isinstance(axes, int) else list(axes))
            ax = [a % x.ndim for a in ax]
            for a in ax:
                n = x.shape[a]
                h = n // 2 if isinstance(n, int) else unlit(zint(n) / z3.IntVal(2))
                x = np_.roll(x, h if sign > 0 else (-h if isinstance(h, int) else Val('i', -h)), a)
            return x
        return m
    for m in (np.fft, sf):
        native_first(m.fftshift)(shift(1))
        native_first(m.ifftshift)(shift(-1))

    def fftfreq(i, n, d=1.0, **k):
        n = unlit(n)
        zn = zint(n)
        dd = lift(np_.prep(d)).as_real()

        def content(idx):
            k = zint(idx[0])
            j = z3.If(2 * k < zn, k, k - zn)
            return Val('f', z3.ToReal(j) / (z3.ToReal(zn) * dd))
        return SymArr.from_fn((n,), float, content)
    for m in (np.fft, sf):
        native_first(m.fftfreq)(fftfreq)
